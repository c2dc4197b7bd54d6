#!/bin/bash
# development aid: build and test the scratch copy given (default /tmp/dev)
W=${1:-/tmp/dev}
rm -f $W/_build/CMakeCache.txt
cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_MODULE_PATH=/opt/vp/cmake -DCMAKE_EXPORT_COMPILE_COMMANDS=ON >/tmp/devb.log 2>&1
ninja -C $W/_build -j8 >>/tmp/devb.log 2>&1 || tail -20 /tmp/devb.log
cd $W && _build/bin/amqpprox_tests --gtest_brief=1 2>&1 | tail -4
