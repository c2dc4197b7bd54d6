L='libamqpprox/amqpprox_'
C=L+'control.cpp'; S=L+'statcontrolcommand.cpp'; H=L+'maphostnamecontrolcommand.cpp'; CH=L+'controlcommand.h'; SE=L+'sessioncontrolcommand.cpp'
M=[
('stat-stop-noend',['C21'],'bug',[(S,'''            outputFunctor("Missing stop type.\\n", true);
            return;''','''            return;''')]),
('stat-false',['C21'],'bug',[(S,'outputFunctor("Filter specified incorrectly.\\n", true);','outputFunctor("Filter specified incorrectly.\\n", false);')]),
('stat-double',['C21'],'bug',[(S,'''            outputFunctor("Stopped sending stats.\\n", true);
        }''','''            outputFunctor("Stopped sending stats.\\n", true);
            outputFunctor("OK\\n", true);
        }''')]),
('stat-fallthrough',['C21'],'bug',[(S,'''            outputFunctor("Filters aren't supported when sending metrics.\\n",
                          true);
            return;''','''            outputFunctor("Filters aren't supported when sending metrics.\\n",
                          true);''')]),
('stat-xml',['C21'],'bug',[(S,'if (outputType != "JSON" && outputType != "HUMAN") {','if (outputType != "JSON" && outputType != "HUMAN" && outputType != "XML") {')]),
('stat-listen-unknown-filter-end',['C21'],'bug',[(S,'''        outputFunc("Unknown output format.\\n", false);
        LOG''','''        outputFunc("Unknown output format.\\n", false);
        LOG'''),(S,'    bool cont = outputFunc(oss.str(), false);','    if (filterType == "SOURCE" && statSnapshot.sources().empty()) { return false; }\n    bool cont = outputFunc(oss.str(), false);')]),
('stat-stream-ends',['C21'],'bug',[(S,'    bool cont = outputFunc(oss.str(), false);','    bool cont = outputFunc(oss.str(), true);')]),
('map-noend',['C21'],'bug',[(H,'''            outputFunctor("Only DNS subcommand is supported.\\n", true);
            return;''','''            outputFunctor("Only DNS subcommand is supported.\\n", false);
            return;''')]),
('dtor-false',['C21'],'bug',[(CH,'d_functor(this->str(), true)','d_functor(this->str(), this->str().empty())')]),
('dtor-if',['C21'],'bug',[(CH,'{ d_functor(this->str(), true); }','{ if (!this->str().empty()) { d_functor(this->str(), true); } }')]),
('noclose',['C21'],'bug',[(C,'                    d_socket.close();\n','')]),
('close-always',['C21'],'bug',[(C,'                if (finishOutput) {','                if (finishOutput || length == 0) {')]),
('early-finished',['C21'],'bug',[(C,'''        auto spOutput = std::make_shared<std::string>(output);''','''        d_finished = finishOutput;
        auto spOutput = std::make_shared<std::string>(output);''')]),
('truncate',['C21'],'bug',[(C,'boost::asio::buffer(spOutput->data(), spOutput->length())','boost::asio::buffer(spOutput->data(), std::min<std::size_t>(spOutput->length(), 65536))')]),
('null-help',['C21'],'bug',[(C,'if (controlCommand) {','if (controlCommand || commandVerb.empty()) {')]),
('no-help',['C21'],'bug',[(C,'''            auto helpCommand = d_control_p->getControlCommand("HELP");
            helpCommand->handleCommand(
                "HELP", "", outputFunc, d_server_p, d_control_p);''','''            LOG_INFO << "Unknown command " << commandVerb;''')]),
('empty-line',['C21'],'bug',[(C,'''                    processInput(line);
''','''                    if (!line.empty()) {
                        processInput(line);
                    }
''')]),
('no-reread',['C21'],'bug',[(C,'''                    processInput(line);
                    readInput();''','''                    processInput(line);''')]),
('accept-stop',['C21'],'bug',[(C,'''            controlSession->start();
        }

        doAccept();''','''            controlSession->start();
            doAccept();
        }''')]),
('functor-finish-dropped',['C21'],'bug',[(C,'return sendOutput(output, finish);','return sendOutput(output, finish && !output.empty());')]),
('functor-true',['C21'],'bug',[(C,'''            return sendOutput(output, finish);''','''            sendOutput(output, finish);
            return true;''')]),
('lower-verb',['C21'],'bug',[(SE,'return "SESSION";','return "Session";')]),
('unregister',['C21'],'bug',[('amqpprox/amqpprox.m.cpp','XX','XX')]) if 0 else ('help-elsewhere-ok',['C21'],'ok',[(C,'''        auto controlCommand = d_control_p->getControlCommand(commandVerb);
        if (controlCommand) {
            controlCommand->handleCommand(
                commandVerb, remaining, outputFunc, d_server_p, d_control_p);
        }
        else {
            auto helpCommand = d_control_p->getControlCommand("HELP");
            helpCommand->handleCommand(
                "HELP", "", outputFunc, d_server_p, d_control_p);
        }''','''        auto controlCommand = d_control_p->getControlCommand(commandVerb);
        if (!controlCommand) {
            controlCommand = d_control_p->getControlCommand("HELP");
            commandVerb    = "HELP";
            remaining.clear();
        }
        controlCommand->handleCommand(
            commandVerb, remaining, outputFunc, d_server_p, d_control_p);''')]),
('map-output-object-ok',['C21'],'ok',[(H,'''            outputFunctor("Only DNS subcommand is supported.\\n", true);
            return;''','''            ControlCommandOutput<OutputFunctor> out(outputFunctor);
            out << "Only DNS subcommand is supported.\\n";
            return;''')]),
('write-string-ok',['C21'],'ok',[(C,'boost::asio::buffer(spOutput->data(), spOutput->length())','boost::asio::buffer(*spOutput)')]),
('finish-early-return-ok',['C21'],'ok',[(C,'''                if (finishOutput) {
                    d_finished = true;
                    error_code shutdownErr;
                    d_socket.shutdown(stream_protocol::socket::shutdown_both,
                                      shutdownErr);
                    d_socket.close();
                }''','''                if (!finishOutput) {
                    return;
                }

                d_finished = true;
                error_code err;
                d_socket.shutdown(stream_protocol::socket::shutdown_both, err);
                d_socket.close(err);''')]),
('finish-helper-ok',['C21'],'ok',[(C,'''                if (finishOutput) {
                    d_finished = true;
                    error_code shutdownErr;
                    d_socket.shutdown(stream_protocol::socket::shutdown_both,
                                      shutdownErr);
                    d_socket.close();
                }''','''                if (finishOutput) {
                    finish();
                }'''),(C,'''    void start() { readInput(); }''','''    void finish()
    {
        d_finished = true;
        error_code shutdownErr;
        d_socket.shutdown(stream_protocol::socket::shutdown_both, shutdownErr);
        d_socket.close();
    }

    void start() { readInput(); }''')]),
('stat-helper-ok',['C21'],'ok',[(S,'''        if (!(iss >> outputHost)) {
            outputFunctor("No output host specified.\\n", true);
            return;
        }
        if (!(iss >> outputPort)) {
            outputFunctor("No output port specified.\\n", true);
            return;
        }''','''        const char *error = nullptr;
        if (!(iss >> outputHost)) {
            error = "No output host specified.\\n";
        }
        else if (!(iss >> outputPort)) {
            error = "No output port specified.\\n";
        }
        if (error) {
            outputFunctor(error, true);
            return;
        }''')]),
]
