S='libamqpprox/amqpprox_session.cpp'
R='libamqpprox/amqpprox_robinbackendselector.cpp'
CM='libamqpprox/amqpprox_connectionmanager.cpp'
F='libamqpprox/amqpprox_farm.cpp'
A='libamqpprox/amqpprox_affinitypartitionpolicy.cpp'
FIN='    if (finished()) {\n        LOG_WARN << "Not establishing a connection because client already "\n                 << " disconnected";\n        return;\n    }\n'
NEXT='        auto index    = d_resolvedEndpointsIndex++;\n'
P=['C17']
M=[
('no fin',P,'bug',[(S,FIN,'')]),
('skip first',P,'bug',[(S,'            d_resolvedEndpointsIndex = 0;\n            attempt','            d_resolvedEndpointsIndex = 1;\n            attempt')]),
('preinc',P,'bug',[(S,NEXT,'        auto index    = d_resolvedEndpointsIndex;\n        d_resolvedEndpointsIndex += 2;\n')]),
('no inc',P,'bug',[(S,NEXT,'        auto index    = d_resolvedEndpointsIndex;\n')]),
('last skipped',P,'bug',[(S,'d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()','d_resolvedEndpointsIndex + 1 >= d_resolvedEndpoints.size()')]),
('off by one',P,'bug',[(S,'d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()','d_resolvedEndpointsIndex > d_resolvedEndpoints.size()')]),
('exhaust no inc',P,'bug',[(S,'        d_resolvedEndpointsIndex = 0;\n        d_egressRetryCounter++;\n','        d_resolvedEndpointsIndex = 0;\n')]),
('exhaust double',P,'bug',[(S,'        d_resolvedEndpointsIndex = 0;\n        d_egressRetryCounter++;\n','        d_resolvedEndpointsIndex = 0;\n        d_egressRetryCounter += 2;\n')]),
('resolve fail no inc',P,'bug',[(S,'            d_egressRetryCounter++;\n            attemptConnection','            attemptConnection')]),
('resolve fail disconnect',P,'bug',[(S,'            d_egressRetryCounter++;\n            attemptConnection(connectionManager);','            d_egressRetryCounter++;\n            disconnect(true);')]),
('always one endpoint',P,'bug',[(S,'                d_resolvedEndpoints = endpoints;\n','                d_resolvedEndpoints.assign(1, endpoints[0]);\n')]),
('empty list',P,'bug',[(S,'if (!ec && !endpoints.empty())','if (!ec)')]),
('ignore ec',P,'bug',[(S,'if (!ec && !endpoints.empty())','if (!endpoints.empty())')]),
('null not disconnected',P,'bug',[(S,'        disconnect(true);\n        // TODO notify EventSource\n','        // TODO notify EventSource\n')]),
('retry reset',P,'bug',[(S,'    this->updateDataRateLimits();\n\n    if (d_sessionState.getPaused()) {','    this->updateDataRateLimits();\n    d_egressRetryCounter = 0;\n    if (d_sessionState.getPaused()) {')]),
('ip for dns',P,'bug',[(S,'backend->host(), std::to_string(backend->port()), callback','backend->ip(), std::to_string(backend->port()), callback')]),
('wrong endpoint',P,'bug',[(S,'auto endpoint = d_resolvedEndpoints[index];','auto endpoint = d_resolvedEndpoints[0];')]),
('no close',P,'bug',[(S,'\n    d_clientSocket->close(closeEc);\n','\n')]),
('conn error ends',P,'bug',[(S,'    attemptResolvedConnection(connectionManager);\n}','    disconnect(true);\n}')]),
('conn error next broker',P,'bug',[(S,'    attemptResolvedConnection(connectionManager);\n}','    d_egressRetryCounter++;\n    attemptConnection(connectionManager);\n}')]),
('opts error ignored twice',P,'bug',[(S,'                handleConnectionError("local_endpoint", ec, connectionManager);\n                return;\n','                handleConnectionError("local_endpoint", ec, connectionManager);\n')]),
('sel >',P,'bug',[(R,'if (retry >= partitionSize)','if (retry > partitionSize)')]),
('sel no sub',P,'bug',[(R,'            retry -= partitionSize;\n','            retry = 0;\n')]),
('sel no ret',P,'bug',[(R,'(marker + retry) % partitionSize','marker % partitionSize')]),
('sel live marker',P,'bug',[(R,'(marker + retry) % partitionSize','(backendSet->markers()[i] + retry) % partitionSize')]),
('sel no i',P,'bug',[(R,'        ++i;\n','        i += partitionSize ? 1 : 2;\n')]),
('sel gives up',P,'bug',[(R,'            retry -= partitionSize;\n','            retry -= partitionSize;\n            if (retry > 10) {\n                return nullptr;\n            }\n')]),
('sel break',P,'bug',[(R,'            retry -= partitionSize;\n','            retry -= partitionSize;\n            if (partitionSize == 0) {\n                break;\n            }\n')]),
('cm retry',P,'bug',[(CM,'d_backendSet.get(), d_markerSnapshot, retryCount);','d_backendSet.get(), d_markerSnapshot, retryCount + 1);')]),
('cm direct once',P,'bug',[(CM,'if (retryCount > 0)','if (retryCount > 1)')]),
('cm direct never',P,'bug',[(CM,'if (partitions.size() == 0)','if (partitions.size() <= 1)')]),
('farm dup',P,'bug',[(F,'            initialPartition.push_back(backend);\n','            initialPartition.push_back(backend);\n            initialPartition.push_back(backend);\n')]),
('farm null',P,'bug',[(F,'        if (backend) {\n            initial','        {\n            initial')]),
('farm policy',P,'bug',[(F,'newSet = policy->partition(newSet);','newSet = policy->partition(d_backendSet);')]),
('aff else',P,'bug',[(A,'            else {\n                noAffinity','            else if (noAffinity.empty()) {\n                noAffinity')]),
('aff both',P,'bug',[(A,'                withAffinity.push_back(backend);\n            }\n            else {','                withAffinity.push_back(backend);\n            }\n            {')]),
('aff drop',P,'bug',[(A,'if (noAffinity.size() > 0)','if (noAffinity.size() > 1)')]),
('aff drop2',P,'bug',[(A,'        if (noAffinity.size() > 0)','        else if (noAffinity.size() > 0)')]),
('aff order',P,'bug',[(A,'        if (withAffinity.size() > 0) {\n            partitions.push_back(std::move(withAffinity));\n        }\n        if (noAffinity.size() > 0) {\n            partitions.push_back(std::move(noAffinity));\n        }','        if (noAffinity.size() > 0) {\n            partitions.push_back(std::move(noAffinity));\n        }\n        if (withAffinity.size() > 0) {\n            partitions.push_back(std::move(withAffinity));\n        }')]),
# refactors
('r index loop',P,'ok',[(R,'    for (const auto &marker : markers) {\n','    for (; i < markers.size();) {\n        const auto marker = markers[i];\n')]),
('r for',P,'ok',[(R,'    uint64_t i     = 0;\n\n    for (const auto &marker : markers) {\n','    for (uint64_t i = 0; i < markers.size(); ++i) {\n        const auto marker = markers[i];\n'),(R,'        ++i;\n','')]),
('r continue',P,'ok',[(R,'            retry -= partitionSize;\n        }\n        else {','            retry -= partitionSize;\n            ++i;\n            continue;\n        }\n        {'),(R,'        ++i;\n    }','    }')]),
('r partition ref',P,'ok',[(R,'        uint64_t partitionSize = backendSet->partitions()[i].size();\n','        const auto &partition = backendSet->partitions()[i];\n        const uint64_t partitionSize = partition.size();\n'),(R,'return backendSet->partitions()[i][point];','return partition[point];')]),
('r index++ later',P,'ok',[(S,NEXT,'        auto index    = d_resolvedEndpointsIndex;\n        d_resolvedEndpointsIndex = index + 1;\n')]),
('r clear',P+['C14'],'ok',[(S,'                d_resolvedEndpoints.resize(0);\n                d_resolvedEndpoints.push_back(endpoints[0]);','                d_resolvedEndpoints.clear();\n                d_resolvedEndpoints.push_back(endpoints.front());')]),
('r no empty',P,'ok',[(S,'d_resolvedEndpoints.empty() ||\n        ','')]),
('r swap branches',P,'ok',[(S,'if (!ec && !endpoints.empty()) {','const bool usable = !ec && !endpoints.empty();\n        if (usable) {')]),
('r resolve var',P+['C03','C14'],'ok',[(S,'    if (backend->dnsBasedEntry()) {\n        d_dnsResolver_p->resolve(\n            backend->host(), std::to_string(backend->port()), callback);\n    }\n    else {\n        // If this isn\'t a DNS based backend we still use the resolver, but\n        // with the pre-cached at creation time IP address\n        d_dnsResolver_p->resolve(\n            backend->ip(), std::to_string(backend->port()), callback);\n    }','    const auto &address = backend->dnsBasedEntry() ? backend->host() : backend->ip();\n    d_dnsResolver_p->resolve(address, std::to_string(backend->port()), callback);')]),
('r close elsewhere',P,'ok',[(S,'\n    d_clientSocket->close(closeEc);\n','\n'),(S,'    auto self(shared_from_this());\n    d_clientSocket->async_connect(','    auto self(shared_from_this());\n    error_code closeBefore;\n    d_clientSocket->close(closeBefore);\n    d_clientSocket->async_connect(')]),
('r cm',P,'ok',[(CM,'    if (d_backendSelector_p) {\n        return d_backendSelector_p->select(\n            d_backendSet.get(), d_markerSnapshot, retryCount);\n    }\n    else {','    if (d_backendSelector_p != nullptr) {\n        return d_backendSelector_p->select(\n            d_backendSet.get(), d_markerSnapshot, retryCount);\n    }\n    {')]),
('r cm empty',P,'ok',[(CM,'if (partitions.size() == 0)','if (partitions.empty())')]),
('r farm continue',P+['C19'],'ok',[(F,'        if (backend) {\n            initialPartition.push_back(backend);\n        }','        if (!backend) {\n            continue;\n        }\n        initialPartition.push_back(backend);')]),
('r farm local',P,'ok',[(F,'    std::vector<BackendSet::Partition> partitions(1);\n    BackendSet::Partition             &initialPartition = partitions[0];\n','    BackendSet::Partition initialPartition;\n'),(F,'    auto newSet = std::make_shared<BackendSet>(std::move(partitions));','    std::vector<BackendSet::Partition> partitions;\n    partitions.push_back(std::move(initialPartition));\n    auto newSet = std::make_shared<BackendSet>(std::move(partitions));')]),
('r aff',P,'ok',[(A,'            if (backend->datacenterTag() == d_datacenter_p->get()) {\n                withAffinity.push_back(backend);\n            }\n            else {\n                noAffinity.push_back(backend);\n            }','            const bool local = backend->datacenterTag() == d_datacenter_p->get();\n            auto &target = local ? withAffinity : noAffinity;\n            target.push_back(backend);')]),
('r aff empty',P,'ok',[(A,'if (noAffinity.size() > 0)','if (!noAffinity.empty())')]),
('r aff neq',P,'ok',[(A,'            if (backend->datacenterTag() == d_datacenter_p->get()) {\n                withAffinity.push_back(backend);\n            }\n            else {\n                noAffinity.push_back(backend);\n            }','            if (backend->datacenterTag() != d_datacenter_p->get()) {\n                noAffinity.push_back(backend);\n                continue;\n            }\n            withAffinity.push_back(backend);')]),
]
