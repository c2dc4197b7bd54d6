L='libamqpprox/amqpprox_'
lim=L+'limitcontrolcommand.cpp'; vh=L+'vhostcontrolcommand.cpp'; be=L+'backendcontrolcommand.cpp'; tls=L+'tlscontrolcommand.cpp'; fa=L+'farmcontrolcommand.cpp'
mp=L+'mapcontrolcommand.cpp'; ls=L+'listencontrolcommand.cpp'; ss=L+'sessioncontrolcommand.cpp'; stt=L+'statcontrolcommand.cpp'; dm=L+'dataratelimitmanager.cpp'; bs=L+'backendstore.cpp'; fs=L+'farmstore.cpp'
M=[
('alarm-disable-default-sets-limit',['C20'],'bug',[(lim,'limitManager->setDefaultDataRateAlarm(DISABLED_LIMIT)','limitManager->setDefaultDataRateLimit(DISABLED_LIMIT)')]),
('alarm-disable-vhost',['C20'],'bug',[(lim,'limitManager->disableVhostDataRateAlarm(vhostName);','limitManager->disableVhostDataRateLimit(vhostName);')]),
('limit-vhost-no-update',['C20'],'bug',[(lim,'''            limitManager->setVhostDataRateLimit(vhostName, bytesPerSecond);

            updateVhostLimits(serverHandle, vhostName);''','''            limitManager->setVhostDataRateLimit(vhostName, bytesPerSecond);
''')]),
('limit-update-other-vhosts',['C20'],'bug',[(lim,'session->state().getVirtualHost() == vhost','session->state().getVirtualHost() != vhost')]),
('conn-alarm-as-enforced',['C20'],'bug',[(lim,'connectionLimiterManager->setAlarmOnlyDefaultConnectionRateLimit(\n','connectionLimiterManager->setDefaultConnectionRateLimit(\n')]),
('unpause-pauses-state',['C20'],'bug',[(vh,'setPaused(vhost, false)','setPaused(vhost, true)')]),
('pause-all-sessions',['C20'],'bug',[(vh,'''            if (session->state().getVirtualHost() == vhost) {
                session->pause();
            }''','''            session->pause();''')]),
('vhost-force-graceful',['C20'],'bug',[(vh,'session->disconnect(true)','session->disconnect(false)')]),
('backend-args-swapped',['C20'],'bug',[(be,'''                      isSendProxy,
                      isSecure,
                      isDns''','''                      isSecure,
                      isSendProxy,
                      isDns''')]),
('backend-dc-name',['C20'],'bug',[(be,'''            Backend b(name,
                      datacenter,''','''            Backend b(datacenter,
                      name,''')]),
('backend-option-second-only',['C20'],'bug',[(be,'''            bool isSecure = arg1 == Constants::tlsCommand() ||
                            arg2''','''            bool isSecure = arg2''')]),
('tls-direction',['C20'],'bug',[(tls,'''(direction == "INGRESS")
''','''(direction != "INGRESS")
''')]),
('tls-key-cert',['C20'],'bug',[(tls,'context.use_private_key_file(file, boost','context.use_rsa_private_key_file(file, boost')]),
('tls-mode-assign',['C20'],'bug',[(tls,'mode |= boost::asio::ssl::verify_fail_if_no_peer_cert','mode = boost::asio::ssl::verify_fail_if_no_peer_cert')]),
('tls-mode-unknown-goes-on',['C20'],'bug',[(tls,'''                output << "Unknown mode: " << mode_str << "\\n";
                return;''','''                output << "Unknown mode: " << mode_str << "\\n";''')]),
('farm-unknown-backend',['C20'],'bug',[(fa,'''                allBackendsOk = false;
                output''','''                output''')]),
('farm-only-last',['C20'],'bug',[(fa,'''            if (!backend) {
                allBackendsOk = false;''','''            allBackendsOk = backend != nullptr;
            if (!backend) {''')]),
('map-swapped',['C20'],'bug',[(mp,'mapVhostToBackend(vhost, backendName)','mapVhostToBackend(backendName, vhost)')]),
('listen-secure',['C20'],'bug',[(ls,'subcommand == "START_SECURE");','subcommand == "START");')]),
('listen-no-range',['C20'],'bug',[(ls,'''            if (iss >> port && port > 0 && port <= 65535) {
                serverHandle->startListening''','''            if (iss >> port) {
                serverHandle->startListening''')]),
('session-graceful',['C20'],'bug',[(ss,'session->disconnect(false)','session->disconnect(true)')]),
('stop-all',['C20'],'bug',[(stt,'        if (functor.second) {','        if (!functor.second) {')]),
('listen-flagged-as-send',['C20'],'bug',[(stt,'d_functors.push_back({sf, false})','d_functors.push_back({sf, true})')]),
('persource',['C20'],'bug',[(stt,'collectPerSourceStats(subcommand == "ENABLE")','collectPerSourceStats(subcommand == "DISABLE")')]),
('mgr-get-alarm',['C20'],'bug',[(dm,'''    if (vhostRate == d_vhostDataRateAlarmQuota.end()) {
        return d_defaultDataRateAlarmQuota;''','''    if (vhostRate == d_vhostDataRateAlarmQuota.end()) {
        return d_defaultDataRateQuota;''')]),
('mgr-erase-other',['C20'],'bug',[(dm,'d_vhostDataRateAlarmQuota.erase(vhostName)','d_vhostDataRateQuota.erase(vhostName)')]),
('mgr-emplace',['C20'],'bug',[(dm,'d_vhostDataRateQuota[vhostName] = quota;','d_vhostDataRateQuota.emplace(vhostName, quota);')]),
('farm-add-no-replace',['C20'],'bug',[(fs,'''    if (d_farms.count(farm->name()) > 0) {
        d_farms[farm->name()] = std::move(farm);
    }
    else {
        d_farms.emplace''','''    if (d_farms.count(farm->name()) == 0) {
        d_farms.emplace''')]),
('farm-partition-selector',['C20'],'bug',[(mp,'unsetDefaultFarm','unsetDefaultFarm')]),
('ok-mode-switch',['C20'],'ok',[(tls,'''        while (iss >> mode_str) {
            boost::to_upper(mode_str);
''','''        for (;;) {
            if (!(iss >> mode_str)) {
                break;
            }
            boost::to_upper(mode_str);
''')]),
('ok-farm-insert',['C20'],'ok',[(fs,'''    if (d_farms.count(farm->name()) > 0) {
        d_farms[farm->name()] = std::move(farm);
    }
    else {
        d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));
    }''','''    std::string name = farm->name();
    d_farms.insert_or_assign(name, std::move(farm));''')]),
('ok-farm-erase-emplace',['C20'],'ok',[(fs,'''    if (d_farms.count(farm->name()) > 0) {
        d_farms[farm->name()] = std::move(farm);
    }
    else {
        d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));
    }''','''    d_farms[farm->name()] = std::move(farm);''')]),
('ok-backend-helper',['C20'],'ok',[(be,'''            bool isSendProxy = arg1 == Constants::sendProxy() ||
                               arg2 == Constants::sendProxy();
            bool isSecure = arg1 == Constants::tlsCommand() ||
                            arg2 == Constants::tlsCommand();''','''            auto has = [&](const std::string &w) {
                return arg1 == w || arg2 == w;
            };
            const bool isSendProxy = has(Constants::sendProxy());
            const bool isSecure    = has(Constants::tlsCommand());''')]),
('ok-vhost-helper',['C20'],'ok',[(vh,'''        auto visitor = [this, &vhost](std::shared_ptr<Session> session) {
            if (session->state().getVirtualHost() == vhost) {
                session->disconnect(true);
            }
        };

        serverHandle->visitSessions(visitor);''','''        serverHandle->visitSessions(
            [&vhost](const std::shared_ptr<Session> &session) {
                if (vhost != session->state().getVirtualHost()) {
                    return;
                }
                session->disconnect(true);
            });''')]),
('ok-stop-removeif',['C20'],'ok',[(stt,'''    auto it = std::begin(*d_functors);
    for (; it != std::end(*d_functors);) {
        auto functor = *it;
        if (functor.second) {
            it = d_functors->erase(it);
        }
        else {
            ++it;
        }
    }
}

}''','''    d_functors->remove_if(
        [](const std::pair<StatFunctor, bool> &f) { return f.second; });
}

}''')]),
('ok-stop-while',['C20'],'ok',[(stt,'''    auto it = std::begin(*d_functors);
    for (; it != std::end(*d_functors);) {
        auto functor = *it;
        if (functor.second) {
            it = d_functors->erase(it);
        }
        else {
            ++it;
        }
    }
}

}''','''    auto it = d_functors->begin();
    while (it != d_functors->end()) {
        if (it->second) {
            it = d_functors->erase(it);
            continue;
        }
        ++it;
    }
}

}''')]),
('ok-session-order',['C20'],'ok',[(ss,'''    if (subcommand == "PAUSE") {
        session->pause();
    }
    else if (subcommand == "DISCONNECT_GRACEFUL") {
        session->disconnect(false);
    }
    else if (subcommand == "FORCE_DISCONNECT") {
        session->disconnect(true);
    }''','''    const bool force = subcommand == "FORCE_DISCONNECT";
    if (force || subcommand == "DISCONNECT_GRACEFUL") {
        session->disconnect(force);
    }
    else if (subcommand == "PAUSE") {
        session->pause();
    }''')]),
('ok-limit-insert-or-assign',['C20'],'ok',[(dm,'d_vhostDataRateQuota[vhostName] = quota;','d_vhostDataRateQuota.insert_or_assign(vhostName, quota);')]),
('ok-vhost-after',['C20'],'ok',[(vh,'''        d_vhostState_p->setPaused(vhost, true);
        serverHandle->visitSessions(visitor);''','''        serverHandle->visitSessions(visitor);
        d_vhostState_p->setPaused(vhost, true);''')]),
('ok-tls-ctx-ptr',['C20'],'ok',[(tls,'''    auto                     &context = (direction == "INGRESS")
                                            ? serverHandle->ingressTlsContext()
                                            : serverHandle->egressTlsContext();''','''    boost::asio::ssl::context *contextPtr = nullptr;
    if (direction == "INGRESS") {
        contextPtr = &serverHandle->ingressTlsContext();
    }
    else {
        contextPtr = &serverHandle->egressTlsContext();
    }
    boost::asio::ssl::context &context = *contextPtr;''')]),
]
M=[m for m in M if m[0]!='farm-partition-selector']
