F='libamqpprox/amqpprox_connectionselector.cpp'
R='libamqpprox/amqpprox_resourcemapper.cpp'
B='libamqpprox/amqpprox_backendstore.cpp'
S='libamqpprox/amqpprox_farmstore.cpp'
P=['C19']
M=[('ident',P,'ok',[]),
('isfarm uninit default',P,'bug',[(F,'            isFarm       = true;\n','')]),
('nofarm->error',P,'bug',[(F,'ConnectionStatus::NO_FARM','ConnectionStatus::ERROR_FARM')]),
('limit ignored',P,'bug',[(F,'        return SessionState::ConnectionStatus::LIMIT;\n','')]),
('default first',P,'bug',[(F,'if (!d_resourceMapper_p->getResourceMap(','if (!d_defaultFarmName.empty() || !d_resourceMapper_p->getResourceMap(')]),
('no null check',P,'bug',[(F,'''        if (!backend) {
            return SessionState::ConnectionStatus::NO_BACKEND;
        }''','')]),
('early swap',P,'bug',[(F,'''    if (isFarm) {
''','''    connectionOut->reset();
    if (isFarm) {
''')]),
('map flag',P,'bug',[(R,'std::make_pair(false, backendName)','std::make_pair(true, backendName)')]),
('insert overwrite',P,'bug',[(B,'''    if (namedBackend) {
        return 1;
    }

    std::lock_guard<std::mutex> lg(d_mutex);
    d_backends.insert(std::make_pair(backend.name(), backend));''','''    std::lock_guard<std::mutex> lg(d_mutex);
    d_backends.insert_or_assign(backend.name(), backend);''')]),
('addfarm noreplace',P,'bug',[(S,'''    if (d_farms.count(farm->name()) > 0) {
        d_farms[farm->name()] = std::move(farm);
    }
    else {
        d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));
    }''','''    d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));''')]),
('addfarm ref',P,'ok',[(S,'''    if (d_farms.count(farm->name()) > 0) {
        d_farms[farm->name()] = std::move(farm);
    }
    else {
        d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));
    }''','''    const std::string name = farm->name();
    d_farms[name] = std::move(farm);''')]),
('ref helper',P,'ok',[(F,'''    if (!d_resourceMapper_p->getResourceMap(
            &isFarm, &resourceName, sessionState)) {
        std::lock_guard<std::mutex> lg(d_mutex);
        if (d_defaultFarmName.empty()) {
            LOG_INFO << "No farm available for: " << sessionState;
            return SessionState::ConnectionStatus::NO_FARM;
        }
        else {
            isFarm       = true;
            resourceName = d_defaultFarmName;
        }
    }
''','''    const bool mapped = d_resourceMapper_p->getResourceMap(&isFarm, &resourceName, sessionState);
    auto useDefault = [&]() { std::lock_guard<std::mutex> lg(d_mutex);
        if (d_defaultFarmName.size() == 0) return false;
        isFarm = true; resourceName = d_defaultFarmName; return true; };
    if (!mapped && !useDefault()) {
        return SessionState::ConnectionStatus::NO_FARM;
    }
''')]),
('ref mapper',P,'ok',[(R,'''    auto                        it = d_mappings.find(state.getVirtualHost());
    if (it != d_mappings.end()) {
        auto val      = it->second;
        *isFarm       = val.first;
        *resourceName = val.second;
        return true;
    }''','''    const auto &vh = state.getVirtualHost();
    if (d_mappings.count(vh)) {
        const auto &val = d_mappings.at(vh);
        std::tie(*isFarm, *resourceName) = val;
        return true;
    }''')]),
]
