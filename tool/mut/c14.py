S='libamqpprox/amqpprox_session.cpp'
V='libamqpprox/amqpprox_vhostcontrolcommand.cpp'
VS='libamqpprox/amqpprox_vhoststate.cpp'
E='libamqpprox/amqpprox_vhostestablishedpauser.cpp'
C='libamqpprox/amqpprox_connector.cpp'
ATT='    if (d_sessionState.getPaused()) {\n        LOG_DEBUG << "Not establishing a connection because paused";\n        return;\n    }\n'
M=[
('no attempt check',['C14'],'bug',[(S,ATT,'')]),
('no ready',['C14'],'bug',[(S,'        d_sessionState.setReadyToConnectOnUnpause(true);\n','')]),
('ready not cleared',['C14'],'bug',[(S,'                d_sessionState.setReadyToConnectOnUnpause(false);\n','')]),
('unpause order',['C14'],'bug',[(S,'                d_sessionState.setPaused(false);\n                establishConnection();\n','                establishConnection();\n                d_sessionState.setPaused(false);\n')]),
('unpause not disconnect',['C14'],'bug',[(S,'                this->disconnect(true);\n','                d_sessionState.setPaused(false);\n')]),
('unpause no check',['C14'],'bug',[(S,'        if (d_sessionState.getPaused()) {\n            if (d_sessionState.getReady','        {\n            if (d_sessionState.getReady')]),
('process paused',['C14'],'bug',[(S,'                if (direction == FlowType::EGRESS ||\n                    !d_sessionState.getPaused()) {','                if (true) {')]),
('process when ready',['C14'],'bug',[(S,'                    !d_sessionState.getPaused()) {','                    !d_sessionState.getPaused() ||\n                    d_sessionState.getReadyToConnectOnUnpause()) {')]),
('held flag forgotten',['C14'],'bug',[(S,'d_ingressDataHeldByPause = true;','')]),
('held not resumed',['C14'],'bug',[(S,'                    handleData(FlowType::INGRESS);\n','')]),
('pauser inverted id',['C14'],'bug',[(E,'server->getSession(id)','server->getSession(id + 1)')]),
('pauser null',['C14'],'bug',[(E,'if (session) {\n                    session->pause();\n                }','session->pause();')]),
('pauser not',['C14'],'bug',[(E,'if (vhostState->isPaused(vhost)) {','if (!vhost.empty() && !vhostState->isPaused(vhost)) {')]),
('cmd order',['C14'],'bug',[(V,'        d_vhostState_p->setPaused(vhost, true);\n        serverHandle->visitSessions(visitor);','        serverHandle->visitSessions(visitor);\n        d_vhostState_p->setPaused(vhost, true);')]),
('cmd all sessions',['C14'],'bug',[(V,'            if (session->state().getVirtualHost() == vhost) {\n                session->pause();\n            }','            session->pause();')]),
('cmd unpause leaves state',['C14'],'bug',[(V,'d_vhostState_p->setPaused(vhost, false);','d_vhostState_p->setPaused(vhost, true);')]),
('cmd unpause no visit',['C14'],'bug',[(V,'                session->unpause();\n            }\n        };\n\n        serverHandle->visitSessions(visitor);','                session->unpause();\n            }\n        };\n')]),
('state other',['C14'],'bug',[(VS,'d_vhosts[vhost].setPaused(paused);','d_vhosts[vhost].setPaused(paused || d_vhosts[vhost].isPaused());')]),
('signal after',['C14'],'bug',[(C,'        d_eventSource_p->connectionVhostEstablished().emit(\n            d_sessionState_p->id(), d_open.virtualHost());\n',''),]),
('established retry ignores pause',['C14'],'bug',[(S,ATT,'    if (d_sessionState.getPaused() && d_egressRetryCounter == 0) {\n        return;\n    }\n')]),
('start clears pause',['C14'],'bug',[(S,'    if (d_sessionState.getPaused()) {\n        LOG_DEBUG << "Not establishing a connection because paused";\n        d_sessionState.setReadyToConnectOnUnpause(true);\n        return;','    if (d_sessionState.getPaused()) {\n        LOG_DEBUG << "Not establishing a connection because paused";\n        d_sessionState.setReadyToConnectOnUnpause(true);\n        d_sessionState.setPaused(false);\n        return;')]),
# refactors
('r helper',['C14','C07','C03','C05'],'ok',[(S,'                d_sessionState.setReadyToConnectOnUnpause(false);\n                d_sessionState.setPaused(false);\n','                d_sessionState.setPaused(false);\n                d_sessionState.setReadyToConnectOnUnpause(false);\n')]),
('r pause always',['C14'],'ok',[(S,'    if (!d_sessionState.getPaused()) {\n        d_sessionState.setPaused(true);\n    }\n','    d_sessionState.setPaused(true);\n')]),
('r early return',['C14'],'ok',[(S,'        if (d_sessionState.getPaused()) {\n            if (d_sessionState.getReady','        if (!d_sessionState.getPaused()) {\n            return;\n        }\n        {\n            if (d_sessionState.getReady')]),
('r read branch',['C14','C07'],'ok',[(S,'                if (direction == FlowType::EGRESS ||\n                    !d_sessionState.getPaused()) {\n                    handleData(direction);\n                }\n                else {\n                    d_ingressDataHeldByPause = true;\n                }','                const bool hold = direction == FlowType::INGRESS && d_sessionState.getPaused();\n                if (hold) {\n                    d_ingressDataHeldByPause = true;\n                }\n                else {\n                    handleData(direction);\n                }')]),
('r visitor common',['C14'],'ok',[(V,'        auto visitor = [this, &vhost](std::shared_ptr<Session> session) {\n            if (session->state().getVirtualHost() == vhost) {\n                session->pause();\n            }\n        };\n\n        d_vhostState_p->setPaused(vhost, true);\n        serverHandle->visitSessions(visitor);','        d_vhostState_p->setPaused(vhost, true);\n        serverHandle->visitSessions([&vhost](const std::shared_ptr<Session> &s) {\n            const std::string sessionVhost = s->state().getVirtualHost();\n            if (sessionVhost != vhost) {\n                return;\n            }\n            s->pause();\n        });')]),
('r state',['C14'],'ok',[(VS,'    return d_vhosts[vhost].isPaused();','    auto it = d_vhosts.find(vhost);\n    return it != d_vhosts.end() && it->second.isPaused();')]),
('r pauser early',['C14'],'ok',[(E,'            if (vhostState->isPaused(vhost)) {\n','            if (!vhostState->isPaused(vhost)) {\n                return;\n            }\n            {\n')]),
]
