"""Writes properties.jsonl (kept in one place so that ids, titles and anchors stay in step)."""
import json, os
L = 'libamqpprox/amqpprox_'
def files(*n):
    return [L + x for x in n]
PROPS = []
def prop(id, title, statement, over, text, why, fs, mech, observe=None):
    a = {'files': fs, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    PROPS.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why, 'anchors': a})

prop('C01', 'Bytes from the network never cause a read outside the received data',
  'Whatever bytes a client or a broker sends, decoding frames, handshake methods, field tables and field values reads only bytes that were received. Every declared length is checked against what is available before it is used, and data that is too short is rejected or waits for more, never read past.',
  ['inputs'], 'every byte string on either side of the proxy, of every length',
  'The decode tests feed a few well-formed messages; an over-read needs a particular truncated or lying length and is usually silent.',
  files('frame.cpp', 'buffer.h', 'types.cpp', 'methods_startok.cpp', 'methods_start.cpp', 'methods_tune.cpp', 'methods_open.cpp', 'methods_close.cpp', 'packetprocessor.cpp'),
  [('Buffer copy/consume/skip/seek carry assertions only', L + 'buffer.h'), ('Types::decode*', L + 'types.cpp'), ('Frame::decode', L + 'frame.cpp')])
prop('C02', 'Serialising messages never writes outside the output buffer',
  'When the proxy serialises a frame, a handshake method, a field table or a field value, it never writes outside the buffer it was given, for any content and any remaining space. Running out of space is reported as a failure.',
  ['inputs'], 'every message content (client supplied properties included) and every amount of space left',
  'Tests encode small messages into large buffers; the overflow needs a message within a few bytes of the end.',
  files('buffer.h', 'types.cpp', 'frame.cpp', 'connector.cpp'),
  [('Buffer::writeIn / skip', L + 'buffer.h'), ('Types::encode*', L + 'types.cpp'), ('Frame::encode', L + 'frame.cpp')])
prop('C03', 'No broker connection without an explicit ALLOW verdict',
  'The proxy starts resolving or connecting to a broker for a client session only inside a verdict callback of the authentication step whose verdict is ALLOW, and that step is asked about the virtual host, address and credentials of that very client. With any other verdict the client is refused and no broker connection is ever started for it.',
  ['schedules', 'inputs', 'histories'], 'every session, every verdict and every order of pause, unpause, disconnect, authentication and resolver events',
  'Tests drive one allowed and one denied session in a fixed order; no test covers every entry point that can lead to a connect.',
  files('session.cpp'),
  [('Session::establishConnection verdict callback', L + 'session.cpp'), ('Session::attemptConnection and its retries', L + 'session.cpp')])
prop('C04', 'Authentication failures deny, and each request gets exactly one verdict',
  'When the authentication service cannot be resolved, reached, written to or read from, answers with a non-success HTTP status, or answers with something that cannot be parsed, the verdict is DENY; the verdict of the service is passed on unchanged only from a successful, parsed response. Each authentication request delivers exactly one verdict.',
  ['fault_sequences', 'inputs'], 'every failure at every step of the exchange with the authentication service, and every response',
  'Tests cover a few failures with a mock; each step has an error branch of its own and the response space is unbounded.',
  files('httpauthintercept.cpp', 'defaultauthintercept.cpp'),
  [('HttpAuthIntercept::onResolve/onConnect/onWrite/onRead', L + 'httpauthintercept.cpp')])
prop('C05', 'Connection rate limits are enforced; alarm-only limits never block',
  'A new connection for a virtual host is allowed exactly when the enforced limiter that applies to that virtual host (its own, otherwise the default) admits it, and is allowed when neither is configured. Alarm-only limiters only log: they never change the answer. A virtual-host-specific limit is never replaced by a default.',
  ['configurations', 'histories', 'inputs'], 'every combination of specific/default and enforced/alarm-only limits and every virtual host',
  'Tests sample a few configurations; the sibling enforced/alarm-only and specific/default paths multiply.',
  files('connectionlimitermanager.cpp', 'fixedwindowconnectionratelimiter.cpp', 'connectionlimiterinterface.h'),
  [('ConnectionLimiterManager::allowNewConnectionForVhost', L + 'connectionlimitermanager.cpp')])
prop('C06', 'The handshake only advances on the expected message, in order',
  'Each side of the connection is taken through the AMQP handshake strictly in order: a message advances the conversation only in the state that expects it, from the side that is due to send it, and with the reply that state calls for. Any other message never advances it, and one the state cannot tolerate is a protocol error. The session counts as open only after the broker accepted the open request, and the reply each step produces goes to the right side.',
  ['histories', 'inputs'], 'every sequence of handshake methods and close methods from either side',
  'Tests run the happy path and a few errors; the state and message product is never enumerated.',
  files('connector.cpp'),
  [('Connector::receive', L + 'connector.cpp')])
prop('C07', 'Established traffic is forwarded unmodified to the other side and counted once',
  'Once a session is open, every complete frame from the client is forwarded to the broker and every complete frame from the broker to the client, as one contiguous run of the received bytes, with nothing dropped, repeated, reordered or sent to the wrong side. Each forwarded run is counted exactly once, on the counters of the direction it travelled.',
  ['inputs', 'histories'], 'every split of the byte stream into reads and frames, both directions',
  'Tests feed a handful of frame sequences; the property is about every split and both directions.',
  files('packetprocessor.cpp', 'sessionstate.cpp', 'session.cpp'),
  [('PacketProcessor::process', L + 'packetprocessor.cpp')])
prop('C08', 'Connection state is only touched by the data-plane thread',
  'The sockets, handshake state and buffers of a session are only used by the data-plane event loop. Commands, timers and cleanup running on the control thread reach them only by handing work over to that loop.',
  ['schedules'], 'every interleaving of control commands with traffic',
  'Data races between the control thread and the data plane do not show in single-threaded unit tests.',
  files('session.cpp', 'server.cpp', 'control.cpp'),
  [('dispatch/post onto the data-plane io_context', L + 'session.cpp')])
prop('C09', 'Shared mutable state is only accessed under its lock',
  'State shared between the data-plane thread and the control thread (stores of farms, backends, mappings and limits, session details, server bookkeeping, statistics subscriptions) is read and written only while its lock is held. References into locked state are not handed out beyond the lock.',
  ['schedules'], 'every interleaving of the two threads',
  'Unit tests are single threaded.',
  files('server.cpp', 'farmstore.cpp', 'backendstore.cpp', 'sessionstate.cpp', 'connectionlimitermanager.cpp', 'datarateLimitmanager.cpp'.replace('L','l')),
  [('std::lock_guard over each class mutex', L + '*.cpp')])
prop('C10', 'Locks are never held across callbacks, blocking work or each other in a cycle',
  'No thread acquires a lock it already holds, locks are never acquired in opposite orders, and no lock is held while a caller-supplied callback or handler runs or while the thread waits for the network. Every lock is released on every exit, exceptional ones included.',
  ['schedules'], 'every interleaving and every registered callback',
  'A deadlock needs two threads at two particular points.',
  files('server.cpp', 'eventsourcesignal.h', 'farmstore.cpp', 'dnsresolver.cpp'),
  [('EventSourceSignal::emit copies subscribers before calling', L + 'eventsourcesignal.h')])
prop('C11', 'Asynchronous completions never use objects or memory that are gone',
  'Every completion handler registered by a session, an authentication exchange or a control client keeps alive the object it uses until it has run, and captures nothing of the registering stack frame by reference. Memory handed to an asynchronous read or write stays valid until that operation completes.',
  ['schedules', 'fault_sequences'], 'every order of completion, disconnection and cleanup',
  'Use-after-free needs the object to be dropped while an operation is in flight.',
  files('session.cpp', 'control.cpp', 'httpauthintercept.cpp', 'statsdpublisher.cpp', 'server.cpp'),
  [('shared_from_this captured by each handler', L + 'session.cpp')])
prop('C12', 'No error or hostile input can stop an event loop with an exception',
  'No exception leaves a completion handler or a control command: bad input from a client, broker, operator or authentication service, and failures reported by the network, are turned into a closed session, an error reply or a log line. The proxy keeps serving other sessions.',
  ['inputs', 'fault_sequences'], 'every input and every reported failure in every handler and command',
  'Tests sample few of the throwing calls; each handler has its own set.',
  files('session.cpp', 'control.cpp', 'server.cpp', 'httpauthintercept.cpp', 'dnsresolver.cpp'),
  [('try/catch in Session::handleData, Control client handlers', L + 'session.cpp')])
prop('C13', 'Configured transport security is what is used on the wire',
  'A listener or broker configured for TLS never exchanges application bytes in clear, and one configured without it never negotiates TLS: the decision comes from that listener or that broker, is made before the first byte and every byte goes through the encrypted stream once it is on. Settings given for one direction are applied to that direction only.',
  ['configurations', 'schedules'], 'every combination of listener and broker security, every failover between brokers that differ, every TLS command',
  'Unit tests replace the socket; few combinations are wired.',
  files('maybesecuresocketadaptor.h', 'session.cpp', 'server.cpp', 'tlscontrolcommand.cpp'),
  [('MaybeSecureSocketAdaptor::isSecure / async_handshake', L + 'maybesecuresocketadaptor.h'), ('Session::attemptEndpointConnection', L + 'session.cpp')])
prop('C14', 'Paused virtual hosts never get new broker connections, and resume when unpaused',
  'While a session is paused it turns to no broker, neither the first nor the next one after a failure (an attempt on a broker already under way may complete), and its client data is not processed, but taken up when it resumes. A session that reached the point of connecting while paused is remembered, and unpausing starts its connection exactly once; any other paused session is disconnected by unpausing, and unpausing a session that is not paused does nothing. A session whose virtual host is paused when it is established becomes paused.',
  ['schedules', 'histories'], 'every interleaving of pause and unpause commands with sessions in every stage',
  'The order of pause against each handshake step is not enumerated by tests.',
  files('session.cpp', 'sessionstate.cpp', 'vhoststate.cpp', 'vhostcontrolcommand.cpp', 'vhostestablishedpauser.cpp'),
  [('Session::establishConnection / unpause', L + 'session.cpp')])
prop('C15', 'Statistics attribute every quantity to its own name and direction',
  'Traffic counters are reported under the matching name and direction in every publisher (sent is what went to the client side, received what came from it), totals add up what the individual sessions counted, and the contribution of a session that ended is counted exactly once. Nothing is subtracted that was not added.',
  ['histories', 'configurations'], 'every history of sessions and every publisher and formatter',
  'Tests compare a few fixed values, often with all counters alike.',
  files('statcollector.cpp', 'connectionstats.cpp', 'statsnapshot.cpp', 'sessionstate.cpp', 'statsdpublisher.cpp', 'jsonstatformatter.cpp', 'humanstatformatter.cpp'),
  [('StatCollector::collect / deletedSession / populateStats', L + 'statcollector.cpp')])
prop('C16', 'What is encoded is what is decoded: wire identifiers and layouts agree',
  'For every field value type and every handshake message, the encoder and the decoder use the same type tag, width, signedness, byte order and field order, and the identifiers are those of AMQP 0-9-1. A value that is decoded and encoded again keeps its type and content.',
  ['inputs'], 'every field type, every value and every handshake message',
  'Round-trip tests use a few values and types; a swapped width or tag shows only for some values.',
  files('types.cpp', 'fieldvalue.cpp', 'constants.cpp', 'frame.cpp', 'method.cpp', 'methods_start.cpp', 'methods_startok.cpp', 'methods_tune.cpp', 'methods_tuneok.cpp', 'methods_open.cpp', 'methods_close.cpp'),
  [('Types::encodeFieldValue / decodeFieldValue', L + 'types.cpp'), ('Methods encode/decode', L + 'methods_*.cpp')])
prop('C17', 'Broker failover tries every remaining candidate and then gives up cleanly',
  'If resolving a broker or connecting to one of its endpoints fails, the next endpoint, and after the last one the next broker, is tried: none is skipped and none is tried twice. The brokers of a farm are its existing members, those of the local datacenter first where the farm asks for that. Only when no broker is left is the client disconnected for lack of one, and a session that has ended never tries again.',
  ['fault_sequences'], 'every sequence of failures over endpoints and brokers',
  'Tests exercise a couple of failures at one step; each step has its own error branch.',
  files('session.cpp', 'connectionmanager.cpp', 'robinbackendselector.cpp', 'farm.cpp', 'affinitypartitionpolicy.cpp'),
  [('Session::attemptConnection / attemptResolvedConnection / handleConnectionError', L + 'session.cpp')])
prop('C18', 'A broken or closed side always takes the whole session down',
  'When either side is disconnected, reports an error or violates the protocol, both sockets are closed, the session is marked as ended with the kind of disconnect that happened (client, broker or proxy), and it is then removed. An ended session is never left with one side open.',
  ['fault_sequences', 'histories'], 'every error on either socket at every stage of the session',
  'Tests inject a few errors at a few stages.',
  files('session.cpp', 'sessionstate.cpp', 'sessioncleanup.cpp', 'server.cpp'),
  [('Session::handleSessionError / performDisconnectBoth', L + 'session.cpp'), ('SessionCleanup', L + 'sessioncleanup.cpp')])
prop('C19', 'Routing follows mapping, then default farm, then refusal',
  'A session admitted by the limits is routed to the farm or broker mapped for its virtual host, otherwise to the default farm if there is one; the reported outcome says which of limit, missing farm, unknown farm or missing broker stopped it. A route is handed out only with the success outcome and only to that destination.',
  ['configurations', 'inputs'], 'every mapping, default farm setting, farm and broker population',
  'Tests cover a handful of configurations.',
  files('connectionselector.cpp', 'resourcemapper.cpp', 'farmstore.cpp', 'backendstore.cpp'),
  [('ConnectionSelector::acquireConnection', L + 'connectionselector.cpp')])
prop('C20', 'A control command changes exactly the setting it names',
  'Each control command applies exactly the change it names: enforced or alarm-only, per virtual host or default, ingress or egress, farm or broker, pause or unpause, with the arguments in the documented order. A command that is incomplete or not understood changes nothing.',
  ['inputs', 'configurations'], 'every command line an operator can send',
  'Tests run a few command lines with mocks; sibling subcommands are easily crossed.',
  files('limitcontrolcommand.cpp', 'tlscontrolcommand.cpp', 'vhostcontrolcommand.cpp', 'mapcontrolcommand.cpp', 'farmcontrolcommand.cpp', 'backendcontrolcommand.cpp', 'authcontrolcommand.cpp', 'datacentercontrolcommand.cpp', 'maphostnamecontrolcommand.cpp', 'loggingcontrolcommand.cpp', 'listencontrolcommand.cpp', 'connectionscontrolcommand.cpp', 'sessioncontrolcommand.cpp'),
  [('ControlCommand::handleCommand of each command', L + '*controlcommand.cpp')])
prop('C21', 'Every control command is answered and its reply is terminated exactly once',
  'For every command line, including malformed ones, the operator receives a reply whose end is signalled exactly once, after the last of its output, so a control client never hangs waiting or is cut short. Streaming statistics, which stay open by request, are the one exception.',
  ['inputs', 'fault_sequences'], 'every command line and every failure inside a command',
  'Tests look at a few command lines and rarely at the end-of-reply marker.',
  files('controlcommand.h', 'control.cpp', 'statcontrolcommand.cpp'),
  [('ControlCommandOutput', L + 'controlcommand.h'), ('Control client command handling', L + 'control.cpp')])
prop('C22', 'Every byte read from a rate-limited client counts against its limit',
  'Each successful read from a client is charged, with its size, to both the enforced and the alarm data rate of the session, on plain and encrypted connections alike. When the enforced allowance is used up no further data is read until it refills, and an alarm allowance never delays data.',
  ['inputs', 'configurations', 'schedules'], 'every read size, plain or encrypted, limited or alarm-only',
  'Tests exercise the plain path and single reads.',
  files('maybesecuresocketadaptor.h', 'dataratelimit.cpp', 'dataratelimitmanager.cpp', 'session.cpp'),
  [('MaybeSecureSocketAdaptor::read_some / async_read_some', L + 'maybesecuresocketadaptor.h')])
prop('C23', 'The broker always learns the true client address and proxy identity',
  'When the proxy protocol is enabled for a broker, the first bytes sent to it are a well-formed header naming the client (source address and port) and that broker (destination address and port), before anything else; otherwise no such header is sent. The client properties forwarded in the handshake carry the client address and the proxy host added by the proxy and keep what the client sent, and the credentials forwarded are those of the client unless the authentication step supplied others.',
  ['inputs', 'configurations'], 'every address family, broker setting and client supplied property table',
  'Tests cover one address pair.',
  files('session.cpp', 'connector.cpp', 'proxyprotocolheaderv1.cpp'),
  [('Session::getProxyProtocolHeader', L + 'session.cpp'), ('Connector::injectProxyClientIdent', L + 'connector.cpp')])
prop('C24', 'Malformed frames are never accepted as frames',
  'A frame is accepted only when all of its declared bytes and its end marker have arrived and the end marker is the one the protocol defines; its type, channel, size and payload are those on the wire. Otherwise decoding waits for more data (never for a frame declared larger than the maximum) or reports an error, without accepting anything. An encoded frame always carries its type, channel, the size of its payload, the payload and the end marker, and is refused only when it exceeds the maximum.',
  ['inputs'], 'every byte string',
  'Tests feed a few malformed frames.',
  files('frame.cpp', 'constants.h'),
  [('Frame::decode / Frame::encode', L + 'frame.cpp')])
prop('C25', 'Sessions are registered once, removed once, and reported when they end',
  'Every accepted connection is registered under its own identifier before it can process data; it is removed only after it has ended, its final counters are folded into the totals exactly once before it disappears, and no session that is still running is dropped by cleanup.',
  ['histories', 'schedules'], 'every history of accepts, disconnects and cleanups',
  'Tests do not run accept and cleanup histories.',
  files('server.cpp', 'sessioncleanup.cpp', 'statcollector.cpp'),
  [('Server::doAccept / removeSession', L + 'server.cpp'), ('SessionCleanup::cleanup', L + 'sessioncleanup.cpp')])
prop('C26', 'Name resolution answers every request once, with valid results only',
  'Every resolve request is answered exactly once through its callback and never from inside the resolve call itself; a failed resolution is reported as a failure and is never remembered, and a remembered answer is given only for the same host and service.',
  ['fault_sequences', 'histories'], 'every sequence of requests, failures and cache expiries',
  'Tests cover an override and one cached answer.',
  files('dnsresolver.cpp', 'dnsresolver.h'),
  [('DNSResolver::resolve', L + 'dnsresolver.cpp')])
prop('C27', 'Pooled buffers have one owner and return to the pool they came from',
  'A pooled buffer is owned by at most one holder at a time; when its holder is done, reassigned or destroyed the buffer goes back exactly once to the pool of its own size class, and a buffer handed out is at least as large as requested.',
  ['histories'], 'every sequence of acquires, moves, swaps and releases',
  'Tests acquire and release in simple orders.',
  files('bufferpool.cpp', 'bufferhandle.cpp', 'buffersource.cpp'),
  [('BufferPool::acquireBuffer / BufferHandle', L + 'bufferpool.cpp')])
prop('C28', 'Admitted connections stay within the configured rate in every window',
  'A rate limiter admits a connection exactly when fewer connections than its configured number have been admitted in the current window; every admitted connection is counted once, and a new window (with an empty count) starts only when the full configured length has passed since the current one started. So no window ever admits more than the configured number, and none that fits is refused.',
  ['histories', 'schedules'], 'every arrival history in real time', 'Depends on clock values across a history.',
  files('fixedwindowconnectionratelimiter.cpp'), [('FixedWindowConnectionRateLimiter', L + 'fixedwindowconnectionratelimiter.cpp')])
prop('C29', 'Load is spread evenly over the brokers of a farm',
  'Over a long run of connections, each healthy broker within the preferred partition of a farm receives its share of connections, so no broker is starved while others are loaded.',
  ['histories'], 'every history of selections', 'Needs counting over unbounded histories.',
  files('robinbackendselector.cpp', 'backendset.cpp'), [('RobinBackendSelector::select', L + 'robinbackendselector.cpp')])
prop('C30', 'Every client connection is eventually served or closed',
  'Every accepted client that follows the protocol is eventually connected to a broker or told why not and closed; none is left waiting for ever unless its virtual host is paused.',
  ['schedules', 'fault_sequences'], 'every fair schedule', 'Liveness over unbounded runs of real network events.',
  files('session.cpp'), [('Session event chain', L + 'session.cpp')])

prop('C31', 'Nested input cannot exhaust the stack',
  'Decoding data received from a client or a broker recurses only to a fixed depth, however deeply the received tables and arrays are nested: what is nested deeper is rejected.',
  ['inputs'], 'every byte string within the frame size limit',
  'Tests decode a few levels; the crash needs tens of thousands, which still fit in one frame.',
  files('types.cpp', 'types.h'), [('Types::decodeFieldValue / decodeFieldArray / decodeFieldTable', L + 'types.cpp')])

prop('C32', 'A client that is turned away is told why',
  'When the proxy turns a client away or ends its connection in an orderly way, it first sends the client an AMQP connection close with the cause: resource error for a rate limit or a virtual host without a route, '
  'access refused for a denied client that announced that it understands such a close, the code and text of the broker when the broker closes during the handshake, success for an orderly disconnect. '
  'Every close that is composed is sent, to the side it is meant for, with the code, text and method it was given, cut to what its field can carry.',
  ['inputs', 'histories'], 'every refusal, every response of the authentication service, every set of announced client properties, every close by the broker, every virtual host name',
  'Tests sample few refusals and no long names; whether each cause reaches the client depends on every path of the session and its timers.',
  files('session.cpp', 'connector.cpp'), [('Session::attemptConnection / disconnectUnauthClient / disconnect / handleData', L + 'session.cpp'), ('Connector::synthesizeMessage', L + 'connector.cpp')])

prop('C33', 'Every loop makes progress and never walks what was removed',
  'No message, configuration or command makes a loop of the proxy run for ever: each round changes what its condition depends on, towards its end. '
  'While a container is walked its elements are only removed in a way that keeps the walk valid, and a position that was removed is not used again.',
  ['inputs', 'histories'], 'every message, configuration and sequence of commands',
  'A stuck or stray walk needs a particular content of the container or message; it then blocks the whole event loop, often with a lock held.',
  files('packetprocessor.cpp', 'types.cpp', 'connectionlimitermanager.cpp', 'statcontrolcommand.cpp'),
  [('PacketProcessor::process', L + 'packetprocessor.cpp'), ('ConnectionLimiterManager::removeDefaultConnectionRateLimit', L + 'connectionlimitermanager.cpp'), ('StatControlCommand::invokeHandlers', L + 'statcontrolcommand.cpp')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    print(len(PROPS))
