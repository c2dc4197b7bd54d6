DEFAULT_NOTE = ('Every abstract path of the functions named in the evidence is enumerated and compared with the rule; nothing is run. '
                'Trusts clang\'s resolution of the source, the transfer functions for the standard library and asio in lib/absint.py, '
                'and that one generic loop iteration (everything the body changes forgotten) stands for all.')
TECH.update({
 'C08': 'thread-confinement analysis: control-thread call-graph reachability against confined fields, and ownership of last references',
 'C12': 'interprocedural may-throw analysis with exception class hierarchy and path-sensitive discharge of checked accesses',
 'C11': 'escape analysis of callables: captures, ownership and operands of every asynchronous operation',
 'C25': 'path analysis of the accept handler, session table and cleanup run (typestate per session: registered, counted, taken back, removed)',
 'C15': 'abstract interpretation of collector, snapshot arithmetic and formatters with symbolic counters (linear terms per statistic name)',
 'C10': 'lock-order graph and effect analysis over the call graph (callbacks, dispatch, waiting, release on every exit)',
 'C09': 'lockset analysis over the resolved syntax trees (aliases, iterators and returned references included)',
 'C27': 'ownership laws by abstract interpretation of every handle, source and pool method, plus a census of all uses',
 'C26': 'path analysis of the resolve operation composed with the handlers it registers (captured values followed)',
 'C21': 'path-sensitive analysis of every command handler and of the control session over completion-handler chains (exactly-one-end typestate)',
 'C22': 'path-sensitive analysis of the reads and of the timer handlers; the extracted step relation of the allowance is evaluated at every order type of quota, remainder and size',
 'C13': 'path-sensitive typestate analysis of the socket adaptor, the accept loop and the session over completion-handler chains',
 'C01': 'linear-inequality abstract interpretation with per-function contracts',
 'C02': 'linear-inequality abstract interpretation with per-function contracts',
 'C32': 'path-sensitive typestate analysis over completion-handler chains (composed close is the next write) against a table of causes',
 'C33': 'structured path enumeration of every loop (progress of the condition, iterator validity) with a transitive effect summary of member functions',
 'C31': 'call-graph cycle analysis with linear-inequality abstract interpretation of the recursion counter',
 'C03': 'interprocedural typestate analysis over completion-handler chains',
 'C04': 'interprocedural typestate analysis over completion-handler chains',
 'C05': 'path-sensitive abstract interpretation against a decision table',
 'C06': 'step-relation extraction by abstract interpretation over every state and message, compared with the specified handshake automaton',
 'C07': 'linear-inequality abstract interpretation with ghost counters, plus typestate analysis of the read/write handler chains',
 'C24': 'linear-inequality abstract interpretation compared with the frame format',
 'C17': 'path-sensitive analysis over completion-handler chains against a failover table, and per-iteration analysis of candidate selection',
 'C18': 'interprocedural typestate analysis over completion-handler chains (must-close on every failing path)',
 'C23': 'path-sensitive analysis over completion-handler chains, with a symbolic text domain for the header and the properties',
 'C14': 'path-sensitive typestate analysis over completion-handler chains against a table of pause and unpause',
 'C20': 'path-sensitive abstract interpretation of every command handler against the table of documented command lines; composition laws of the stores',
 'C19': 'path-sensitive abstract interpretation against a decision table',
 'C28': 'step-relation extraction by abstract interpretation, compared with the specified relation (induction over steps)',
})
NA.update({
 'C29': 'a share of an unbounded history of selections: counting over histories and concurrent markers is a runtime quantity no static argument here bounds',
 'C30': 'liveness under fair schedules of real network events (timeouts, peers that answer): outside what a static analysis of this source can decide',
})
