NOTES = {
"C01": "the oracle rebuilds the document from the events; a byte that is lost, doubled or reordered fails. All documents up to the bound instead of seven fixed ones; contexts put the free bytes inside comments, quotes, scripts and tags.",
"C02": "an independent classifier written from the documentation marks every byte; events must agree with it.",
"C03": "an independent expander of the recipe language computes the result.",
"C04": "node lists are built with symbolic kinds, names and texts; results are computed from the list itself.",
"C05": "all small configurations with every defect (missing, doubled, unknown ids, routes, types, attributes) are generated symbolically; acceptance must be exactly that of a checker written from the schema.",
"C06": "a list of filters per route, moved through by every sequence of operations.",
"C07": "call counts per filter instance and route position.",
"C08": "a reference map from names to creators.",
"C09": "addresses are parsed by the oracle from the documented format.",
"C10": "uniqueness of ids across all schedules; closing is per copy; storage of sessions is checked as a map with owners.",
"C11": "exact match of the string results over symbolic strings, and memory safety.",
"C17": "each message handled once by one worker, in a number of workers within limits, results in the caller's thread; stop ends all workers.",
"C22": "the harness keeps the client's sets and the target's sets and knows which target each must come from.",
"C23": "targets with symbolic result counts; the oracle computes position and origin of each record.",
"C24": "socket events are chosen by the solver; a reference list of requests in flight per connection.",
"C25": "an independent leftmost-first matcher computes each rewritten text.",
"C26": "the connection is driven by the harness: every order of connect, answer, loss, silence.",
"C27": "the harness keeps the sets of each target session under their real names and of each client; a record tells of which search it is, so anything of another client's search is seen.",
"C28": "records carry their position and element set; a place once seen must give the same record.",
"C29": "libyaz decodes and encodes SRU packages in production; here the harness supplies the decoded request and inspects the response at the call of the encoder, natively too.",
"C30": "libyaz's retrieval and record conversion are stand-ins: the check decides what Metaproxy does with their outcome, not the conversions themselves.",
"C31": "Inputs of the recorded findings (present of a negative number or beyond 32 bits, FF with a size below 0 or huge, medium sets no bigger than the small set upper bound, named sets after another session negotiated them) are decided by parts of their own and left out of the main part.",
"C32": "The conversion stand-in keeps its state in the handle as libyaz's does (helgrind confirmed the race of the original code in libyaz), so that two conversions at a time are visible; that part is replayed in the engine.",
"C33": "stdio calls of the filter are redirected by the preprocessor (harness/logstub.h) to a recorder, natively too.",
"C34": "yaz_url is a stand-in that records what it is asked for; C24 decides which address the filter sees.",
"C35": "pipe, fork, poll, read, write, exec and wait of the filter are redirected at compile time (harness/cgistub.h) to a simulated process table, natively too: no process is ever started.",
"C36": "metaproxy_prog.cpp is compiled as it is, with main renamed; the harness plays yaz_daemon, the option parser, libxml2 and the system calls, and delivers signals at each point where one can arrive (each registration, start, and while packages are handled).",
}
