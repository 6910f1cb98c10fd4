prop("C01", "HTML tokenizer is lossless and stays inside the document",
     "For every NUL-terminated document, parsing terminates and the reported text, tag, attribute and tag-end events refer, in document order, only to pieces of that document, without overlap. Writing the events back as markup loses nothing but white space between attributes and the quoting/equal-sign white space inside a tag.",
     ["inputs"], "every document (any byte string)",
     "The seven parser tests feed a handful of fixed documents; truncated tags, comments, quotes and scripts at every position are a combinatorial input space.",
     ["src/html_parser.cpp", "src/html_parser.hpp"],
     [("parse_str", "src/html_parser.cpp"), ("tagAttrs/skipAttribute/tagEnd", "src/html_parser.cpp")],
     observe=["HTMLParserEvent callbacks"])
prop("C02", "HTML tokenizer classifies markup as documented",
     "Element names, attribute names, attribute values and their quote character, close tags, comments/declarations and processing instructions are reported exactly as they stand in the document; nothing inside a comment or inside script content is reported as a tag or attribute. An attribute without a value is reported without a value.",
     ["inputs"], "every document (any byte string)",
     "Tests check fixed documents; quote handling, self-closing tags, script termination and comment termination interact.",
     ["src/html_parser.cpp"], [("parse_str", "src/html_parser.cpp")], observe=["HTMLParserEvent callbacks"])
prop("C03", "URL recipe expansion follows the recipe language",
     "Expanding a URL recipe copies everything outside ${..} and %{..} verbatim, replaces each reference by the text of the metadata element whose type is the named variable (with an optional md- prefix), applies the optional [pattern/replacement/mode], and percent-encodes only in the %{..} form. A backslash takes the next character literally, the last metadata element of a type wins, unknown variables expand to nothing, and no recipe can make it crash or read outside its input (an invalid pattern raises an error).",
     ["inputs"], "every recipe string and every metadata record",
     "One test with 13 fixed recipes on one record.", ["src/url_recipe.cpp"], [("url_recipe_handle", "src/url_recipe.cpp")])
prop("C04", "XML configuration accessors return exactly what the document says",
     "The XML helpers return the text, boolean, integer, attribute and route values that the given node carries, the caller's default where the node carries none, match elements and attributes by name and namespace only, and raise an error for an attribute or child element that is not allowed.",
     ["inputs", "configurations"], "every node/attribute list and every text content",
     "The only test exercises url_recipe.", ["src/xmlutil.cpp", "include/metaproxy/xmlutil.hpp"], [("parse_attr, get_text, get_bool, get_int, is_element, check_empty, jump_to_*", "src/xmlutil.cpp")])
prop("C05", "A configuration is accepted exactly when its routes resolve",
     "A router configuration is accepted only if it has the documented element order, uses only documented attributes, every filter id and route id is unique, every referenced filter and route (including the start route) exists and every filter type is known; otherwise construction fails with an error and never yields a router. Every configuration satisfying these rules is accepted.",
     ["configurations"], "every configuration document",
     "test_router_flexml is not even built here and covers five fixed documents.", ["src/router_flexml.cpp"], [("parse_xml_config_dom", "src/router_flexml.cpp"), ("check_routes_in_filters", "src/router_flexml.cpp")])
prop("C06", "A package visits the filters of its route in configured order",
     "From a fresh position a package is handed to the filters of the start route one by one in configured order and then to nobody; naming a route continues with the first filter of that route, an unknown route yields nobody and leaves the position where it was. A cloned position continues where the original stood and the two then advance independently.",
     ["configurations", "histories"], "every configuration, every sequence of moves and clones",
     "Tests move a single package through one chain.", ["src/router_flexml.cpp", "src/router_chain.cpp", "src/package.cpp"], [("RouterFleXML::Pos::move/clone", "src/router_flexml.cpp"), ("RouterChain::Pos::move/clone", "src/router_chain.cpp")])
prop("C07", "Start and stop reach every filter of every route",
     "Starting or stopping a router calls every filter of every route, once per place it occupies in a route, in route order, and passes the signal number on unchanged.",
     ["configurations"], "every configuration", "No test looks at start/stop.", ["src/router_flexml.cpp", "src/router_chain.cpp"], [("start/stop", "src/router_flexml.cpp"), ("start/stop", "src/router_chain.cpp")])
prop("C08", "The filter factory creates exactly what was registered",
     "After any sequence of registrations and removals a type exists if and only if it was registered and not removed since; creating it calls the creator of its first registration, registering it twice is refused, and creating an unknown type raises not-found.",
     ["histories"], "every sequence of operations and names", "test_filter_factory is not built here and runs one sequence.", ["src/factory_filter.cpp"], [("FactoryFilter", "src/factory_filter.cpp")])
prop("C09", "Client address bookkeeping survives forwarded-for chains",
     "However many forwarded-for values are stacked on a connection's address, the bind address stays the last component, the peer address the one before it, and the address shown in logs is the most recently forwarded one. Log text consists of that address (or 0 if none), the connection id (below 2^32), and the custom session if any.",
     ["inputs", "histories"], "every address string and sequence of settings", "No built test uses it.", ["src/origin.cpp"], [("Origin", "src/origin.cpp")])
prop("C10", "Session identities are unique, stable and closed for good",
     "Every newly created session has an id different from all other sessions, whatever threads create them concurrently; copies keep the id and the closed state, and a closed session never becomes open again. Per-session storage contains exactly the sessions created and not released.",
     ["schedules", "histories"], "every interleaving of session creations and every sequence of copies", "Session tests run 100 sequential creations and one unsynchronised thread group.", ["include/metaproxy/session.hpp", "src/session.cpp"], [("Session::Session", "include/metaproxy/session.hpp")])
prop("C11", "Number of records a search returns at once follows the request's limits",
     "For every result-set size and every small-set upper bound, large-set lower bound and medium-set present number, the number of records to return with a search is all of a small set, none of a large one and the medium-set number, capped by the size, otherwise; never more than the set holds. The element set used is the one named for that class of set.",
     ["inputs"], "every size, bounds and element set names", "No test covers the three classes and their borders.",
     ["src/util.cpp", "include/metaproxy/util.hpp"], [("piggyback, piggyback_sr, piggyback_to_RecordComposition, record_composition_to_esn", "src/util.cpp")])
prop("C12", "Responses made for a request belong to it and say what happened",
     "A response created for a Z39.50 request is of the kind asked for, carries a copy of the request's reference id (none if the request has none), and reports failure with exactly the given code and text when there is an error and success otherwise. An HTTP response carries the given status and content unchanged, and the session is kept open exactly when HTTP keep-alive rules (version and Connection header) say so.",
     ["inputs"], "every request kind, reference id, error, HTTP version and Connection header", "test_util is not even built here.",
     ["src/util.cpp", "include/metaproxy/util.hpp"], [("odr::create_*, get_init_diagnostics, get_default_diag, http_response", "src/util.cpp")])
prop("C13", "Addresses, database names and target lists are interpreted as written",
     "Client addresses match an address pattern list exactly when one of its words matches (IPv4-mapped addresses also as plain IPv4). Database lists compare element by element without regard to case, a target string splits into exactly the host and databases written in it and is put together again the same way, and virtual-host and proxy information carried by a request is found, kept in order and removed as a whole.",
     ["inputs"], "every address, pattern, database list and target string", "Handful of fixed strings in a test that is not built here.",
     ["src/util.cpp", "include/metaproxy/util.hpp"], [("match_ip, match, split_zurl, base_name, memcmp2, *_vhost*", "src/util.cpp")])
prop("C14", "Rate limiting caps retrieval size and delays only above the limits",
     "With a retrieval limit a present never asks the backend for more records than the limit and the request is otherwise unchanged; without one nothing is changed. After each request a session is delayed by one second for every whole time its searches and its bytes of the last 60 seconds use up the configured limits, and by at least 60 seconds divided by the packet limit (at least one second) when it sent more packets than allowed in that time; otherwise it is not delayed. Sessions are accounted separately, nothing is kept of a closed session, and every request is passed on exactly once and its response passed back.",
     ["configurations", "histories"], "every configuration of limits and every sequence of requests of several sessions", "No test drives the filter with traffic.",
     ["src/filter_limit.cpp"], [("Limit::Impl::process", "src/filter_limit.cpp")], observe=["packages passed on", "usleep/sleep calls"])
prop("C15", "The bounce filter answers everything it receives and never passes it on",
     "A Z39.50 request that reaches the end of a route is answered with a close of the same session that repeats its reference id, an HTTP request with status 400 (or an echo of the request when configured), and no package leaves the filter towards the rest of the route or without an answer; the session is closed.",
     ["inputs", "configurations"], "every kind of request and configuration", "test_filter_bounce is not built here and checks two requests.",
     ["src/filter_bounce.cpp", "src/gduutil.cpp"], [("Bounce::process", "src/filter_bounce.cpp")])
prop("C16", "Presents split into chunks give the records of a single present",
     "With a chunk size configured a present request is served by consecutive presents of at most that size, in order, and the client receives one response with exactly the records the backend gave, in result set order, with the client's reference id, the right count and next position. A backend that returns fewer records, a diagnostic, another response or closes ends the retrieval and the client learns of it; no backend behaviour can make it loop or touch memory outside its records. Other requests pass unchanged.",
     ["inputs", "fault schedules", "configurations"], "every range, chunk size and backend behaviour at every chunk", "No test uses the filter.",
     ["src/filter_present_chunk.cpp"], [("PresentChunk::Impl::handle_package", "src/filter_present_chunk.cpp")])
prop("C17", "Each queued message is handled once and its result delivered once",
     "A message put in the worker pool is handled by exactly one worker and its result is delivered exactly once, by the event loop's thread, however workers and event loop interleave; removed messages are never handled, the event loop never blocks reading the wake-up pipe, the number of workers stays between the configured minimum and maximum, and stopping the pool ends all workers whatever is queued.",
     ["schedules"], "every interleaving of event loop and workers (bounded pre-emptions)", "test_thread_pool_observer needs yaz++ and a real schedule.",
     ["src/thread_pool_observer.cpp", "src/pipe.cpp"], [("put, run, socketNotify, cleanup, destructor", "src/thread_pool_observer.cpp")])
prop("C18", "Packages carry their session, route position and log through the route",
     "Every move hands a package to the next filter only, a sub-package made from it starts without request and response and continues at the same place of the route without moving the original, and closing a package's session closes exactly that package's session. What a package and its sub-packages log is collected in order and handed out once, and nothing is collected unless asked for.",
     ["histories", "configurations"], "every route length and every sequence of moves and sub-packages", "test_package is not built here and moves one package.",
     ["src/package.cpp", "include/metaproxy/package.hpp"], [("move, copy_filter, log, log_reset", "src/package.cpp")])
prop("C19", "The HTTP file server serves the named file and nothing outside its roots",
     "A GET whose decoded path (without fragment and query, ending at an encoded NUL) starts with an area's prefix is answered with exactly the bytes of the file of that name below the area's document root and the MIME type of its extension; only that file is opened, for reading, and closed again. A path containing '..' or leading out of every area is passed on and opens nothing; other methods give 405 and missing or non-regular files 404 (or are passed on when configured), too big files 404 and read failures 500.",
     ["inputs", "configurations", "fault schedules"], "every path, method, area configuration and file system outcome", "No test uses the filter.",
     ["src/filter_http_file.cpp", "src/plainfile.cpp"], [("fetch_uri, fetch_file, get_mime_type", "src/filter_http_file.cpp")], observe=["files opened", "HTTP response"])
prop("C20", "Only users with the right credentials get in, and only to their databases",
     "With a user register an Init is passed on exactly when its user and password are those of the user's last entry, and is otherwise answered with a refusal and the session closed. A session that authenticated may search and scan exactly the databases listed for its user (any case, * for all); another database is refused with access denied, and closed, whatever other sessions do at the same time. With a target register the targets of an Init are checked likewise, refused or dropped as configured. Registers and plain files are read line by line, whatever the length of a line, and a register line without all its fields is refused.",
     ["inputs", "configurations", "schedules"], "every register content, credential, target and database list, and interleaving of two sessions", "test_filter_auth_simple does not exist as a built test; the decision depends on strings and histories.",
     ["src/filter_auth_simple.cpp", "src/plainfile.cpp"], [("process_init, process_search, process_scan, check_targets, config_*Register", "src/filter_auth_simple.cpp"), ("PlainFile::getline", "src/plainfile.cpp")])
prop("C21", "Sessions go to the least loaded target and are counted until they end",
     "An Init that names several targets is sent to one target at a time, in order of load (open sessions plus outstanding requests plus unexpected ends), the first named on ties, until one of them takes the session; if none does the client gets a refusal with its reference id and the session is closed. A session counts for exactly one target from then until it ends, all counts stay right when sessions come and go at the same time, and a target without sessions starts afresh. Other requests are passed on, their responses passed back, and the session ends with either side's close.",
     ["histories", "fault schedules", "schedules"], "every history of sessions, failing targets and backend outcomes, and interleavings of two sessions", "test_filter_load_balance does not exist; the choice depends on the history of all sessions.",
     ["src/filter_load_balance.cpp"], [("process, Impl::{inc,dec}_*, cost", "src/filter_load_balance.cpp")])
prop("C22", "Virtual databases lead to their targets and result sets keep their records",
     "The client's Init is answered here. A search or scan goes to the targets, the route and the databases of the first virtual database whose pattern matches each of its databases, in any case; unknown databases are diagnosed by name (235), and databases on different routes are refused (23). The backend session is made with the client's Init data, at most one at a time, and a backend's refusal is told to the client. A present of a result set returns records of the search that last made the set, whatever other sets were searched and however few sets a backend can hold; an existing set is kept if the client so asks. Records bear the virtual database's name, and every backend is closed exactly once along its route when the session ends.",
     ["histories", "inputs", "fault schedules", "configurations"], "every history of requests, database list, database name and backend outcome", "test_filter_virt_db is not built here and searches one database once.",
     ["src/filter_virt_db.cpp"], [("Frontend::{search,present,scan,init_backend,fixup_package,close}", "src/filter_virt_db.cpp"), ("map_list_to_targets", "src/filter_virt_db.cpp")])
prop("C23", "Several targets appear as one, with every record in its place",
     "An Init for several targets is sent to each, alone, along its route and with its credentials; the session opens if all targets accept (with hideunavailable: if any does), with the options all have in common and the smallest sizes. A search goes to every target's own database, and its result count is the sum of theirs. Record number n of the result is the n-th in round robin order over the targets that still have records (or the n-th of the targets' sets put after one another, for serveorder): present and piggyback return each record once, in its place, in the syntax and element set asked for, ask targets only for records they have, and a range beyond the sum is refused (13). Diagnostics of targets are all told (with hideerrors: unless another target works); a target that gives no or another answer, or fewer records, gives no record but harms nothing else; a lost target ends the session unless hidden. A scan returns the terms of all targets in order, each with the sum of its occurrences, and no more than asked for. Every backend is closed with the session.",
     ["inputs", "fault schedules", "configurations"], "every result count, position, number of records, and outcome of each target's Init, search, present and scan", "test_filter_multi is not built here and has no backend that returns records.",
     ["src/filter_multi.cpp"], [("FrontendSet::{round_robin,serve_order}, Frontend::{init,search,present,scan,close}", "src/filter_multi.cpp")])
prop("C24", "A connection is one session: each request answered once, ended once",
     "Every request received on a connection is handled once along the route of the port, as a package of the session and address of the connection, and what the route responds is sent to that client once; a request that nobody answers makes a Z39.50 Close or an HTTP 500 be sent. When the client disconnects, is idle for too long, or when a filter closes the session or leaves a request unanswered, the route gets one package that ends the session, requests not yet begun are dropped, the connection is given up once all its requests are done, and nothing of it is used afterwards - in whatever order worker threads finish. The statistics request and refused requests are answered here and close the connection without harm to outstanding requests. New connections are accepted, and HTTP requests handled, as long as the count of the peer (open ones for connect-total, last minute for connect-max and http-req-max) is below the value of the first element whose pattern matches; the idle time is chosen likewise.",
     ["histories", "schedules", "inputs", "configurations"], "every order of events and every schedule of worker threads within the pre-emption bound", "frontend_net is not built here and its test never has a client.",
     ["src/filter_frontend_net.cpp", "src/thread_pool_observer.cpp"], [("ZAssocChild::{recv_GDU,failNotify}, ThreadPoolPackage::{handle,result,cleanup}", "src/filter_frontend_net.cpp"), ("ZAssocServer::sessionNotify, PeerStat, configure", "src/filter_frontend_net.cpp")])
prop("C25", "HTTP rewriting changes what the rules say, where they say, and nothing else",
     "In each text that a rule applies to, matches of its patterns are replaced from left to right by the result, with named groups - also those of earlier matches and of the request - put in place; the leftmost match wins, at the same place the first pattern; patterns for the start apply there only and never inside the text of elements. The request line is rewritten as absolute URL, headers by name in any case, bodies by the first content section whose type matches: attributes and element texts as the first matching within says, string literals of scripts. All else - other headers, binary bodies, bodies without type, tags, comments, unmatched text - reaches its destination unchanged; skip links are obeyed and removed; no pattern or header makes rewriting hang or fail, and malformed rules are refused when configured.",
     ["inputs", "configurations"], "every text, header and body", "test_filter_rewrite is not built here and has a few pages.",
     ["src/filter_http_rewrite.cpp", "src/html_parser.cpp"], [("Rule::test_patterns, Replace::{parse_groups,sub_vars}, embed_quoted_literal, Phase::rewrite_*, Event", "src/filter_http_rewrite.cpp")])
prop("C26", "A session with a target: its own connection, within limits, always answered",
     "The first Z39.50 request of a session must be Init; it is connected to the one target of the request (or the default or forced one), with a diagnostic if there is none or more than one, and requests of a session use that connection only. Each request is sent once, as it came - for Init without its targets, and with the client's address and character sets if configured, in place of the client's own proposal but with its other information kept - and answered by the target's next response, or, if the connection fails, is lost, or stays silent for longer than configured, by a Close that ends the session. Diagnostics name the target. A target that closes is not asked again. There are never more connections to a target than the limit; a session that waits for one gets it when another ends, or a diagnostic when it has waited long enough. When a session ends its connection is closed (after telling the target if configured) and nothing of it is kept; sessions never wait for each other's targets; other protocols are passed on.",
     ["inputs", "histories", "fault schedules", "schedules"], "every order of events of the connection, every configuration and every schedule within the bounds", "z3950_client is not built here and has no test.",
     ["src/filter_z3950_client.cpp"], [("Rep::{get_assoc,send_and_receive,release_assoc}, Assoc", "src/filter_z3950_client.cpp")])
prop("C27", "Clients share sessions and result sets and never see anything of each other",
     "Clients whose Inits have the same authentication (unless ignored) and other information share sessions with the target, others never do; a client whose Init can be served by a session that exists makes no connection. Every search and present is answered as the target would answer that client's own search on its own databases - also where the set it names is used by a query, was replaced, belongs to another session, must be searched again, or where the records come from the cache - and a set that does not exist or must not be replaced is told as such. Searches already made are not made again. If the target fails, the client gets a diagnostic (or, with restart, one more try), and nobody is harmed or waits for ever. There are never more sessions with a target than the maximum, under any schedule; sessions not used for longer than their time to live, and only those, are closed, and all are when Metaproxy stops, at once.",
     ["histories", "inputs", "fault schedules", "schedules"], "every order of requests of clients, faults of the target, passing of time, and schedule of threads within the bounds", "session_shared is not built here and its test only sends an Init.",
     ["src/filter_session_shared.cpp"], [("InitKey, BackendClass, Frontend::{search,present,scan,get_set,override_set,result_set_ref}, Rep::{init,expire,expire_classes}", "src/filter_session_shared.cpp")])
prop("C28", "Sorted records: the first records of a set, in order, each once, in one place",
     "The first records asked for of a set in some syntax and element set - with the search or by a present that starts at 1 - are put in order together with as many following ones as configured, by the text the XPath expression selects, ascending or descending, and every later present within them gives the same record in the same place, each once, in the syntax and element set asked for, without asking the target. All other ranges, sets that the target does not have, other syntaxes and other requests reach the target as they are and its answer the client; each answer carries the reference of its request. A set that exists is not replaced unless asked for, sets of other sessions are not there, a fault of the target loses nothing that was received, and a session ends when its target is gone.",
     ["inputs", "histories", "fault schedules"], "every content of records and every range, number of records per response and request order", "test_filter_sort does not exist.",
     ["src/filter_sort.cpp"], [("RecordList, Frontend::{handle_search,handle_present,handle_records}", "src/filter_sort.cpp")])
prop("C29", "A SRU request is answered with what the target says, and leaves nothing open",
     "Each SRU search is carried out in one Z39.50 session that is opened for it - with the credentials, target, client address, databases, query, schema and extra parameters of the request - and closed afterwards in every case, also when the target refuses it. The response has the hit count and exactly the records of the range asked for, within the configured limit: each at its position, in the packing asked for, XML records as they are and everything else as a surrogate diagnostic that says why; and the position to go on from if there is more. Presents ask for the records still missing and never for any outside of the result; a target that returns no records or too many does no harm. What is refused or unsupported (no query, unknown query type, ranges, XPath, sorting, result sets, scan, other operations) and every failure of the target is answered with its diagnostic. Explain gives the configured record of the database, or a well-formed one with its database, host and port. Requests that are not SRU get 400, SOAP faults come back as such, and everything that is not HTTP is passed on, one request of a session at a time.",
     ["inputs", "fault schedules", "schedules"], "every 32-bit range, kind of record, behaviour of the target, and form of request within the bounds", "sru_z3950 is not built here and its test only configures the filter.",
     ["src/filter_sru_to_z3950.cpp", "src/sru_util.cpp"], [("Impl::{sru,z3950_init_request,z3950_search_request,z3950_present_request,z3950_build_query}", "src/filter_sru_to_z3950.cpp"), ("build_sru_explain, build_sru_response, decode_sru_request, get_sru_server_info", "src/sru_util.cpp")])
prop("C30", "Records come in the form asked for, diagnostics as records, nothing left behind",
     "record_transform asks the rest of the route for the syntax and schema that its configuration maps the requested ones to, and gives the client the records converted accordingly, each at its place: with the syntax asked for, OPAC records through the configured character set, and a record that can not be converted as a surrogate diagnostic that says so while the others are not affected. What the configuration does not know is refused with the diagnostic for it, and what needs no conversion (no mapping, surrogate diagnostics, other requests and responses, failures) passes as it is. sd_remove turns each surrogate diagnostic into an XML record with the diagnostic's code and text and leaves everything else as it was. Neither changes counts, positions or references, and no memory or conversion handle of a request is kept after it.",
     ["inputs", "fault schedules"], "every sequence of record kinds, contents and conversion outcomes", "Neither filter is built here; their tests only configure the filters.",
     ["src/filter_record_transform.cpp", "src/filter_sd_remove.cpp"], [("RecordTransform::Impl::process", "src/filter_record_transform.cpp"), ("SDRemove::Impl::process", "src/filter_sd_remove.cpp")])
prop("C31", "The test target behaves like a target of 42 records",
     "The backend_test filter accepts an Init with the options and version that were both asked for and offered, finds 42 records for each search, and returns exactly the records of the range asked for - MARC or XML, each with its own number, XML records of the size that the element set asks for - with the search according to the small, medium and large set rules, or with a present. Ranges outside of the set, syntaxes and element sets that are not supported, and named result sets of sessions that did not ask for them are refused with their diagnostics. A session that does not start with Init, or that asks for anything else, is closed with the reason; each session has a state of its own, and everything that is not Z39.50 is passed on.",
     ["inputs", "histories"], "every range, bound and element set; every order of requests of the sessions within the bounds", "backend_test is not built here, its test does two searches; every other test and the documented sample configurations rely on it as their target.",
     ["src/filter_backend_test.cpp"], [("BackendTest::process, Rep::fetch", "src/filter_backend_test.cpp")])
prop("C32", "Queries are rewritten as configured or refused, one conversion at a time",
     "cql_rpn replaces the query of a search by its conversion - CQL by RPN, or RPN by CQL if configured as reverse - and query_rewrite by what the stylesheet makes of it and with its terms in the configured character set. Queries of other types, the rest of the search and everything that is not a search pass as they are. If the conversion fails the search is refused with the diagnostic code and text of the conversion and is not passed on, and the session goes on. A configuration that is incomplete, unknown or refers to what can not be loaded is refused. Conversions of sessions that search at the same time do not get in each other's way, and nothing of a request is kept after it.",
     ["inputs", "configurations", "schedules", "fault schedules"], "every term within the bounds, outcome of the conversion and schedule", "Neither filter is built here; their tests configure them and do one query.",
     ["src/filter_cql_rpn.cpp", "src/filter_query_rewrite.cpp"], [("CQLtoRPN::Impl::process/configure", "src/filter_cql_rpn.cpp"), ("QueryRewrite::Impl::process/configure", "src/filter_query_rewrite.cpp")])
prop("C33", "The log says what happened, one line per entry, and changes nothing",
     "For each package the log filter writes what the configured categories ask for and nothing else: an access entry for the request and one for the response with message, user (that of the session), client address, session and elapsed time at their documented positions, session entries, Init options, APDUs, and the one-line summary of request and outcome, also for failures of every form and if there is no response. An entry is one line whatever the client puts into its request, complete, and not mixed with those of other sessions, also if several filters log to one file. Entries go to the configured file - or to the YAZ log if there is none - and are written at once. Packages, responses and sessions pass unchanged.",
     ["inputs", "configurations", "schedules"], "every user name, category, kind of package and response within the bounds", "log is not built here; its test looks at no output.",
     ["src/filter_log.cpp", "src/gduutil.cpp"], [("Log::Impl::process, LFile::log, log_1line_Z_GDU", "src/filter_log.cpp"), ("operator<<(std::ostream, Z_GDU)", "src/gduutil.cpp")])
prop("C34", "HTTP requests go to the target they name and its answer comes back",
     "The http_client filter asks for exactly the URI that a request names - its path if that is a full URI, the default host followed by the path otherwise - with the method and content of the request, the redirects and binding as configured, through the proxy of the request's proxy header or else the configured one, and with that header removed. The client's address is appended to what was forwarded before if configured; other headers stay. The client receives the target's status, content and headers but for the transfer encoding, 404 if there is no target, 502 with the reason if it can not be reached; the session ends if and only if the client asks for it, handles are released, and packages that are not HTTP are passed on. Configurations that are not valid are refused.",
     ["inputs", "configurations"], "every path, status and combination of headers and configuration within the bounds", "http_client is not built here and has no test.",
     ["src/filter_http_client.cpp"], [("HTTPClient::Rep::proxy, configure", "src/filter_http_client.cpp")])
prop("C35", "CGI scripts get their request, and their whole output is the response",
     "A request whose path starts with the path of a script is answered by the first such script and by nobody else, other requests are passed on. The script runs in its own directory - or not at all - with the documented environment, the content of the request as its input and nothing else of the exchange open. All it writes becomes the response, whether it takes the content or not and in whatever order both happen; what is no response, and failures to start it, are answered with an error. A script that neither writes nor ends within the time limit is ended; every script is waited for, every pipe is closed, and the session ends if the client asks for it.",
     ["inputs", "configurations", "schedules", "faults"], "every path, content, output, order of reading and writing, and failing system call within the bounds", "cgi is not built here and has no test.",
     ["src/filter_cgi.cpp"], [("CGI::process, Rep::child, configure", "src/filter_cgi.cpp")])
prop("C36", "The program does what its options ask for and stops when signalled",
     "The metaproxy program reads the configuration file it is given, with that file's directory as base, and refuses to start - ending with an error - if there is none, if it can not be read or is not valid, or if the working directory or the number of sockets asked for can not be had. A test of the configuration starts nothing. Otherwise the router is started before the first package is handed to it, with daemon or debug mode, pid file, user and limit as given and whatever the order of the options, and it is released at the end. From the moment that the program handles stop signals, the first one reaches the router exactly once with its number, its children are ended by SIGTERM, and signals of forked children are not for the router.",
     ["configurations", "schedules", "faults"], "every sequence of options within the bounds, every point at which a signal can arrive", "No test runs the program.",
     ["src/metaproxy_prog.cpp"], [("sc_main, work_common, sig_x_handler", "src/metaproxy_prog.cpp")])
prop("C37", "Explain requests for a configured database get its explain record",
     "The zeerex_explain filter answers each explain request, by URL or SOAP, for a database of its configuration with one record, the one configured for that database, along with the diagnostics of the request. Requests for other databases, other operations and packages that are not HTTP are passed on as they are. What can not be decoded is answered with the fault it has or HTTP 400, and the session is closed. Configurations that are not valid are refused.",
     ["inputs", "configurations"], "every database name and kind of request within the bounds", "zeerex_explain is not built here and has no test.",
     ["src/filter_zeerex_explain.cpp", "src/sru_util.cpp"], [("ZeeRexExplain::Impl::process, configure", "src/filter_zeerex_explain.cpp")])
