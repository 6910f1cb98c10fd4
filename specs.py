"""Per property: the harness parts that decide it, their bounds and assumptions."""
import os
V = os.path.dirname(os.path.abspath(__file__))
SPECS = {}


def S(pid, parts, bounds, outside, assumes, level="model_checking"):
    SPECS[pid] = dict(parts=parts, bounds=bounds, outside=outside, assumes=assumes, level=level)


html_cov = ["done", "text", "self-closed", "tag end"]
S("C01", [dict(name="html events tile the document", harness="html.cpp", srcs=["html_parser"], models=["yaz"], defs=["-DPROP=1"], quick=["-DN=7"], thorough=["-DN=9"], covers=html_cov)],
  {"quick": "documents of 7 arbitrary bytes, and 6 arbitrary bytes in each of 18 fixed contexts", "thorough": "9 arbitrary bytes / 8 in each context"},
  "longer documents", "yaz_strncasecmp modelled")
S("C02", [dict(name="html classification", harness="html.cpp", srcs=["html_parser"], models=["yaz"], defs=["-DPROP=2"], quick=["-DN=7"], thorough=["-DN=9"],
          covers=html_cov + ["tag", "comment", "declaration", "script end", "close tag", "quoted value", "unquoted value", "attribute without value", "script text"])],
  {"quick": "documents of 7 arbitrary bytes, and 6 arbitrary bytes in each of 18 fixed contexts", "thorough": "9 arbitrary bytes / 8 in each context"},
  "longer documents", "yaz_strncasecmp modelled")
S("C03", [dict(name="recipe language", harness="url.cpp", srcs=["url_recipe", "xmlutil"], models=["yaz", "xml"], quick=["-DN=5"], thorough=["-DN=7"], covers=["done", "percent-encoded", "variable"]),
          dict(name="pattern replacement", harness="url.cpp", srcs=["url_recipe", "xmlutil"], models=["yaz", "xml"], defs=["-DREGEX"], quick=["-DN=3"], thorough=["-DN=4"], covers=["done", "shortened", "lengthened"])],
  {"quick": "recipes of up to 5 arbitrary bytes, and up to 3 in each of 8 contexts; literal patterns of 1-2 characters on texts of up to 3"}, "longer recipes; regular-expression operators in patterns", "")
S("C04", [dict(name="accessors", harness="xmlutil.cpp", srcs=["xmlutil"], models=["yaz", "xml"], quick=["-DN=5"], thorough=["-DN=7"],
               covers=["done", "text", "true", "false", "default", "negative", "attribute matches", "mp element", "route", "refused", "next found", "not empty", "empty"])],
  {"quick": "up to 4 child nodes of 5 kinds, texts of up to 5 arbitrary bytes, up to 3 attributes"}, "", "")
flex = dict(harness="flexml.cpp", srcs=["router_flexml", "factory_filter", "filter", "xmlutil", "router_chain"], models=["yaz", "xml"])
S("C05", [dict(flex, name="acceptance", defs=["-DPROP=5", "-DSTEPS=1"], quick=["-DNF=2", "-DNR=2"], thorough=["-DNF=3", "-DNR=3"], covers=["accepted", "refused"])], {"quick": "2 filters and 2 routes with references of 3 names, every permutation/omission of the document structure below", "thorough": "3 filters, 3 routes"}, 'larger configurations', 'libxml2 modelled as a node tree')
S("C06", [dict(flex, name="walk", defs=["-DPROP=6"], quick=["-DSTEPS=3"], thorough=["-DSTEPS=4"], covers=["done", "next filter", "end of route", "unknown route", "named route", "clone"]),
          dict(flex, name="forms", defs=["-DPROP=6", "-DFORMS", "-DSTEPS=1"], covers=["done", "next filter", "end of route", "unknown route", "named route"]),
          dict(flex, name="packages", shims=["."], models=["yaz", "xml", "z3950", "zquery"], native_extra=["native_yazpp.cpp"], srcs=flex["srcs"] + ["util", "session", "package", "origin"], defs=["-DPROP=9"], quick=["-DSTEPS=3"], thorough=["-DSTEPS=4"], covers=["done", "next filter", "end of route", "unknown route", "named route", "clone"]),
          dict(flex, name="chain", defs=["-DPROP=8", "-DSTEPS=3"], covers=["done", "clone"])], {"quick": "2 routes of up to 2 filters, nested filter lists and other forms, every sequence of 3 moves/clones/route names", "thorough": "4 steps"}, 'longer routes and walks', '')
S("C07", [dict(flex, name="start/stop", defs=["-DPROP=7", "-DSTEPS=1"], quick=[], thorough=["-DNR=3"], covers=["done", "started several"]),
          dict(flex, name="chain", defs=["-DPROP=8", "-DSTEPS=3"], covers=["done", "clone"])], {"quick": "every configuration of C06", "thorough": "one more route"}, 'larger configurations', '')
S("C08", [dict(name="factory histories", harness="factory.cpp", srcs=["factory_filter", "filter"], models=["yaz", "xml"], quick=["-DK=3"], thorough=["-DK=4"], covers=["done", "registered twice", "removed", "created", "not found", "dl"])],
  {"quick": "every history of 3 operations (5 kinds) over names of up to 2 characters of {a,b}"}, "", "")
S("C09", [dict(name="addresses", harness="origin.cpp", srcs=["origin"], models=["yaz"], quick=["-DN=4"], thorough=["-DN=6"], covers=["done", "forwarded", "custom session", "no address"])],
  {"quick": "addresses of up to 4 arbitrary bytes, two forwarded values, a custom session", "thorough": "6 bytes"}, 'longer addresses; ids from 2^32', '')
S("C10", [dict(name="concurrent creation", harness="session.cpp", srcs=["session"], defs=["-DPROP=1"], quick=["-DNT=2", "-DPER=2", "-DPB=3"], thorough=["-DNT=2", "-DPER=2", "-DPB=5"], covers=["done", "overtaken"], replay="engine"),
          dict(name="copies", harness="session.cpp", srcs=["session"], defs=["-DPROP=2"], quick=["-DOPS=3"], thorough=["-DOPS=4"], covers=["done", "assigned", "closed"]),
          dict(name="storage", harness="session.cpp", srcs=["session"], defs=["-DPROP=3"], quick=["-DOPS=5"], thorough=["-DOPS=7"], covers=["done", "created", "released"]),
          dict(name="storage under concurrency", harness="session.cpp", srcs=["session"], defs=["-DPROP=4"], quick=["-DPB=4"], thorough=["-DPB=6"], covers=["done", "created", "released"], replay="engine")],
  {"quick": "2 threads of 2 creations with 3 pre-emptions at every memory access; histories of 3 copies/assignments/closes; 5 storage operations", "thorough": "5 pre-emptions; 4 and 7 operations"}, 'more threads', 'sequentially consistent memory')

# parts that need yaz++ (not installed): stand-in headers in shim/, deep copies natively through libyaz
YP = dict(shims=["."], models=["yaz", "xml", "z3950", "zquery"], native_extra=["native_yazpp.cpp"])
util = dict(YP, harness="util.cpp", srcs=["util", "session", "package", "origin", "filter"])
S("C11", [dict(util, name="present count", defs=["-DPROP=11"], covers=["done", "small set", "medium set", "large set", "composition"])], "every 64-bit value of size and the three bounds; element set names of up to 2 bytes, present or not", 'none for the numbers', '')
S("C12", [dict(util, name="responses", defs=["-DPROP=12"], quick=["-DNB=3"], thorough=["-DNB=6"], covers=["done", "reference id", "init diagnostic", "diagnostic", "kept alive", "closed", "content"])], {"quick": "every request kind, reference ids, error codes and texts of up to 3 bytes, 8 Connection headers, versions 0.9/1.0/1.1", "thorough": "6 bytes"}, 'longer texts', 'YAZ response creation modelled')
S("C13", [dict(util, name="addresses and databases", defs=["-DPROP=13"], quick=["-DNB=3"], thorough=["-DNB=5"], covers=["done", "match", "address matches", "address refused", "databases", "vhost", "uri"])], {"quick": "strings of up to 3 arbitrary bytes in contexts around the separators; lists of up to 2", "thorough": "5 bytes"}, 'longer strings', '')

fx = dict(YP)
FX = ["util", "session", "package", "origin", "filter", "router_chain", "xmlutil"]
S("C14", [dict(fx, name="limit", harness="small.cpp", srcs=["filter_limit"] + FX, defs=["-DPROP=1"], quick=["-DSTEPS=3"], thorough=["-DSTEPS=4"], covers=["done", "capped", "not capped", "delayed", "not delayed", "closed"])], {"quick": "3 requests of 2 sessions, arbitrary limits and counts", "thorough": "4 requests"}, 'longer histories', 'yaz++ TimeStat stand-in counts within the last second')
S("C15", [dict(fx, name="bounce", harness="small.cpp", srcs=["filter_bounce", "gduutil"] + FX, defs=["-DPROP=2"], covers=["done", "close", "400", "echo"])], "every APDU kind, HTTP request and response; echo on and off", '', '')
S("C16", [dict(fx, name="present_chunk", harness="small.cpp", srcs=["filter_present_chunk"] + FX, defs=["-DPROP=3"], quick=["-DSTEPS=3"], thorough=["-DSTEPS=5"], covers=["done", "short", "closed", "close", "diagnostic", "several chunks", "records"])], {"quick": "ranges, chunk sizes and up to 3 backend responses of arbitrary size (0..4 records), each possibly a diagnostic, another response or a close", "thorough": "5 responses"}, 'more chunks', '')
pool = dict(harness="pool.cpp", srcs=["thread_pool_observer", "pipe"], shims=["."], models=["yaz", "bthread"], replay="engine")
S("C17", [dict(pool, name="schedules", defs=["-DMODES=3", "-DMEM=0", "-DMINLO=1", "-DMINHI=1", "-DMAXHI=2"], quick=["-DNM=2", "-DPB=3"], thorough=["-DNM=3", "-DPB=5"], covers=["done", "worker added", "cleaned", "removed", "stopped early"]),
          dict(pool, name="full queue", defs=["-DMODES=1", "-DMEM=0", "-DMINLO=1", "-DMINHI=1", "-DMAXHI=1", "-DNM=66"], quick=["-DPB=1"], thorough=["-DPB=2"], covers=["done"])], {"quick": "2 messages, 1-2 workers, 3 pre-emptions at synchronisation points; full queue with 66 messages and 1 pre-emption", "thorough": "3 messages, 5 pre-emptions; 2"}, 'more workers; data races between synchronisation points', 'boost::thread on a pthread model; sequentially consistent memory')
S("C18", [dict(fx, name="packages", harness="small.cpp", srcs=FX, defs=["-DPROP=4"], covers=["done", "sub-package", "log"])], "routes of 0 to 3 filters, a filter at every place making 0-2 sub-packages, a close at every place, log on/off", 'longer routes', '')
FS = ["-include", "%s/harness/fsstub.h" % V]
S("C19", [dict(fx, name="file serving", harness="files.cpp", srcs=["filter_http_file", "plainfile"] + FX, srcdefs=FS, defs=["-DPROP=1"], quick=["-DNB=3"], thorough=["-DNB=4"], covers=["done", "passed on", "passthru", "404", "405", "500", "raw", "200"])],
  {"quick": "paths of 3 arbitrary bytes in each of 7 contexts, 1-2 areas of 4 prefixes and 2 roots; 8 file names x 3 methods x 7 file system states x 3 sizes x raw/passthru", "thorough": "4 arbitrary bytes"}, "real file contents beyond 3 bytes; symbolic links", "file access replaced by recording stand-ins")
auth = dict(fx, harness="files.cpp", srcs=["filter_auth_simple"] + FX, srcdefs=FS)
S("C20", [dict(auth, name="decisions", defs=["-DPROP=3"], quick=["-DNB=3"], thorough=["-DNB=4"], covers=["done", "refused", "target refused", "no target", "targets", "accepted", "search passed", "search refused"]),
          dict(auth, name="registers", defs=["-DPROP=4"], quick=["-DNB=4"], thorough=["-DNB=6"], covers=["done", "bad register", "listed", "not listed", "long line"]),
          dict(auth, name="concurrent sessions", models=YP["models"] + ["bthread"], defs=["-DPROP=5"], quick=["-DPB=1"], thorough=["-DPB=2"], covers=["done"], replay="engine"),
          dict(fx, name="plain files", harness="files.cpp", srcs=["plainfile"], srcdefs=FS, defs=["-DPROP=2"], quick=["-DNB=4"], thorough=["-DNB=6"], covers=["done", "line", "long"])],
  {"quick": "open credentials of 3 arbitrary bytes, user and password of up to 2, 3 registered users, 0-2 targets of 4, 0-2 databases of 1-2 arbitrary bytes; register and word files with 4 arbitrary bytes in 5 contexts and an overlong line; two sessions with 1 pre-emption at any memory access", "thorough": "4 and 6 bytes; 2 pre-emptions"}, "sessions that never initialise are passed on, as the code says; longer files", "std::ifstream replaced by a stand-in with the same reading rules")
S("C21", [dict(fx, name="balancing", harness="routing.cpp", srcs=["filter_load_balance"] + FX, defs=["-DPROP=1"], quick=["-DSTEPS=3"], thorough=["-DSTEPS=4"], covers=["done", "not the first", "fail over", "refused", "gone", "dead"]),
          dict(fx, name="concurrent sessions", harness="routing.cpp", srcs=["filter_load_balance"] + FX, models=YP["models"] + ["bthread"], defs=["-DPROP=3"], quick=["-DPB=1"], thorough=["-DPB=2"], covers=["done"], replay="engine")],
  {"quick": "every history of 3 operations (Init with 3 target lists and 0-3 failing targets, request or close with 5 backend outcomes and an Init meanwhile, end of session) of 3 sessions, then one more Init; two sessions coming or going at once, 1 pre-emption at any memory access", "thorough": "4 operations; 2 pre-emptions"}, "longer histories", "")
S("C22", [dict(fx, name="virtual databases", harness="routing.cpp", srcs=["filter_virt_db"] + FX, defs=["-DPROP=2"], quick=["-DSTEPS=3", "-DNB=3"], thorough=["-DSTEPS=4", "-DNB=4"], covers=["done", "audit", "kept", "unknown database", "conflict", "refused", "closed", "diagnostic", "search", "scan", "no set", "present", "other", "close"])],
  {"quick": "every history of 3 requests (search, scan, present, close, other) over 2 result sets, 0-2 of 6 databases, 5 virtual databases, backends with and without named result sets, 5 backend outcomes", "thorough": "4 requests"}, "longer histories", "")
mu = dict(fx, harness="multi.cpp", srcs=["filter_multi"] + FX, models=YP["models"] + ["bthread"])
S("C23", [dict(mu, name="merging", defs=["-DPROP=1"], quick=["-DNBE=3", "-DNUM=2", "-DMAXC=7"], thorough=["-DNBE=3", "-DNUM=4", "-DMAXC=1023", "-DWIDE"], covers=["done", "out of range", "piggyback", "small set", "present"]),
          dict(mu, name="failures", defs=["-DPROP=2"], covers=["done", "refused", "hidden", "lost", "search", "diagnostics", "no answer", "records"]),
          dict(mu, name="scan", defs=["-DPROP=3"], covers=["done", "failure", "before", "after"])],
  "result counts of 0 to 2^31-1 of 1-3 targets, every start from 1, up to 3 records (thorough: 5); every pair of outcomes of Init (4), search (4) and present (8) of two targets; scan responses of up to 3 and 2 terms at every position", "more targets; 64-bit counts", "")
net = dict(fx, harness="net.cpp", srcs=["filter_frontend_net", "gduutil", "thread_pool_observer", "pipe"] + FX, models=YP["models"] + ["bthread"], replay="engine")
S("C24", [dict(net, name="connection", defs=["-DPROP=1"], quick=["-DPB=1", "-DSTEPS=4", "-DNT=2", "-DNR=2"], thorough=["-DPB=2", "-DSTEPS=5", "-DNT=2", "-DNR=3"], covers=["done", "answered", "ended", "unhandled", "closed later", "request of a session that is ending"]),
            dict(net, name="requests answered here", defs=["-DPROP=1", "-DREPORT"], quick=["-DPB=1", "-DSTEPS=3", "-DNT=1", "-DNR=3"], thorough=["-DPB=2", "-DSTEPS=4", "-DNT=2", "-DNR=3"], covers=["done", "answered", "ended", "report", "too many"]),
            dict(net, name="limits", defs=["-DPROP=2"], quick=["-DSTEPS=3"], thorough=["-DSTEPS=4"], covers=["done", "refused", "too many"])],
  {"quick": "every order of up to 4 events (request, timeout, disconnection, delayed close, delivery) on a connection with up to 2 requests in 1-2 worker threads, each answered, unhandled, or closing the session, every schedule with 1 pre-emption at synchronisation points; reports and refused requests: 3 events, 3 requests; limits: 3 connections of 2 peers, 0-2 elements of each kind with 4 patterns and values 0-3, up to 2 requests each", "thorough": "5 events, 3 requests, 2 pre-emptions; 4 connections"}, "more workers and requests; connection limits while requests are handled; TLS", "yaz++ connections and its rate counters replaced by stand-ins; boost::thread on a pthread model")
rw = dict(fx, harness="rewrite.cpp", srcs=["filter_http_rewrite", "html_parser"] + FX)
S("C25", [dict(rw, name="rules", defs=["-DPROP=1"], quick=["-DNB=3"], thorough=["-DNB=4"], covers=["done", "header", "text", "changed", "empty matches"]),
           dict(rw, name="places", defs=["-DPROP=2"], quick=["-DNB=3"], thorough=["-DNB=5"], covers=["done", "no host", "request line", "binary", "body", "attribute", "literal", "malformed"]),
           dict(rw, name="skip links", defs=["-DPROP=3"], covers=["done", "skipped"]),
           dict(rw, name="elements", defs=["-DPROP=4"], quick=["-DNT=3"], thorough=["-DNT=4"], covers=["done", "outside", "inside", "nested"])],
  {"quick": "rules of 1-2 of 7 patterns on texts of up to 3 arbitrary ASCII characters, in headers and elements, with and without variables of the request; request lines, headers, attribute values and scripts (in 6 contexts) of up to 3 arbitrary characters, 4 within configurations, 5 content types; 0-2 of 8 skip links; 1-3 tags of 6 and texts and attributes of 2 arbitrary characters", "thorough": "4 and 5 characters; 4 tags"}, "other regular expressions; line ends inside rewritten texts", "libyaz HTTP functions modelled (replayed with the real ones)")
cl = dict(fx, harness="client.cpp", srcs=["filter_z3950_client"] + FX, models=YP["models"] + ["bthread"])
S("C26", [dict(cl, name="session", defs=["-DPROP=1"], quick=["-DNB=1", "-DSTEPS=2"], thorough=["-DNB=2", "-DSTEPS=3"], covers=["done", "passed on", "no init", "target unknown", "refused", "not connected", "lost", "silent", "closed by target", "diagnostic", "answered", "told"]),
           dict(cl, name="limit", defs=["-DPROP=2"], quick=["-DSTEPS=4"], thorough=["-DSTEPS=5"], covers=["done", "ended", "limit", "fails", "below the limit", "no limit"], replay="engine"),
           dict(cl, name="at once", defs=["-DPROP=3"], quick=["-DPB=2"], thorough=["-DPB=3"], covers=["done", "same session", "took the place", "timed out", "passed on", "lost at the same time", "told the end", "not answered: ended"], replay="engine")],
  {"quick": "sessions of 2 requests (Init with 0-2 targets, search, present, close, HTTP), every configuration flag, every order of connect/answer/loss/silence, 1 arbitrary character in diagnostics; 3 sessions opened and closed 4 times under limits of none, 1, 2; 2 threads (two requests of a session, the connection lost meanwhile or not; waiting at the limit, with or without giving up; passed on) with 2 pre-emptions", "thorough": "3 requests, 2 characters; 5 times; 3 pre-emptions"}, "more threads; the wire encoding", "yazpp Z_Assoc and SocketManager are stand-ins driven by the harness; libyaz functions modelled; boost::thread on a pthread model; sequentially consistent memory")
sh = dict(fx, harness="shared.cpp", srcs=["filter_session_shared"] + FX, models=YP["models"] + ["bthread"])
S("C27", [dict(sh, name="clients", defs=["-DPROP=1"], quick=["-DSTEPS=2", "-DNF=2", '-DRMAX="1"'], thorough=["-DSTEPS=3", "-DNF=2", '-DRMAX="2"'], covers=["done"]),
          dict(sh, name="keys", defs=["-DPROP=4"], covers=["done", "same", "different"]),
          dict(sh, name="at once", defs=["-DPROP=3"], quick=["-DPB=1", "-DNF=1", "-DMEM=0"], thorough=["-DPB=2", "-DNF=1", "-DMEM=0"], covers=["done"], replay="engine"),
          dict(sh, name="expiry", defs=["-DPROP=2", "-DMEM=0"], quick=["-DSTEPS=4"], thorough=["-DSTEPS=5"], covers=["done", "idle"], replay="engine"),
          dict(sh, name="expiry at once", defs=["-DPROP=2", "-DMEM=1"], quick=["-DPB=1", "-DOPS=2", "-DNAMED=0"], thorough=["-DPB=1", "-DOPS=3", "-DNAMED=1"], covers=["done"], replay="engine")],
  {"quick": "2 clients, 1 Init and 2 further requests (search with 4 kinds of query on 2 databases and 2 sets, present, scan, close, loss), up to 2 faults of the target (lost, refused, diagnostics, size below zero), with and without named result sets, restart, ignore-auth; 2 Inits with authentication of 3 kinds and 2 arbitrary characters; 2 threads with 1 fault and 1 pre-emption at synchronisation points; 4 events of clients and clock with the expiry thread; 1 pre-emption at any memory access during expiry", "thorough": "3 requests; 2 pre-emptions; 5 events"}, "more clients and result sets; data races that are harmless in sequentially consistent memory", "target is a harness filter; yazpp query and record cache are stand-ins; libyaz functions modelled; boost::thread on a pthread model; time is that of the harness")
so = dict(fx, harness="sort.cpp", srcs=["filter_sort"] + FX, models=YP["models"] + ["xmldoc"])
S("C28", [dict(so, name="order", defs=["-DSHAPES=3", "-DORDER=1", "-DNF=0", "-DSTEPS=2"], quick=["-DMAXH=3"], thorough=["-DMAXH=4"], covers=["done", "sorted", "again", "with the search"]),
          dict(so, name="sets", defs=["-DSHAPES=0", "-DORDER=0", "-DNF=0"], quick=["-DMAXH=2", "-DSTEPS=3"], thorough=["-DMAXH=3", "-DSTEPS=3"], covers=["done", "kept", "with the search", "no such records", "again", "passed on", "sorted", "other"]),
          dict(so, name="syntaxes", defs=["-DSHAPES=0", "-DORDER=0", "-DNF=0", "-DNSYN=2", "-DMAXH=1", "-DSTEPS=3"], covers=["done", "kept", "with the search", "no such records", "again", "sorted", "other"]),
          dict(so, name="faults", defs=["-DSHAPES=0", "-DORDER=0", "-DNF=1"], quick=["-DMAXH=2", "-DSTEPS=2"], thorough=["-DMAXH=2", "-DSTEPS=3"], covers=["done", "no set", "lost", "prefetch fails", "sorted"])], 
  {"quick": "sets of up to 3 records with arbitrary one-character keys, 4 kinds of record and XPath, prefetch of 0 or 3, both directions, targets that return 1-3 records at a time; a search and 2 requests (search, present of 2 syntaxes, 3 element sets and arbitrary 64-bit ranges, scan) on 2 records, on 1 record also without a syntax; 1 fault of the target", "thorough": "4 records; 3 records; 2 requests with a fault"}, "longer keys; large prefetch; the XPath language", "libxml2 parser and XPath modelled (replayed with the real ones); libyaz functions modelled")

sru = dict(fx, harness="sru.cpp", srcs=["filter_sru_to_z3950", "sru_util"] + FX, models=YP["models"] + ["xmldoc", "srw"])
S("C29", [dict(sru, name="forms", defs=["-DPROP=1", "-DFORM=1", "-DKINDS=0", "-DNF=0"], quick=["-DMAXH=2"], thorough=["-DMAXH=3"], covers=["done", "records", "limited", "unsupported", "diagnostic", "more", "log", "custom session"]),
          dict(sru, name="records and faults", defs=["-DPROP=1", "-DFORM=0", "-DKINDS=5"], quick=["-DMAXH=2", "-DNF=1"], thorough=["-DMAXH=3", "-DNF=3"], covers=["done", "records", "surrogate", "several presents", "fault", "too many", "diagnostic", "unsupported", "more"]),
          dict(sru, name="other operations", defs=["-DPROP=2"], quick=["-DNB=2"], thorough=["-DNB=3"], covers=["done", "scan", "other", "configured", "explain", "fault", "bad request", "passed on"]),
          dict(sru, name="sessions", models=sru["models"] + ["bthread"], defs=["-DPROP=3"], quick=["-DPB=2"], thorough=["-DPB=4"], covers=["done", "two sessions", "same session"], replay="engine")],
  {"quick": "20 forms of search requests on results of up to 2 records with limits; any 32-bit startRecord and maximumRecords, 6 kinds of record, 1-2 records a response, 1 fault of the target out of 9; explain/scan/unsupported/undecodable requests with database and host of up to 2 printable characters; 2 requests at a time with 2 pre-emptions", "thorough": "3 records, 3 faults; 3 characters; 4 pre-emptions"}, "facets; libyaz's SRU decoder and encoder (the harness supplies the decoded request and takes the response before it is encoded); explain records with namespaces", "SRU decoding/encoding and PQF parsing by the harness; libyaz and libxml2 functions modelled")
S("C30", [dict(fx, name="conversion", harness="records.cpp", srcs=["filter_record_transform"] + FX, defs=["-DPROP=1"], quick=["-DNREC=2"], thorough=["-DNREC=3"], covers=["done", "refused", "other", "no records with the search", "not available", "error", "as it is", "not converted", "OPAC", "converted"]),
          dict(fx, name="diagnostics as records", harness="records.cpp", srcs=["filter_sd_remove"] + FX, defs=["-DPROP=2"], quick=["-DNREC=3"], thorough=["-DNREC=4"], covers=["done", "refused", "nothing", "other", "error", "record", "other diagnostic", "surrogate"])],
  {"quick": "responses of up to 2 (conversion) or 3 (diagnostics) records of 5 kinds with 2 arbitrary characters each, 4 behaviours of the rest of the route, 3 kinds of request, each outcome of the retrieval lookup and of each conversion", "thorough": "3 and 4 records"}, "what libyaz's record conversion does with a record; use of one conversion by several threads", "yaz_retrieval and yaz_record_conv are stand-ins that choose their outcome; other libyaz functions modelled")
S("C31", [dict(fx, name="recorded findings", harness="backend.cpp", srcs=["filter_backend_test"] + FX, defs=["-DPROP=2", "-DSTEPS=1", "-DK0=1", "-DK1=4"], covers=[]), dict(fx, name="recorded finding: negative record size", harness="backend.cpp", srcs=["filter_backend_test"] + FX, defs=["-DPROP=2", "-DSTEPS=1", "-DK0=5", "-DK1=5"], covers=[]), dict(fx, name="test target", harness="backend.cpp", srcs=["filter_backend_test"] + FX, defs=["-DPROP=1"], quick=["-DSTEPS=3"], thorough=["-DSTEPS=5"], covers=["done", "passed on", "no init", "closed", "others go on", "not named", "hits only", "not in that form", "records with the search", "out of range", "records"])],
  {"quick": "2 sessions, 2 optional Inits and one request: search with any upper/lower bounds and present numbers, 4 syntaxes and 13 element sets; present of the ranges within the result at 4 places, and of any 64-bit range outside of it; close, scan", "thorough": "4 Inits"}, "contents of the sample MARC records; presents of more than 3 records except whole sets", "libyaz functions modelled; one thread")
S("C32", [dict(fx, name="CQL and RPN", harness="queries.cpp", srcs=["filter_cql_rpn"] + FX, defs=["-DPROP=1"], covers=["done", "refused", "other", "as it is", "to RPN", "to CQL", "no RPN", "no CQL"]),
          dict(fx, name="concurrent conversions", harness="queries.cpp", srcs=["filter_cql_rpn"] + FX, models=YP["models"] + ["bthread"], defs=["-DPROP=2"], quick=["-DPB=1"], thorough=["-DPB=2"], covers=["done"], replay="engine"),
          dict(fx, name="rewriting", harness="queries.cpp", srcs=["filter_query_rewrite"] + FX, models=YP["models"] + ["xmldoc"], defs=["-DPROP=3"], covers=["done", "refused", "other", "as it is", "rewritten", "converted", "can not be rewritten", "can not be converted"])],
  {"quick": "7 and 8 configurations, 5 kinds of query, terms of 2 arbitrary printable characters, each outcome of the conversion; 2 requests at a time with 1 pre-emption at any memory access", "thorough": "2 pre-emptions"}, "what the CQL conversion, the stylesheet or the character set conversion do with a query; an unknown character set (such queries are passed on)", "yazpp::Yaz_cql2rpn, libxslt and character set conversion are stand-ins; other libyaz functions modelled")
LS = ["-include", "%s/harness/logstub.h" % V]
lg = dict(fx, harness="log.cpp", srcs=["filter_log", "gduutil"] + FX, srcdefs=LS)
S("C33", [dict(lg, name="log", defs=["-DPROP=1"], covers=["done", "refused", "end", "no response", "failure in one line", "user", "file"]),
          dict(lg, name="clients at the same time", models=YP["models"] + ["bthread"], defs=["-DPROP=2"], quick=["-DPB=2"], thorough=["-DPB=3"], covers=["done"], replay="engine")],
  {"quick": "10 categories (one at a time, and all), 4 destinations and messages, 11 kinds of package with up to 8 kinds of response, users of 2 arbitrary characters given in 4 ways; 2 clients at a time with 2 pre-emptions at synchronisation points", "thorough": "3 pre-emptions"}, "how YAZ prints an APDU; the date; writing to the real file; duplicate detection", "stdio, yaz_log and the APDU printer are recorded by the harness; libyaz functions modelled")
wb = dict(fx, harness="webs.cpp")
S("C34", [dict(wb, name="HTTP client", srcs=["filter_http_client"] + FX, defs=["-DPROP=1"], quick=["-DNB=2"], thorough=["-DNB=4"], covers=["done", "refused", "passed on", "no target", "forwarded", "failed", "answered"])],
  {"quick": "10 configurations; paths of up to 2 arbitrary bytes after nothing, a slash or http://; 3 methods, 4 connection headers, 3 proxy headers, 2 forwarded headers, content or none, any status code, 3 outcomes", "thorough": "4 bytes"}, "what yaz_url does on the network", "yaz_url is a recording stand-in; libyaz functions modelled")
CG = ["-include", "%s/harness/cgistub.h" % V]
S("C35", [dict(wb, name="scripts", srcs=["filter_cgi", "gduutil"] + FX, srcdefs=CG, defs=["-DPROP=2"], quick=["-DNB=1"], thorough=["-DNB=3"], covers=["done", "refused", "passed on", "failed", "answered", "no response", "ended", "script", "content not wanted", "can not run", "runs"])],
  {"quick": "7 configurations with up to 2 scripts; paths of up to 1 arbitrary byte in 3 contexts; contents of up to 2 bytes of which the script takes any number, in any pieces; up to 2 arbitrary bytes of output in any order with the content; scripts that hang, write no response, or can not be run; failures of both pipes and of the fork", "thorough": "3 bytes"}, "other sessions' scripts inheriting the pipes; read and write interrupted by signals; decoding of the response", "processes, pipes and decoding are played by the harness; libyaz functions modelled")
PG = ["-include", "%s/harness/progstub.h" % V]
S("C36", [dict(fx, name="program", harness="program.cpp", srcs=["metaproxy_prog"] + FX, srcdefs=PG, quick=["-DNOPT=3"], thorough=["-DNOPT=4"], covers=["done", "version", "refused", "test", "no limit", "daemon", "no daemon", "stopped"])],
  {"quick": "up to 3 options of 15, in any order; each failure of the working directory, the limit, the document and the configuration; 2 signals at each of 5 points, 2nd signals, signals in a child", "thorough": "4 options"}, "parsing of the command line and forking (YAZ)", "yaz_daemon, options, libxml2 and system calls are played by the harness")
S("C37", [dict(sru, name="explain", srcs=["filter_zeerex_explain", "sru_util"] + FX, defs=["-DPROP=4"], quick=["-DNB=2"], thorough=["-DNB=3"], covers=["done", "refused", "passed on", "other database", "other operation", "bad request", "fault", "explain"])],
  {"quick": "5 configurations of up to 2 databases, paths of up to 2 arbitrary printable characters, 5 kinds of request and of failure to decode it, with and without SOAP", "thorough": "3 characters"}, "decoding and encoding of SRU (YAZ); %-escapes in database names", "SRU codec played by the harness; libyaz and libxml2 functions modelled")
