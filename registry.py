"""What decides each property: the test units, how cases are made and when
one counts as non-trivial."""

PROPS = {}


def prop(pid, units, rule, technique, note, assumptions=()):
    PROPS[pid] = dict(units=units, rule=rule, technique=technique, note=note, assumptions=list(assumptions))


def unit(pkg, run, **kw):
    return dict(pkg=pkg, run=run, **kw)


prop("R01", [unit("routerp", "TestR01")],
     "random route tables (up to 12 routes over small host, path, method and content-type alphabets, re-registrations, trailing slashes) and requests at, above, below and beside the registered paths, further registrations between the requests; non-trivial: at least one request selects a registered path",
     "model-based property testing (rapid): generated route tables and requests against an independent reference router",
     "Every generated table and request is answered as the reference router says; sampling, no proof.",
     ["registered paths start with a slash; media types in lower case without blanks"])
prop("R02", [unit("routerp", "TestR02")],
     "random interleavings of route and middleware registrations of both kinds with random stopping middleware, then requests with further registrations between them; non-trivial: a dispatched request passes at least one middleware",
     "model-based property testing (rapid): trace of middleware and handlers against a reference",
     "Trace of every generated request equals the reference trace; sampling.")
prop("R03", [unit("routerp", "TestR03")],
     "random path and host spellings, seen path compared with an independent canonicaliser and equivalent spellings compared with one another; non-trivial: the spelling is not already canonical",
     "property testing with metamorphic relations (rapid)",
     "Canonical form and spelling independence on every generated spelling; sampling.")
prop("R04", [unit("routerp", "TestR04", race=True)],
     "random plans of concurrent registrations and requests, each answer checked against the registration sets possible between its invocation and response; non-trivial: a registration overlapped a request or preceded it",
     "randomised concurrent histories against a reference with real-time bounds, under the Go race detector",
     "Schedules are sampled by the Go scheduler; a violation needs to be scheduled, races only to be executed.")
prop("C01", [unit("cachep", "TestC01"), unit("cachep", "TestC01Many", shards=1, tshards=2)],
     "random histories of stores, both lookups, pauses and ring-filling bursts over keys of one shard, under a controlled clock; and full caches asked for two million keys never stored; non-trivial: more than three operations with at least one lookup",
     "stateful model-based property testing (rapid) under a virtual clock (synctest)",
     "Every generated history answers as the reference map with ages; sampling.",
     ["which keys share a shard is only used to steer generation"])
prop("C02", [unit("cachep", "TestC02"), unit("cachep", "TestC02", race=True, shards=4)],
     "random plans of 2 to 8 goroutines with stores and lookups on cold, warm and full shards; recorded histories checked for linearizability per key; non-trivial: operations on one key overlapped in time",
     "randomised concurrent histories checked for linearizability (porcupine), plus the Go race detector",
     "Schedules are sampled by the Go scheduler.")
prop("G01", [unit("guardp", "TestG01")],
     "random rates, bursts and arrival histories (pauses around whole tokens, long idling, crowds of other clients) under a controlled clock, each answer compared with a reference token bucket kept as an interval; non-trivial: more requests than the burst",
     "stateful model-based property testing (rapid) under a virtual clock (synctest)",
     "Every generated history is answered as the reference bucket allows; sampling.",
     ["answers within rounding (some ns of refill) of a whole token are not judged", "fewer than 1000 requests of others between two of a client"])
prop("G02", [unit("guardp", "TestG02")],
     "random histories of clients that are easily taken for one another; each client's answers are compared with its own history alone and with a reference bucket per identity; non-trivial: at least two identities and more requests than the burst",
     "metamorphic (non-interference) and model-based property testing (rapid) under a virtual clock",
     "Sampling over adversarial client pairs.")
prop("G03", [unit("guardp", "TestG03"), unit("guardp", "TestG03", race=True, shards=4)],
     "random waves of simultaneous requests of 1 to 4 clients against fresh or partly used buckets; non-trivial: more requests at once than tokens",
     "randomised concurrent property testing, plus the Go race detector",
     "Schedules are sampled by the Go scheduler.")
prop("G04", [unit("guardp", "TestG04")],
     "random rule sets at, above and beside the path, both modes and subpath settings, clients and paths, served directly and through the router; non-trivial: at least one rule",
     "model-based property testing (rapid) against an independent decision function",
     "Every generated request is decided as the reference says; sampling.")
prop("G05", [unit("guardp", "TestG05"), unit("guardp", "TestG05Concurrent", race=True, shards=4)],
     "random user tables and Authorization headers (right, slightly wrong, malformed, empty), with credentials at other places as well, sequential and concurrent; non-trivial: at least one user or an authentication function",
     "model-based property testing (rapid) against an independent decoder, plus the Go race detector",
     "Sampling; headers that only a lenient reading accepts may be answered either way.")
prop("S01", [unit("serverp", "TestS01")],
     "random document roots (odd names, sizes, types), configurations and request spellings, answered in process and over loopback connections, files replaced in between (also by others of the same size and time); non-trivial: a requested path names a file or directory",
     "model-based property testing (rapid): generated trees and requests against an independent resolution of paths to files",
     "Bytes, type and status of every generated request are as the reference says; sampling.",
     ["regular files and directories only, no symbolic links", "extensions in lower case"])
prop("S02", [unit("serverp", "TestS02")],
     "random worlds with secret files around and between the document roots, hostile request targets and hosts; every response is searched for the secrets; non-trivial: the target tries to leave the root or to list",
     "property testing with planted secrets (rapid): invariant over all responses to generated hostile requests",
     "No generated request disclosed a planted secret; sampling.",
     ["no symbolic links"])
prop("S03", [unit("serverp", "TestS03")],
     "random whole configurations (modes, virtual hosts, guards, custom pages readable or not) and request histories with failing upstreams and custom pages changed in between; non-trivial: a request was rejected or failed",
     "model-based property testing (rapid) of whole servers against reference routing, guard and error-page decisions",
     "Status and body of every rejected request as the reference says; sampling.")
prop("S04", [unit("serverp", "TestS04")],
     "random configurations with headers of their own, TLS settings and request histories; each response's headers compared with the reference; non-trivial: see evidence classes (kinds of response)",
     "model-based property testing (rapid) against a reference set of headers",
     "Headers of every generated response are as the reference says; sampling.",
     ["configured headers other than those that describe the body"])
prop("S05", [unit("serverp", "TestS05")],
     "random configurations with one to three virtual hosts and interleaved requests; each answer (and upstream request) is compared with that of a server that has this virtual host alone, at times in a process of its own; non-trivial: several virtual hosts used",
     "differential property testing (rapid): combined server against one server per virtual host on the same history",
     "Answers never depended on the other virtual hosts on the generated histories; sampling.")
prop("S06", [unit("serverp", "TestS06")],
     "random sets of configured paths, methods and content types, requests at, above, below and beside them; non-trivial: routing admits or answers 405 or 406",
     "model-based property testing (rapid) against an independent reading of the configuration",
     "Every generated request is admitted or refused as the reference says; sampling.",
     ["configured paths differ by more than a trailing slash; types in lower case without blanks"])
prop("S07", [unit("serverp", "TestS07")],
     "random configurations with tight limits and firewalls in all modes, histories of requests of several clients; non-trivial: see evidence classes",
     "stateful model-based property testing (rapid): firewall and limit decisions predicted over the history",
     "Every generated history is decided as the reference says; sampling.")
prop("S08", [unit("serverp", "TestS08"), unit("serverp", "TestS08", race=True, shards=4)],
     "random whole servers and batches of requests sent by 2 to 8 goroutines, with clients that go away and upstreams that fail or break off, before or after the same requests alone; each answer compared with the one a fresh server gives alone; non-trivial: at least two workers and two different requests",
     "metamorphic property testing (rapid): concurrent answers against solo answers, plus the Go race detector",
     "Schedules are sampled by the Go scheduler.")
prop("D01", [unit("serverp", "TestD01")],
     "random trees, extension lists and hostile file names, the index parsed and every link followed, directories changed or removed meanwhile; non-trivial: at least one file is listed",
     "model-based property testing (rapid) with a reference listing and round trip through the links",
     "Listing and links are complete and exact on every generated tree; sampling.",
     ["no symbolic links; distinct extensions"])
prop("P01", [unit("serverp", "TestP01"), unit("serverp", "TestP01Wire", shards=4)],
     "random proxy configurations and requests (targets in origin, absolute, opaque and odd forms, headers, bodies), against a recording network and real loopback upstreams, and repeated requests under upstreams that answer with caching, retry and redirect wishes; non-trivial: the host has a rule",
     "property testing (rapid): what the upstream saw compared with what was sent",
     "Every generated request arrives unchanged at its target and nowhere else; sampling.",
     ["targets are scheme://host", "several User-Agent headers may arrive as one (net/http)"])
prop("P02", [unit("serverp", "TestP02"), unit("serverp", "TestP02Wire", shards=4)],
     "random upstream responses (status, repeated headers, bodies, breaking off at a random byte), stubbed and over loopback with length, chunked and close framing; non-trivial: headers and a body",
     "property testing with fault injection (rapid): what the client received compared with what the upstream sent",
     "Every generated response arrives unchanged or visibly broken; sampling.",
     ["final statuses of three digits other than 101"])
prop("P03", [unit("serverp", "TestP03"), unit("serverp", "TestP03Wire", shards=4)],
     "random proxy configurations and histories with refused connections, failing and large bodies, unknown hosts and methods, headers that ask for another method or host; non-trivial: forwarded, 405 or 502",
     "model-based property testing with fault injection (rapid)",
     "Every generated history is forwarded and answered as the reference says; sampling.")
prop("M01", [unit("serverp", "TestM01"), unit("serverp", "TestM01", race=True, shards=4)],
     "random whole servers and rounds of requests by 1 to 8 goroutines, the metrics page compared with the answers received after each round; non-trivial: at least two statuses",
     "model-based property testing (rapid): page contents against a count of the answers, plus the Go race detector",
     "Counts are exact on every generated history; schedules are sampled.",
     ["the metrics path is no served path", "paths may be shown percent-escaped"])
prop("M03", [unit("serverp", "TestM03")],
     "random users, credentials, spellings of the metrics path and requests with markup in path and host; non-trivial: the page was delivered",
     "property testing (rapid): decision against a reference, page markup against that of a harmless page",
     "Every generated view was decided and inert; sampling.")
prop("M04", [unit("serverp", "TestM04"), unit("serverp", "TestM04Wire", shards=2)],
     "random histories with metrics viewers that fail or stall after a random number of bytes, other requests and views in between, also with real connections that are not read; non-trivial: a viewer stalled",
     "property testing with fault injection (rapid): liveness of other requests and exact counts afterwards",
     "A request counts as blocked after 20 observed seconds; sampling.")
prop("L01", [unit("serverp", "TestL01Logger"), unit("serverp", "TestL01")],
     "random messages at all levels to all outputs, with other loggers beside, and random servers with requests that try to forge entries, sequential and concurrent; non-trivial: some but not all messages logged, or several access lines",
     "model-based property testing (rapid): log contents against the messages and answers",
     "Log contents are exact on every generated history; sampling.")
prop("M02", [unit("procp", "TestM02Crash"), unit("procp", "TestM02Runs", server=True)],
     "random sequences of runs with periodic saves in controlled time, file size limits that break writes at a random byte, kills around saves, the file read continuously; and runs of the real program with and without active metrics, stopped by SIGTERM, SIGINT and SIGKILL; non-trivial: something was counted, or several active runs",
     "stateful property testing with fault and crash injection (rapid, synctest child processes, rlimits, kill)",
     "The file was complete and counts were continued at every moment seen; crash moments are sampled, broken writes at chosen bytes.",
     ["a crash is the end of the process, not of the operating system"])
prop("K01", [unit("procp", "TestK01Load"), unit("procp", "TestK01Instance")],
     "random subsets of all documented settings with random values, written as JSON or HCL in varying style, read back through the loader and through created servers with virtual hosts; non-trivial: at least two settings mentioned",
     "round-trip property testing (rapid): written settings against loaded settings",
     "Every generated configuration was read as written; sampling.",
     ["no ${...} in HCL strings, no control characters other than tab and newline"])
prop("K02", [unit("procp", "TestK02"), unit("procp", "TestK02Server", server=True, shards=4)],
     "random valid configurations with random omissions and bad values in random places, loaded by an unprivileged process of its own, and by the real program; non-trivial: every case (classes name the defects)",
     "model-based property testing (rapid) against an independent validity predicate, one process per case",
     "Every generated configuration was accepted or refused as the reference says; sampling.",
     ["syntax errors are limited to those that no reading of HCL or JSON accepts"])
prop("T01", [unit("procp", "TestT01", server=True), unit("procp", "TestT01Auto", server=True, shards=4)],
     "random handshake offers (versions SSL 2 to TLS 1.3, all kinds of cipher suites, raw hellos and whole clients), plaintext requests and usable, broken, missing and mismatched certificates against the real program; non-trivial: every case (classes name the certificates and outcomes)",
     "property testing and protocol fuzzing (rapid): negotiated parameters and answers against the allowed set",
     "No generated offer was accepted with less than TLS 1.2 and forward-secret authenticated ciphers; sampling.",
     ["automatic certificates only as far as they are in the certificate directory already (no network)"])
prop("T02", [unit("procp", "TestT02", server=True), unit("procp", "TestT02Long", server=True, shards=4)],
     "random sets of requests in progress (waiting, half answered, uploading, downloading; HTTP/1.1 and HTTP/2, with and without TLS) when the real program gets SIGTERM or SIGINT once or several times; non-trivial: at least one request in progress",
     "property testing with process signals (rapid) against exact expected answers and counts",
     "All requests in progress were answered, counted and the process ended in every generated case; schedules are sampled.",
     ["requests in progress take less than 30 s after the signal"])
prop("T03", [unit("procp", "TestT03", server=True)],
     "random settings of the three time limits (seconds, well apart) and groups of simultaneous slow clients of all kinds (slow headers, bodies by length or chunks, slow or steady readers, slow upstreams), in time and beyond a limit, against the real program with and without TLS; non-trivial: every case (classes name the kinds of slowness)",
     "property testing with injected delays (rapid): times and completeness of the ends of connections against the configured limits",
     "Every generated slow client was ended or served as the limits say, within 2.5 s after a limit; sampling.",
     ["limits of whole seconds from 1 to 10; HTTP/1.1; a verdict needs three failures in a row"])
prop("H01", [unit("serverp", "TestH01"), unit("procp", "TestH01Crash", server=True, shards=4)],
     "random template directories (missing, empty, with other files, own designs generated from markup and the template fields), error pages and download indexes compared with the expansion of the generated template; and starts of the real program that are killed, hit a file size limit or meet an unwritable directory, followed by a start that has to succeed; non-trivial: a template was missing or of the user's own design",
     "model-based property testing with crash and fault injection (rapid): files and pages against the generated templates",
     "Every generated template directory was completed and used as the reference says; kill moments are sampled, broken writes at chosen bytes.",
     ["templates without HTML comments and scripts"])
prop("E01", [unit("serverp", "TestE01"), unit("serverp", "TestE01Methods"), unit("serverp", "TestE01", race=True, shards=4)],
     "random programs (processes of their own) that register routes of random methods with one to four servers, with and without WebDAV; and random sets of one to three instances created by NewInstance with random core settings, routes, middleware chains and handlers that succeed, log or fail, and interleaved or concurrent requests; non-trivial: at least two different statuses, or two servers",
     "model-based property testing (rapid) against a reference router and guard chain, plus the Go race detector",
     "Every generated request to every instance is answered and logged as the reference says; sampling.",
     ["HSTS max-age is always given (NewInstance takes the core configuration as it is)", "middleware only on paths that have routes"])
prop("W01", [unit("serverp", "TestW01", server=True)],
     "random whole configurations run by the real program in the clear and with TLS before an echoing upstream, and sequences of requests sent in thirteen ways (HTTP/1.0, 1.1, 2, TLS 1.2 and 1.3, kept, pipelined, in pieces, chunked or not, absolute form, ...); non-trivial: more than three requests",
     "metamorphic and differential property testing (rapid) across protocols, with the status of rejections also predicted by the reference",
     "Every generated request was answered alike in every way it was sent; sampling.",
     ["bodies that no handler reads are short (a closed connection may drop the answer otherwise)", "headers that belong to the connection are not sent"])
prop("X01", [unit("serverp", "TestX01", server=True), unit("serverp", "TestX01Handlers")],
     "random whole configurations run by the real program, rounds of up to 25 simultaneous hostile clients (grammar-made and mutated requests, HTTP/2 frames, TLS records, noise, resets) and an upstream that answers with odd or mutated bytes, canary requests after each round; and hostile header values, hosts, targets, methods and upstream headers from large vocabularies against whole servers in process, where no handler may panic; non-trivial: every case (classes name the kinds of clients)",
     "grammar-based and mutational protocol fuzzing (rapid) with liveness, exactness and well-formedness oracles",
     "No generated traffic harmed the server; sampling.",
     ["a connection counts as kept open after 40 s with time limits of 12 s"])
prop("F01", [unit("serverp", "TestF01"), unit("serverp", "TestF01Memory"), unit("serverp", "TestF01Variety"), unit("serverp", "TestF01Idle")],
     "random whole configurations behind a loopback server with the instance's own transport, upstreams that answer oddly, slowly, incompletely or without reading, and up to 25 client connections that send all or part of 1 to 4 requests and read all or part of the answers, alone or four at once, without garbage collections; single requests repeated 300 times; and 2000 requests that all differ in one respect; non-trivial: a client went away early or sent incompletely, or a request was repeated",
     "property testing with fault injection (rapid): descriptors, goroutines and files compared with those before, heap objects across repetitions",
     "After every generated history everything taken was released within 25 s; sampling.",
     ["upstreams end their connections", "growth counts when it exceeds half an object per request in four measurements in a row"])
prop("C03", [unit("cachep", "TestC03"), unit("guardp", "TestC03Limiter")],
     "random phases of stores under one, few or up to 700000 keys by one or four goroutines with lookups in between, values held counted by weak pointers after each phase; and 320000 clients of random kinds followed by 320000 others; non-trivial: more than 1024 values",
     "stateful property testing (rapid) with an invariant over reachable values and heap size",
     "The bound held after every generated phase; sampling.",
     ["a limiter's memory is judged by heap growth above 20 bytes per new client"])
