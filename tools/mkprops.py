import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("R01","Requests are dispatched to exactly the route the matching rules select",
"A request runs exactly the handler registered for its host, path, method and content type, where an exact path is preferred to the nearest registered ancestor path, and the request's own host is preferred to the default host unless only the default host has the exact path. Otherwise no handler runs and the answer is, tested in this order, 404 when neither host has the path or an ancestor, 405 when the selected path has no route for the method, 406 when the content type (parameters ignored) is not among the route's accepted types, 404 when the selected path is only an ancestor and that route does not allow fallback. A route registered again for the same host, path and method replaces the earlier one, and a trailing slash in a registered path is insignificant.",
["inputs","configurations"],"all route tables (hosts, paths, methods, content types, fallback flags, registration orders) and all requests; registered paths start with a slash, accepted types and request media types are written in lower case without blanks",
"TestRouter fires 8 requests at one table and asserts no result; the product of host preference, exact/ancestor match, fallback, method and content type is never compared with an expected answer.",
["router/route.go","router/router.go"],[("getRoute / matchRoute / contentAllowed","router/route.go"),("AddRoute, ServeHTTP","router/router.go")],["response status and the identity of the handler that ran, through the router's ServeHTTP"])

p("R02","Attached middleware always runs, once, in order, and only where attached",
"Every request that is dispatched to a route passes through all middleware attached to that route's host and path, each exactly once, first attached outermost, whether they were attached before or after the routes. Middleware of other hosts or paths (ancestors included) does not run, middleware that does not call on stops the request before everything it wraps, and a request that is rejected by routing runs no middleware at all.",
["inputs","configurations"],"all interleavings of route and middleware registrations of both middleware kinds, all subsets of stopping middleware, all requests",
"TestMiddleware prints one response with two middlewares and asserts nothing.",
["router/middleware.go","router/router.go"],[("UseMiddleware","router/middleware.go"),("middleware chain in ServeHTTP","router/router.go")],["trace of middleware and handler entries per request"])

p("R03","Handlers only see canonical paths, and spelling does not change dispatch",
"Whatever path a request carries, middleware and handlers see its canonical form: starting with a slash, without empty, '.' or '..' segments, resolved lexically and never above the root, with a trailing slash kept. Two requests whose paths have the same canonical form, or whose host differs only by a port, are answered identically, and every request is answered.",
["inputs"],"all path strings (including empty, relative, dot-segment, repeated-slash and percent-decoded ones), all host strings with and without port",
"TestCleanPath and TestStripHost assert 4 and 2 fixed strings; neither resolves a dot segment nor checks what a handler sees.",
["router/utils.go","router/router.go"],[("cleanPath, StripHostPort","router/utils.go"),("r.URL.Path rewrite in ServeHTTP","router/router.go")],["URL path observed inside middleware and handler; response of equivalent requests"])

p("R04","Routes may be added while requests are being served",
"Routes and middleware may be registered concurrently with requests: nothing crashes, hangs or races, a registration that completed before a request began is effective for it, one that began after the request was answered is not, and every answer is one that the routing rules give for some set of registrations between the two.",
["schedules","histories"],"all concurrent histories of registrations and requests",
"Every existing router test is single-threaded and registers all routes first.",
["router/router.go","router/route.go","router/middleware.go"],[("SRouter.mu","router/router.go"),("read lock in getRoute","router/route.go")],["responses with invocation/response order; race detector"])

p("C01","A cache lookup gives the newest value for the key, fresh or not at all",
"A lookup with a maximum age finds a key if and only if the key was stored, or last found by a lookup, no longer ago than that age, and then returns the value most recently stored for that key, never an older value, another key's value or an expired one. A lookup without age limit finds every stored key and reports its newest value and the time since it was last stored or found. A key keeps being found as long as fewer than 1000 stores and successful lookups of other keys came after it; beyond that it may be forgotten but is never answered wrongly.",
["histories","inputs"],"all sequential histories of stores, both kinds of lookups and passage of time, over any keys (however many share a shard) and values",
"TestCache stores 26 keys that almost never share a shard, prints the answers and asserts none; the ring never fills or wraps and no key is looked up behind eight others.",
["cache/get.go","cache/set.go","cache/find.go","cache/shard.go"],[("ring scan","cache/get.go"),("ring scan","cache/find.go"),("Set/appendKey","cache/set.go")],["results of Set, Get and Find under a controlled clock"])

p("C02","The cache is linearizable under concurrent use",
"Any number of goroutines may store and look up keys of one cache at the same time, including the very first accesses: nothing races, panics or hangs, and the answers are those of some sequential order of the operations that respects real time, so that no completed store is lost and no lookup returns a value that was overwritten before it began or that belongs to another key.",
["schedules","histories"],"all concurrent histories of stores and lookups over shared and first-used shards",
"The tests use one goroutine.",
["cache/get.go","cache/set.go","cache/find.go"],[("per-shard mutex","cache/shard.go"),("shard creation","cache/set.go")],["recorded concurrent histories; race detector"])

p("G01","The rate limit admits exactly what rate and burst allow",
"For each client the limiter behaves as a token bucket that starts with the configured burst and refills at the configured rate per minute: a request is passed on exactly when a token is available, and is otherwise answered 429 without reaching the handler. So in any period in which the client never pauses for fifteen minutes, at most burst + rate x time requests pass, and a client that stays within its allowance is never refused.",
["histories","configurations"],"all rates, bursts and arrival histories of any clients, while fewer than 1000 requests of other clients fall between two consecutive requests of a client",
"guard has no tests; refill, burst exhaustion and forgetting depend on time and on histories.",
["guard/limiter.go","cache/get.go","cache/set.go"],[("LimitHTTP","guard/limiter.go"),("limiter lookup","cache/get.go")],["passed on / 429 per request under a controlled clock"])

p("G02","Clients never consume each other's rate allowance",
"What happens to one client's requests does not depend on any other client's traffic: removing all other clients' requests from a history leaves its answers unchanged. When filtering on IP is set, a client is its IP address whatever the port and the User-Agent; otherwise it is the pair of IP address and User-Agent, and distinct pairs are distinct clients.",
["histories","inputs"],"all pairs of clients (addresses IPv4 and IPv6, any port, any User-Agent including those that make concatenations coincide) and interleavings of their requests, within the bounds of the preceding property",
"guard has no tests.",
["guard/limiter.go"],[("client key in LimitHTTP","guard/limiter.go")],["passed on / 429 per request, with and without the other clients"])

p("G03","Concurrent requests cannot exceed the burst",
"If many requests of one client arrive at the same moment, on any number of goroutines and even as the client's very first requests, exactly as many pass as the bucket held tokens and all others are answered 429; nothing races, panics or hangs.",
["schedules"],"all numbers of simultaneous requests, clients, bursts and schedules",
"guard has no tests; needs concurrency.",
["guard/limiter.go","cache/set.go"],[("get-or-create of the client's bucket","guard/limiter.go")],["count of passed requests; race detector"])

p("G04","The firewall decides by the rules that cover the path",
"A request is covered when the rule of its path, or of any ancestor directory of its path, lists the client's IP address or '*'; the root rule covers deeper paths only if subpath matching is off. When blacklisting, covered requests are answered 403 and all others are passed on; otherwise (whitelisting) covered requests are passed on and all others are answered 403. This holds alike for served content and for proxied requests, for every path, and each request is decided exactly once.",
["inputs","configurations"],"all rule sets over slash-rooted paths without trailing slash, both modes, both subpath settings, all client addresses and all request paths",
"guard has no tests.",
["guard/firewall.go"],[("BlockHTTP","guard/firewall.go"),("BlockProxy","guard/firewall.go")],["403 or handler executed, per request"])

p("G05","Only exact credentials pass basic authentication",
"A request passes exactly when it carries Basic credentials that decode to a configured user name and that user's password (or that the configured authentication function accepts). Every other request, including missing, malformed, empty or unknown credentials, is answered 401 with a Basic challenge naming the realm, and the protected handler does not run, also under concurrent use.",
["inputs","configurations","schedules"],"all user tables, all Authorization header values, with and without custom handlers, concurrently",
"guard has no tests.",
["guard/basicauth.go"],[("authenticate / simpleBasicAuthFunc","guard/basicauth.go"),("requestAuth","guard/basicauth.go")],["status, WWW-Authenticate and whether the handler ran"])

p("S01","Files are served byte for byte with the right type",
"A permitted GET whose canonical path names a regular file under the document root is answered 200 with exactly the file's current bytes and the content type belonging to its extension, else the type configured for that path, else application/octet-stream. A path ending in a slash is answered with the configured index file of that directory in the same way, a path naming a directory without slash with a redirect to the path with slash, and a path naming nothing with 404.",
["inputs","configurations","histories"],"all directory trees, file names and contents (changing over time), index names and request paths; paths ending in /index.html are excluded (net/http redirects them to their directory)",
"tuna has no tests.",
["tuna/handleserve.go","tuna/utils.go"],[("handleServe","tuna/handleserve.go"),("getMIMEType","tuna/utils.go")],["status, body and Content-Type of responses"])

p("S02","Nothing outside the document root is ever disclosed",
"Whatever the spelling of a request target, no response contains the content or the name of a file outside the document root configured for the requested host, except that host's configured error pages. A directory is never listed; the only generated listing is the download index, which lists only files with the configured extensions.",
["inputs","configurations"],"all raw request targets (dot segments, encodings, absolute forms, repeated slashes, control bytes) against serve, download and virtual-host configurations; symbolic links placed in the root by the operator are followed",
"tuna has no tests.",
["tuna/handleserve.go","tuna/handledownload.go","router/utils.go"],[("path canonicalisation before file access","router/router.go"),("os.Stat(ServeDir+path)","tuna/handleserve.go")],["response bodies searched for canary contents and names"])

p("S03","Errors reach the client with their true status",
"Every rejected or failed request (401, 403, 404, 405, 406, 429, 502) is answered with exactly that status code, never with a success or redirect code. The body is the custom page that the requested host configured for that code if that file can be read, and otherwise the built-in error page naming the code.",
["inputs","configurations"],"all kinds of rejection, all error-page configurations (present, missing, unreadable, per virtual host), all paths and methods",
"tuna has no tests.",
["tuna/handleerror.go"],[("HandleError","tuna/handleerror.go")],["status code and body of error responses"])

p("S04","Security headers are on every locally produced response",
"Every response that the server produces itself (file, index, download, error page) carries the strict default X-Frame-Options, X-Content-Type-Options, X-XSS-Protection, Referrer-Policy, Content-Security-Policy and Feature-Policy headers and the server name; on served content the headers configured for the host are added and replace the defaults. Strict-Transport-Security with the configured max-age, includeSubdomains and preload is sent on every response, proxied ones included, exactly when TLS is enabled.",
["inputs","configurations"],"all configurations of headers, HSTS and virtual hosts, all kinds of responses; the metrics page, which clears its Content-Security-Policy, is excepted",
"tuna has no tests.",
["tuna/utils.go"],[("setHeaders","tuna/utils.go")],["response headers"])

p("S05","Each virtual host is served only from its own configuration",
"With virtual hosting, a request is answered from the content, routes, headers, error pages, proxy rules, firewall and rate limit of the virtual host named by its Host header (port ignored) and of no other; a host that is not configured is answered 404. Requests to one virtual host never change what another virtual host answers.",
["inputs","configurations","histories"],"all sets of virtual hosts of all kinds (serve, download, proxy) with different settings, all hosts requested and all interleavings of requests",
"tuna has no tests.",
["tuna/routes.go","tuna/handleserve.go","tuna/handleproxy.go","tuna/handledownload.go","tuna/handleerror.go"],[("per-vhost registration","tuna/routes.go"),("vhost configuration switch","tuna/handleserve.go")],["responses compared with a single-host server of the same configuration"])

p("S06","Only configured paths, methods and content types are served",
"A server serving files admits a request exactly when the nearest configured path at or above its path lists the method (one or several, separated by semicolons) and the request's content type is one of those configured for that path, or empty if none is configured; a configured path ending in a slash covers everything beneath it, any other only itself. Other requests are answered 404, 405 or 406 by the routing rules and no content is sent.",
["inputs","configurations"],"all method and request-type tables whose paths differ by more than a trailing slash, with and without virtual hosts, all requests",
"tuna has no tests.",
["tuna/routes.go","router/route.go"],[("addRoutesFromConfig","tuna/routes.go")],["response status and body"])

p("S07","Firewall and rate limit guard every configured route",
"On a configured server, for every virtual host and every mode (files, downloads, proxy), each request that matches a route is first decided by that host's firewall if enabled and then by that host's rate limit, each exactly once. A request refused with 403 or 429 delivers no content, triggers no upstream request, and a request refused by the firewall or by routing uses up no rate allowance.",
["configurations","histories"],"all configurations of firewall and limit in all modes and virtual hosts, all request histories and clients",
"tuna has no tests.",
["tuna/routes.go","guard/firewall.go","guard/limiter.go"],[("UseMiddleware calls","tuna/routes.go")],["status of each response, upstream calls recorded by a stand-in transport"])

p("S08","Concurrent requests do not disturb each other",
"A configured server answers every request of a concurrent batch exactly as it answers the same request alone: same status, headers and body, with no data race, panic or hang, also when clients abort or upstreams fail in between.",
["schedules","inputs"],"all batches of concurrent requests of all kinds against all configurations",
"tuna has no tests; needs concurrency.",
["tuna/handleserve.go","tuna/handleproxy.go","tuna/handledownload.go","tuna/handleerror.go","tuna/metrics.go"],[("per-request configuration copy","tuna/handleserve.go"),("metrics mutex","tuna/metrics.go")],["responses of the same requests sequentially and concurrently; race detector"])

p("D01","The download index lists exactly the downloadable files and its links work",
"In download mode the root and index page list exactly the files anywhere under the root whose extension is configured, each with its size, and following a listed link returns exactly that file's bytes, marked for download rather than display, with its type. File names are shown as text whatever characters they contain, a file that is not there is answered 404, and a missing or changing directory is answered with an error status, never with a crash.",
["inputs","configurations"],"all directory trees (nested, odd names, no matching files, missing root), extension lists and paths",
"tuna has no tests.",
["tuna/handledownload.go"],[("handleDownload","tuna/handledownload.go")],["parsed index page; responses to its links"])

p("P01","Proxied requests reach the configured target unchanged",
"Each request for a proxied host is forwarded exactly once, to the target configured for that host and to no other network location whatever the request target looks like, with the same method, path, query, headers and body and with the requested host name.",
["inputs","configurations"],"all request targets (origin, absolute and odd forms), methods, headers, bodies and rule sets with targets of the form scheme://host",
"tuna has no tests.",
["tuna/handleproxy.go"],[("handleProxy","tuna/handleproxy.go"),("cloneHeader","tuna/utils.go")],["requests recorded by a stand-in transport or upstream"])

p("P02","Upstream responses are returned unchanged",
"The client receives the upstream's status code, every value of every header and the exact body, redirects and error statuses included, with only the configured proxy headers (and HSTS under TLS) set on top. An upstream response that breaks off is never presented to the client as complete, and upstream bodies are always closed.",
["inputs","configurations","fault_sequences"],"all upstream statuses, header multisets and bodies, all break-off points, all header configurations",
"tuna has no tests.",
["tuna/handleproxy.go"],[("response copy","tuna/handleproxy.go"),("copyHeader, setHeaders","tuna/utils.go")],["client side response; Close on upstream bodies"])

p("P03","Only configured hosts and methods are proxied; failures become 502",
"A proxying server forwards a request only if its host has a proxy rule and its method is configured for proxying; otherwise it answers 404 for an unknown host and 405 for another method, and contacts no upstream. If the upstream cannot be reached or the request body cannot be read, the client gets 502, and later requests are unaffected.",
["inputs","configurations","fault_sequences"],"all rule and method sets, hosts, methods and sequences of upstream failures",
"tuna has no tests.",
["tuna/handleproxy.go","tuna/routes.go"],[("proxy route registration","tuna/routes.go"),("error branches","tuna/handleproxy.go")],["statuses; upstream calls recorded by a stand-in transport"])

p("M01","Metrics count every answered request exactly once",
"While metrics are active, after any set of requests, sequential or concurrent, the total equals the number of requests answered, and the count shown for a status code and host plus canonical path equals the number of requests for it that were answered with that status. No request is lost, counted twice or counted elsewhere.",
["histories","schedules","inputs"],"all request sets of all kinds (files, redirects, conditional and range requests, errors, proxied, metrics page itself)",
"tuna has no tests.",
["tuna/metrics.go","tuna/log.go"],[("concat","tuna/metrics.go"),("LogNetwork","tuna/log.go")],["the metrics page before and after"])

p("M02","Saved metrics survive restarts and interruption at any time",
"Counters saved at a graceful stop or by the periodic save every twenty minutes are continued from by the next start, so that counts over restarts add up. At every moment the saved file holds a complete earlier or current state, so killing the process at any time neither loses earlier saved counts nor prevents the next start, and a run with inactive metrics leaves the file alone.",
["histories","crash_points","configurations"],"all sequences of runs with and without active metrics, request counts, stops by signal and kill, and all moments at which the file may be read",
"tuna has no tests; needs restarts and interruption.",
["tuna/metrics.go","tuna/serve.go"],[("metricsDaemon, flushMetrics","tuna/metrics.go"),("signal handler","tuna/serve.go")],["metrics file content at all times; metrics page after restart"])

p("M03","The metrics page is only for authenticated users and is inert",
"The metrics page is delivered only for a GET of exactly the configured path with valid credentials of a configured metrics user; anyone else gets 401 (or a routing error) and learns no metrics. Request data shown on the page is always plain text: no requested path, whatever its characters, adds markup to the page.",
["inputs","configurations"],"all user tables, credentials, paths and methods; all request paths and hosts recorded before viewing",
"tuna has no tests.",
["tuna/metrics.go","tuna/routes.go","guard/basicauth.go"],[("metrics route with BasicAuth","tuna/routes.go"),("display","tuna/metrics.go")],["status and tokenised HTML of the page"])

p("M04","A failing or slow metrics viewer never blocks the server",
"If delivering the metrics page fails at any point, or its receiver reads arbitrarily slowly, all other requests, including later views of the metrics page, are still answered and counted.",
["fault_sequences","histories"],"all write-failure and stall points while the metrics page is delivered, all metrics contents and following requests",
"tuna has no tests; needs failing writers.",
["tuna/metrics.go"],[("display under md.mu","tuna/metrics.go")],["completion and result of requests after the fault"])

p("L01","The log contains exactly what the configured level asks for",
"A message is written to the configured output exactly when its level is at most the configured log level, as one entry with its text. At network level or above, every request answered by the server leaves exactly one access line with its status, method, host and path, whatever characters the request contains; below it leaves none.",
["inputs","configurations"],"all level pairs, messages and outputs; all requests of all kinds",
"debug and tuna have no tests.",
["debug/log.go","debug/logger.go","debug/init.go","tuna/log.go"],[("Logger.Log","debug/log.go"),("LogNetwork","tuna/log.go")],["lines of the log output"])

p("K01","Configuration files mean the same in JSON and HCL, with defaults",
"A configuration written as JSON or as HCL yields exactly the settings written in it, in both syntaxes alike, and every setting it does not mention has its documented default. Directory settings are completed with a trailing slash, and each virtual host gets exactly the settings of its own file.",
["configurations","inputs"],"all configurations over the documented settings, all subsets of settings, both syntaxes",
"tuna has no tests.",
["tuna/config.go","tuna/server.go"],[("LoadConfigFromFile, NewConfig, Validate","tuna/config.go"),("NewInstanceFromConfig","tuna/server.go")],["effective configuration of the created server"])

p("K02","Invalid configurations never start a server, valid ones always do",
"A server starts from a configuration exactly when it is complete and consistent: log output, port and file directory set (the latter not the root), log level in range, TLS with certificate and key or with automatic certificates on port 443, document root and index given for anything that is served, proxy rules given for a proxy, existing and valid files for all virtual hosts without nested virtual hosting, and only known methods (WebDAV ones only if enabled). Otherwise it exits with an error before serving anything.",
["configurations"],"all configurations obtained from valid ones by any combination of omissions and bad values",
"tuna has no tests; refusal ends the process.",
["tuna/config.go","tuna/server.go","debug/logger.go","router/router.go"],[("Validate","tuna/config.go"),("NewInstanceFromConfig","tuna/server.go"),("AddRoute method check","router/router.go")],["exit status of a process that creates the server"])

p("T01","With TLS enabled only modern TLS is spoken",
"A server with TLS enabled serves requests only over TLS 1.2 or newer with forward-secret authenticated ciphers and with the configured certificate; it never completes a handshake that offers less and never answers a request in plaintext. If its certificate or key cannot be used it does not serve at all.",
["inputs","configurations","fault_sequences"],"all client offers of versions, cipher suites and plaintext requests; certificate and key present, missing or broken",
"tuna has no tests; needs a running server.",
["tuna/tls.go","tuna/serve.go"],[("httpCreateTLSConfig, httpCheckTLS","tuna/tls.go"),("Serve","tuna/serve.go")],["handshake results and answers of the running server"])

p("T02","A stop signal lets requests in progress finish",
"When the server receives SIGINT or SIGTERM while requests are in progress, each of them is still answered completely, new connections are refused, the metrics counted until then (those requests included) are saved, and the process ends.",
["histories","schedules"],"all numbers and kinds of requests in progress at the moment of the signal, both signals",
"tuna has no tests; needs signals and a running server.",
["tuna/serve.go"],[("signal goroutine, Shutdown","tuna/serve.go")],["responses of the requests in progress, connection attempts, saved metrics, process end"])
p("T03","Configured time limits are enforced, and only those",
"A client that has not sent its request header within ReadHeaderTimeout is disconnected; one whose proxied request body is not complete within ReadTimeout is answered 502 or disconnected and nothing is forwarded; one that does not take the whole response within WriteTimeout gets no more of it; an upstream that does not begin its answer within ReadHeaderTimeout gives 502. Each happens at the configured number of seconds, not noticeably earlier, with and without TLS. Requests within the limits are answered completely, and other clients are served meanwhile.",
["histories","schedules"],"all settings of the three limits, all ways of being slow on either side of them, any number of slow clients at once",
"tuna has no tests; needs a running server, slow connections and time.",
["tuna/serve.go","tuna/server.go","tuna/handleproxy.go"],[("http.Server timeouts","tuna/serve.go"),("Transport ResponseHeaderTimeout","tuna/server.go")],["when connections end, responses, what the upstream received"])

p("H01","Page templates are used as found, created complete and never damaged",
"At start error.html and download.html in FileDir/templates are created with the complete built-in design if they are missing and are otherwise left exactly as they are; no other file there is changed. A start that is interrupted at any moment, or cannot write, leaves each of them absent or complete, so that the next start succeeds and uses a complete page. The built-in error pages and the download index are these templates with the error text or the listing inserted wherever the template asks for it, escaped where it is text.",
["configurations","crash_points","inputs"],"all template directories (missing, partly present, own designs), all templates made of markup and the documented fields, all moments at which a start ends or a write fails",
"html and tuna have no tests; needs interrupted starts and generated templates.",
["tuna/templates.go","html/templatehandler.go","html/const.go","tuna/handleerror.go","tuna/handledownload.go"],[("createTemplate, loadTemplates","tuna/templates.go"),("TemplateHandler","html/templatehandler.go"),("HandleError","tuna/handleerror.go"),("download index","tuna/handledownload.go")],["files below FileDir/templates after every start; bodies of error pages and download indexes"])

p("E01","Embedded servers with routes of their own behave like configured ones",
"A program that creates servers with NewInstance and adds its own routes, middleware and guards to their routers gets them dispatched by the routing rules, and every request that routing, a guard or a handler (through HandleError) rejects is answered with its true status, the error page of the requested (virtual) host, the strict security headers (Strict-Transport-Security exactly with TLS) and exactly one access line. Nothing of the configuration files' routes and no metrics page is served, and several servers in one program do not influence one another.",
["configurations","inputs","histories"],"all core configurations, route tables and guard chains of any number of instances in one process, all requests to them, sequential and concurrent",
"tuna has no tests.",
["tuna/server.go","tuna/handleerror.go","router/router.go","guard/limiter.go","guard/firewall.go","guard/basicauth.go"],[("NewInstance","tuna/server.go"),("HandleError, LogNetwork","tuna/handleerror.go"),("ErrorHandler of guards","guard/limiter.go")],["responses through Router.ServeHTTP, log files, absence of a metrics file"])

p("W01","The protocol a request arrives by does not change its answer",
"The same request gets the same status, headers and body from the running server, and is forwarded in the same way, whether it arrives by HTTP/1.0, by HTTP/1.1 (alone, over a kept or pipelined connection, in pieces, with a target in origin or absolute form, a body of announced length or chunked, expecting 100-continue) or by HTTP/2, which is offered with TLS; in the clear or over any TLS version the server speaks. Only what belongs to the connection differs, and Strict-Transport-Security, which is present exactly with TLS. Each answered request leaves its access line.",
["inputs","configurations"],"all configurations and sequences of requests, all listed ways to send them",
"tuna has no tests; needs a running server.",
["tuna/serve.go","tuna/tls.go","tuna/handleproxy.go","router/router.go","tuna/utils.go"],[("http.Server set-up","tuna/serve.go"),("requestURI, cloneHeader","tuna/handleproxy.go")],["responses on the wire, upstream requests (echoed), log file"])

p("X01","Nothing a client or an upstream sends harms the server",
"Whatever bytes clients send (malformed, truncated or contradictory requests, HTTP/2 frames, TLS records, noise, in any split and number) and whatever bytes upstreams answer, the server neither ends nor panics nor hangs: requests of others are answered exactly as before, what is sent back in HTTP/1 is a sequence of well-formed responses, files outside the document roots stay undisclosed, and the connection ends soon after the client has finished.",
["inputs","fault_sequences"],"all byte sequences on any number of simultaneous connections, in the clear and within TLS, and all byte sequences as upstream answers",
"tuna has no tests; tests send well-formed requests.",
["router/router.go","router/utils.go","tuna/serve.go","tuna/handleproxy.go","tuna/handleserve.go","tuna/handledownload.go","tuna/metrics.go"],[("ServeHTTP, cleanPath","router/router.go"),("handlers","tuna/handleserve.go"),("handleProxy","tuna/handleproxy.go"),("http.Server limits","tuna/serve.go")],["process state, canary answers, log, bytes received by the hostile clients"])

p("F01","Requests leave nothing behind",
"However requests end (answered, rejected, broken off by the client at any byte of the request or the answer, reset, failed or broken off by the upstream at any byte), once their connections have ended the server has released everything it took for them: no file or connection stays open, no goroutine keeps running, no file is left on disk besides log and metrics, and repeating a request does not use up memory. Domain: upstreams end their connections sooner or later.",
["fault_sequences","histories","inputs"],"all histories of complete, broken-off and failing requests, all configurations",
"Leaks are not visible in any single answer; they follow from the moment at which a client or an upstream goes away.",
["tuna/handleproxy.go","tuna/handleserve.go","tuna/handledownload.go","tuna/handleerror.go","tuna/utils.go","tuna/log.go","router/router.go","guard/limiter.go"],[("handleProxy closes bodies","tuna/handleproxy.go"),("openRegular, handleServe","tuna/handleserve.go"),("handleDownload","tuna/handledownload.go")],["descriptors, goroutines, directories and heap of the process that serves"])
p("C03","Cache and rate limiting use bounded memory",
"The cache never holds on to more than 1024 values in each of its 256 shards (262144 in all, 1024 of one key): values that were overwritten or that fell out of the ring are released, as is everything when the cache is given up. Consequently, limiting the rate of ever new clients does not use ever more memory.",
["histories","schedules"],"all histories of stores and lookups by any number of goroutines, all sequences of clients",
"Tests store a handful of values; the bound shows only beyond hundreds of thousands.",
["cache/cache.go","cache/set.go","cache/get.go","cache/shard.go","guard/limiter.go"],[("appendKey ring","cache/set.go"),("LimitHTTP","guard/limiter.go")],["values reachable after a garbage collection (weak pointers), heap in use"])

json_lines="\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
import sys
sys.path.insert(0,'/opt/veriftools')
