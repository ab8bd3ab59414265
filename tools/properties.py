import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)
RT=["router/router.go","router/path/matcher.go","router/path/pattern.go","router/path/matching_context.go","router/path/encode.go","gofre.go"]
p("C01","A request runs a handler exactly when a registered pattern of its method matches",
 "For every set of registered routes and every request whose path has at most 19 segments, exactly one handler runs if at least one pattern registered for the request's method matches the path under the documented rules (literal segments, {name}, {name:regex}, segments with * and ?, a lone *, and ** spanning segments), and the handler that runs is one whose own pattern matches. If no pattern of that method matches, the answer is 404 and no handler runs. Methods are compared ignoring letter case and routes of other methods have no influence.",
 ["inputs","configurations"],"all route sets, methods and request paths of up to 19 segments, in both case modes",
 "The tests try a few dozen fixed pattern/path pairs, mostly one pattern at a time; matches that need backtracking across sibling branches depend on the whole route set.",
 RT,[("trie lookup with backtracking","router/path/matcher.go Match"),("segment matching","router/path/pattern.go"),("per-method tables and 404","router/router.go ServeHTTP")],
 ["handler invocation, response status"])
p("C02","The most specific matching pattern is the one selected",
 "When several patterns of a method match a request, the selected one is the most specific: at the first segment where it differs (variable names aside) from another matching pattern, if the two segments are of different kinds, its own is of the more specific kind, in the order literal, constrained variable {name:regex}, variable {name}, segment with * or ? wildcards, lone *, **. Segments of one kind with different texts, such as two wildcards, have no order among them. Behind a ** that both share the same order applies when the parts behind it have the same number of segments and no further **, and a pattern that goes on after a shared leading part ending in ** is preferred over the one that ends there.",
 ["inputs","configurations"],"all sets of overlapping patterns and all request paths matched by more than one of them",
 "The tests fix a handful of overlapping pairs; precedence is a relation over all pairs of kinds at every depth and must survive backtracking and node sharing between patterns.",
 RT,[("priority encoding","router/path/encode.go computePriority"),("ordering of siblings","router/path/matcher.go sortNodes")],["which handler ran"])
p("C03","Routing does not depend on the order in which routes are registered",
 "For every set of routes accepted in one registration order, every other registration order is accepted as well and sends every request to the same handler with the same path variable values (or to 404). Requests that were answered before or between registrations, by the routes registered until then, make no difference afterwards.",
 ["configurations","inputs"],"all route sets, all permutations of their registration, all requests",
 "The tests register each set in one order, or compare a few permutations of small fixed sets.",
 RT,[("sorting of trie nodes on insertion","router/path/matcher.go AddPattern"),("duplicate detection","router/path/matcher.go AddPattern")],["which handler ran, per permutation"])
p("C04","Path variables carry exactly the path segments they matched",
 "In the handler, and in every middleware around it, the value of each variable of the selected pattern is, byte for byte, the request path segment (after URL decoding, empty segments skipped and .. resolved) that stands in the variable's position in a match of that pattern. The value of a constrained variable satisfies its regular expression, and a name that the selected pattern does not declare gives the empty string.",
 ["inputs","configurations"],"all patterns with variables combined with **, wildcards and other routes tried before them; all request paths",
 "The tests read variables for a few paths where one route is registered; leftovers of abandoned candidates appear only when several routes share prefixes and the matcher has to backtrack.",
 RT,[("segment kinds recorded while matching","router/path/matcher.go"),("PathVar lookup","router/path/matching_context.go")],["MatchingContext.PathVar in the handler"])
p("C05","Hostile request paths are always answered and the 19 segment limit is exact",
 "Whatever bytes and length the request path has (empty or repeated slashes, .. segments that climb above the root, invalid UTF-8, wildcard and pattern characters, segments longer than 64 KiB, thousands of segments), the router answers without panicking and in bounded work. Empty segments and a trailing slash do not change the routing, a .. segment removes the segment before it and never reaches a route outside the resolved path. A path of 19 segments is routed like any other, one with 20 or more is answered 404.",
 ["inputs"],"all byte strings as request paths, of any length and depth, against rich route sets",
 "The tests use short well-formed paths; index overflow, climbing above the root and exponential matching need sizes and shapes they do not contain.",
 RT,[("URL path splitting","router/path/matching_context.go ParseURLPath"),("limit","router/path/encode.go MaxPathSegments")],["response status, handler runs, panics"])
p("C06","Invalid and duplicate patterns are refused, all other patterns are accepted",
 "Registering a malformed pattern (not starting with /, an empty segment inside, an unbalanced brace at a segment's edge, an empty variable name or constraint, an invalid regular expression, adjacent asterisks mixed with other characters, consecutive **, more than 19 segments) or one that duplicates a registered pattern of the same method up to variable names (and letter case, when matching ignores it) panics at registration time. Every other pattern is accepted, also when it overlaps or is a prefix or an extension of a registered one. A refused registration leaves the routing of the routes accepted before unchanged.",
 ["inputs","configurations","histories"],"all pattern texts and all sequences of registrations, including refused ones",
 "The tests list some invalid patterns and a few duplicate pairs; duplicates with constraints, in deep positions, or registered after refused attempts are not covered.",
 RT,[("pattern validation","router/path/pattern.go ParsePattern"),("duplicate detection","router/path/matcher.go AddPattern"),("panic at registration","router/router.go Handle")],["panic or not at registration; later routing"])
p("C07","Case-insensitive matching ignores ASCII case only where configured",
 "With case-insensitive path matching on, a request is routed exactly like the same request with any of its ASCII letters in another case, for literals, wildcard segments and regex constraints, and path variables keep the case the client sent. With it off, paths differing only in case are distinct everywhere.",
 ["inputs","configurations"],"all route sets and request paths and all re-casings of their ASCII letters, in both modes",
 "The tests check a few literals in one or the other mode.",
 RT+["gofre.go"],[("case folding of literals and wildcards","router/path/pattern.go"),("(?i) constraints","router/path/pattern.go ParsePattern")],["which handler ran, PathVar"])
p("C08","Concurrent requests do not see each other's routing data",
 "While any number of requests are served concurrently by one handler, and while the internal buffers are reused from one request to the next, each handler and middleware sees only its own request, path segments and path variables from start to end, and serving requests is free of data races.",
 ["schedules","histories"],"all interleavings of concurrent requests with different depths, patterns and outcomes (match, 404, error, panic)",
 "The tests are sequential; pooled segment buffers shared between requests leak only under overlap or after a particular history of uses.",
 ["router/router.go","router/path/matching_context.go","router/path/matcher.go"],[("pool of segment buffers","router/router.go urlPathSegmentsPool"),("read-only trie","router/path/matcher.go")],["PathVar read repeatedly inside handlers; Go race detector"])
p("C09","A cloned matching context stays valid after the request has ended",
 "A clone of the matching context taken in a handler or middleware keeps reporting the same request and the same path variable values for ever, also from other goroutines, after the original request has ended and while later requests are being served. Taking or using a clone never affects the original or another clone.",
 ["histories","schedules"],"all histories of later requests and all schedules of goroutines that keep clones",
 "The test of Clone compares the fields of one copy; nothing reuses the pooled buffer the original refers to.",
 ["router/path/matching_context.go","router/router.go"],[("deep copy","router/path/matching_context.go Clone")],["PathVar on clones, later and concurrently"])
p("C10","Middlewares run in the documented order, exactly once per request",
 "For a handler registered with any list of common middlewares (registered before it, in any number of calls) and own middlewares (the two routes of an OAuth login have a list each), each request enters the common ones in registration order, then the own ones in order, then the handler, and returns in the reverse order, each exactly once; nil middlewares are skipped. A middleware that does not call the next one prevents everything inside it from running, and its response or error is what the outer ones see. Values put in the context by a middleware reach everything inside it and nothing outside it.",
 ["configurations","histories"],"all lists of common and own middlewares, with nils, short circuits, errors and replaced responses, over many handlers of one mux",
 "The tests check one or two fixed chains.",
 ["gofre.go","middleware/middleware.go"],[("chain building","gofre.go wrapMiddleware, HandleRequest"),("common middlewares","gofre.go CommonMiddlewares")],["trace of enter/leave events of each request"])
p("C11","Cloned and prefixed muxes share routes but never leak middlewares or prefixes",
 "Routes registered through a mux, its clones and its prefixed sub-muxes (nested to any depth) are all served by each of them, under the registering mux's full prefix joined to the pattern with exactly one slash. A common middleware added to one of them applies only to handlers registered later through that same mux or through muxes derived from it after the addition, never to those of its parent, siblings or previously derived muxes.",
 ["histories","configurations"],"all sequences of Clone, RouteUsingPathPrefix, CommonMiddlewares and registrations over a tree of muxes",
 "The tests check one clone and one prefix; leaks by slice aliasing depend on the number and order of previous additions.",
 ["gofre.go"],[("copy of the middleware list","gofre.go Clone, RouteUsingPathPrefix"),("prefix joining","gofre.go resolvePath")],["trace of middlewares per request; which handler ran"])
p("C12","PanicRecover turns every panic into an error and changes nothing else",
 "Whatever value a handler or inner middleware panics with (also nil, runtime errors and nested panics), the recovery middleware returns a nil response and a non-nil error, so that error middlewares outside it and the server keep working and later requests are unaffected. When there is no panic the response and the error pass through unchanged.",
 ["inputs","histories"],"all panic values, positions in the chain and results of non-panicking handlers, also concurrently",
 "The test panics with one string.",
 ["middleware/panic.go"],[("deferred recover","middleware/panic.go PanicRecover")],["response and error returned; server answer"])
p("C13","Errors are translated to the documented HTTP status and body",
 "With the error middleware, a bad-request error gives status 400, object-not-found 404, unauthorized 401, wrong-credentials and access-denied 403 and every other error 500, through whatever chain of middlewares it travels; the JSON variant answers with an application/json body holding exactly the error's message under the key error. Results without an error pass through untouched, and the custom supplier is called exactly once per error with that status and that same error. A translation of errors to statuses that the application puts in place of the package's one decides instead.",
 ["inputs","configurations"],"all error values and messages (any UTF-8 text), handlers and chains",
 "The tests check one message per error type by calling the middleware alone.",
 ["middleware/errors.go","errors/errors.go"],[("mapping","middleware/errors.go Error2HttpStatusCode"),("JSON body","middleware/errors.go ErrJsonResponse")],["status and body received by a client"])
p("C14","An error nobody handles gives a bare 500 and is logged exactly once",
 "If an error reaches the router, the client gets status 500 without any detail of the error and without headers or cookies of a half-made response, and the configured log function is called exactly once with an error that wraps the original. If writing a response fails, the error is logged exactly once; a successful request and a 404 log nothing.",
 ["inputs","fault_sequences","histories"],"all handlers, error values and failing response writers, over histories of requests, sequential and concurrent",
 "The tests never inject failing writers and check the log call for one error.",
 ["router/router.go","gofre.go","response/response.go"],[("error path","router/router.go ServeHTTP")],["calls of the log function; raw response"])
RS=["response/headers.go","response/json.go","response/text.go","response/raw.go","response/streaming.go","response/template.go","response/redirect.go"]
p("C15","The client receives exactly the response the handler built",
 "For every kind of response (headers only, text, HTML, JSON, JSON error, raw, stream, template, redirect), the client receives over HTTP/1.1 and HTTP/2 the status, every custom header and cookie, the content type and the exact bytes of the body that were put into it; HEAD answers have no body. A JSON body decodes to the payload, and a payload that cannot be encoded or an impossible status code yields a 500 answer and an error instead of a broken success.",
 ["inputs","configurations"],"all payloads (any size, any bytes), status codes from 200 to 599, header and cookie sets, over both protocol versions",
 "The tests write small fixed payloads to an in-memory recorder, which accepts what a real connection does not.",
 RS,[("header and cookie writing","response/headers.go"),("payload writing","response/*.go Write")],["what a real HTTP client receives"])
p("C16","Headers and cookies of one response never show up in another",
 "Header and cookie containers are recycled between responses, yet every response carries exactly its own headers and cookies: nothing of another request, earlier or concurrent, appears in it and nothing of its own is lost, even when responses fail, are replaced, or are inspected or modified after having been written. Concurrent use through different responses is free of data races.",
 ["schedules","histories","fault_sequences"],"all interleavings and histories of responses with different header and cookie sets, including failing writes and late accesses",
 "The tests write single responses; double releases and stale references show only with reuse by another request.",
 ["response/response.go","response/headers.go","response/adaptor.go","response/redirect.go"],[("pools","response/response.go httpHeadersPool, httpCookiesPool"),("release on write","response/headers.go")],["headers and cookies received, tagged by request; Go race detector"])
p("C17","Compression is transparent to the client",
 "With the compression middleware, at every valid level, the client that decodes the body according to the Content-Encoding header gets exactly the status and bytes it would get without the middleware, for every response kind and every size including empty, for adapted standard handlers (already encoded, partial, bodiless or error answers) and for HEAD. A single range of a body is not encoded. The encoding is used only if the client listed it in Accept-Encoding (gzip preferred over deflate), the other headers are those of the uncompressed response, Content-Length never contradicts the body, and a flush by the handler delivers everything written so far.",
 ["inputs","configurations"],"all Accept-Encoding values made of gzip, deflate, identity and unknown tokens; all levels, response kinds, sizes and chunkings",
 "The tests compress one text per algorithm into a recorder.",
 ["response/compress.go","middleware/compress.go"],[("compressing writer","response/compress.go compressResponseWriter"),("negotiation","response/compress.go getCompressionAlgorithmFromHeaderValue")],["decoded body against the same handler without the middleware"])
p("C18","Server-sent events arrive complete, in order, correctly framed and promptly",
 "A client over HTTP/2 receives, as a text/event-stream answer with Cache-Control no-cache, exactly the events the generator produced, in order, each with its name, id, retry and data (line breaks inside data preserved as lines; names and ids cannot inject fields), and each event is written and flushed before the next one is taken. The generator gets the client's Last-Event-Id and a context that ends when the client leaves; over HTTP/1 the answer is 500 and the generator does not run.",
 ["inputs","schedules","histories"],"all sequences of events with any field values, consumption speeds and disconnect moments",
 "The tests write one or two fixed events into a recorder and never parse the stream.",
 ["response/sse.go"],[("framing","response/sse.go String"),("write and flush loop","response/sse.go Write")],["stream parsed by a client following the event-stream specification; flush events"])
p("C19","Permission implication follows the scope hierarchy and the access mask",
 "A permission implies another (wildcard-free) one exactly when its access includes all of the other's access bits and its scope covers the other's scope: level by level each of its levels is equal or *, the other scope is not shorter, and levels of the other scope beyond its own length are covered only when its last level is *. Implication is reflexive and transitive, and never granted across different literal levels.",
 ["inputs"],"all scopes of one to three levels with any texts and wildcards, all access masks",
 "The tests list some examples.",
 ["auth/auth.go"],[("scope walk","auth/auth.go Permission.Implies")],["result of Implies against a reference model"])
p("C20","A denied permission always wins inside a role; groups and users add up",
 "A role has a permission exactly when one of its allowed permissions implies it and no denied permission covers its scope with any of the requested access bits, whatever the order of the lists. A group has it when one of its roles has it, a user when one of the groups has it, and role membership is found through any group; the empty role, group and user have nothing.",
 ["inputs","configurations"],"all lists of allowed and denied permissions with overlapping scopes and masks, all groupings",
 "The tests check a few combinations; partial overlaps of denied access are not among them.",
 ["auth/auth.go"],[("denied before allowed","auth/auth.go Role.HasPermission"),("aggregation","auth/auth.go Group, User")],["results against a reference model"])
p("C21","Protected handlers run only for principals with the required permissions",
 "Behind the authorization middleware the handler runs, once, if and only if a security principal is in the context and it has all (or, in the any variant, at least one) of the required permissions; otherwise the handler does not run and the result is the unauthorized error, and an error of the permission or principal supplier is returned as is without running the handler. The principal supplied is the one everything inside sees, and no request ever runs with the principal of another.",
 ["inputs","configurations","schedules"],"all principals, required permission lists (also empty), suppliers, variants and concurrent requests with different principals",
 "The tests use fixed principals one at a time.",
 ["middleware/authz.go","middleware/auth.go","auth/auth.go"],[("checks","middleware/authz.go Authorize"),("context propagation","middleware/auth.go")],["handler runs, error returned, principal seen"])
p("C22","Permissions survive formatting and parsing; malformed ones are refused",
 "Every permission with a scope of at most three levels, whatever other characters the scope holds, is restored identically by parsing its text form, scope and full access mask alike. Texts without an access number, with a number that is not a 32-bit unsigned integer, or with more than three scope levels are refused with an error, never with a panic or a wrong permission.",
 ["inputs"],"all scopes and access masks; all byte strings as texts",
 "The tests parse a few texts.",
 ["auth/auth.go"],[("parsing","auth/auth.go ParsePermission, NewPermission"),("formatting","auth/auth.go Permission.String")],["result of ParsePermission against a reference"])
p("C23","Unsafe requests pass the CSRF check only with a fresh nonce, once",
 "A request with a method other than GET, HEAD, TRACE or OPTIONS reaches the handler only if it presents, in the configured header or form/query parameter, a nonce that was issued before, has not expired and has not been used; each nonce is accepted at most once even if presented by many requests at the same time, and otherwise the result is access denied and the handler does not run. Every request that reaches the handler sees in its context a new unpredictable nonce (at least 100 independent bits, not from a generator that can be seeded), registered in the cache with the configured lifetime before the handler starts; if it cannot be registered the handler does not run.",
 ["histories","schedules","fault_sequences"],"all histories of issuing, presenting, replaying and expiring nonces, in all encodings, with concurrent replays and cache failures",
 "The tests run single requests against a map; concurrent replay is not tested.",
 ["middleware/csrf.go","cache/cache.go"],[("nonce consumption","middleware/csrf.go consumeNonce"),("nonce generation","middleware/csrf.go generateNonce")],["handler runs and nonce uses over recorded histories; Go race detector"])
p("C24","OAuth logins complete only with a live state issued here, once",
 "Starting a login redirects to the requested provider's authorize address with a fresh unguessable state (at least 60 independent bits, not from a generator that can be seeded), registered in the configured cache with the configured lifetime, and the redirect address of this site's authorize endpoint (with prefixes). The authorize endpoint runs the application handler only for a known provider, no error parameter, and, when a cache is configured, a state that was issued, has not expired and has not been used, at most once also under concurrent replays, and only after the provider returned a token (and user details when requested), which the handler finds in its context; in all other cases the handler does not run and an error results.",
 ["histories","schedules","fault_sequences","configurations"],"all histories of initiations and callbacks, replays, forged or cross-provider states, provider failures, mux prefixes and configurations",
 "The tests check single callbacks with a mocked provider.",
 ["gofre.go","auth/oauth/oauth2.go","cache/cache.go"],[("flow handlers","gofre.go HandleOAUTH2WithCustomPaths"),("one-time state","gofre.go consumeOAuth2State")],["redirects, cache operations, provider calls and handler runs over recorded histories; Go race detector"])
p("C25","Provider answers are never trusted blindly",
 "Whatever the OAuth provider's endpoints answer (any status, any JSON or non-JSON body, missing, empty, null or wrongly typed fields, broken connections), the GitHub and Google providers never panic, return an error unless the answer is a success that contains a non-empty access token (respectively an identity), return exactly the token, type, scopes, expiry and identity found in a valid answer, always close the response body, and do not wait for ever for a provider that stops answering. The requests they send carry the code, credentials and token given, and the authorize URL carries the client id, redirect address, state and scopes without altering the caller's configuration. Until an application changes them, the addresses are the provider's own https endpoints and the scopes for user details are ones the provider knows; afterwards the changed addresses, scopes and client are those used.",
 ["inputs","fault_sequences"],"all provider answers and transport faults, all provider configurations",
 "The tests use a few well-formed answers.",
 ["auth/oauth/github.go","auth/oauth/google.go","auth/oauth/oauth2.go"],[("answer decoding","auth/oauth/github.go, google.go Fetch*"),("authorize URL","InitiateUrl")],["results and requests at a stub transport"])
p("C26","The in-memory cache behaves like one atomic set of unexpired keys",
 "Every concurrent history of Add, Remove and Contains on the in-memory cache is linearizable with respect to a set in which Add inserts a key (replacing its previous lifetime), Remove deletes it, and Contains is true exactly for keys present and not expired; keys added with a non-positive lifetime are never contained. Keys do not influence each other, and all operations are free of data races.",
 ["schedules","histories"],"all concurrent histories over few hot keys",
 "The tests are sequential.",
 ["cache/cache.go"],[("locking","cache/cache.go"),("expiry","cache/cache.go Contains")],["recorded call/return history; Go race detector"])
p("C27","Cross-origin access is granted exactly as the CORS policy says",
 "For every policy and request, the CORS middleware lets the response of a simple, actual or preflight cross-origin request through only if the origin, the method and (for preflight) all requested headers are allowed, ignoring case for methods and header names and never for origins, and otherwise gives access denied; malformed origins are denied, and same-origin requests and requests without Origin always pass. Allow-Origin in a granted answer is * only under the any-origin policy and else the request's origin with Vary: Origin; credentials, exposed headers, allowed methods, headers and max-age appear exactly when configured (the last three on OPTIONS only), and existing Vary values are kept.",
 ["inputs","configurations"],"all policies, methods, origins, request headers and schemes (plain and TLS)",
 "The tests cover selected rows of the decision table, mostly on the internal functions.",
 ["middleware/cors.go"],[("request classification","middleware/cors.go getRequestType"),("policy","middleware/cors.go")],["error or response headers against a reference model"])
p("C28","The security headers are exactly the configured ones",
 "For every configuration, every response leaving the security headers middleware without an error carries Strict-Transport-Security (max-age, includeSubDomains, preload as configured) if and only if enabled and the request was secure, X-Frame-Options with the configured option and address if and only if enabled, X-Content-Type-Options: nosniff and X-XSS-Protection: 1; mode=block if and only if enabled, for the first and all later requests, concurrent ones included; other headers, status and errors are unchanged.",
 ["configurations","inputs","schedules"],"all configurations, secure and plain requests, response kinds, concurrent use of one middleware",
 "The tests check some configurations on one request.",
 ["middleware/security.go"],[("header values","middleware/security.go")],["response headers; Go race detector"])
p("C29","The request dumper is accurate and changes nothing",
 "With the dumper in the chain the handler receives the same request, body included, and the client the same response as without it; errors pass through and are not logged as answers. For each successful request the logger is called exactly once, with one valid JSON text that reports that request's method, URI, host, protocol, headers, cookies and the form read so far, that response's status, headers and cookies, and when the request started and ended, also under concurrency.",
 ["inputs","schedules"],"all requests (methods, headers, bodies, cookies) and response kinds, sequential and concurrent",
 "The tests compare one dump.",
 ["middleware/dump.go"],[("dump","middleware/dump.go RequestDumper")],["logger calls, response against the same handler without the dumper"])
p("C30","Static resources are served byte-exact and never from outside the directory",
 "With resources configured, a GET for a file below the assets mapping path (and context path) returns that file's exact bytes, ranges included, and paths that name no file give 404. No request path, however encoded or climbing with .., ever returns the contents of a file outside the assets directory.",
 ["inputs","configurations"],"all request paths (encodings, dot segments, slashes), mapping and context paths, and file trees",
 "The tests request one or two existing files.",
 ["gofre.go","response/adaptor.go","handler/handler.go"],[("file server under **","gofre.go NewMuxHandler"),("adaptor","response/adaptor.go")],["bodies received, with secret-tagged files outside the directory"])
p("C31","A standard http.Handler behaves the same inside the framework",
 "A standard handler or handler function registered through the adaptors sees the same request (method, URL, headers, body, context) and produces the same status, headers, trailers and body for the client, streaming and flushing included, as when served directly by the standard server; headers and cookies set on the adapted response by middlewares are added to it.",
 ["inputs","configurations"],"all behaviours of standard handlers and all requests, over HTTP/1.1 and HTTP/2",
 "The tests adapt a trivial handler.",
 ["response/adaptor.go","handler/handler.go","router/router.go"],[("adaptor","response/adaptor.go Write")],["client-visible response against the standard server"])
p("C32","A full application serves mixed concurrent traffic as it serves it serially",
 "An application combining routing, all the middlewares and all the response kinds, sharing one handler tree, answers every request of a concurrent mixed workload, with clients that cancel and handlers that fail or panic included, exactly as it answers the same request alone, logs exactly the errors that were provoked, keeps serving and leaves nothing running afterwards, and is free of data races.",
 ["schedules","histories","fault_sequences"],"all interleavings of a mixed workload over real connections",
 "No existing test sends concurrent requests or combines more than a few parts.",
 ["gofre.go","router/router.go","response/response.go","middleware/middleware.go","auth/auth.go","cache/cache.go"],[("shared state: pools, caches, middleware closures","router/router.go, response/response.go, middleware/*.go")],["answers against the serial ones; log calls; Go race detector"])
p("C33","Settings are honoured, defaults apply elsewhere, unusable ones are refused",
 "A handler or router built from any combination of settings given and left out reports and uses the settings given and the documented default for each one left out, and so does everything cloned or prefixed from it. Every error that a handler or a response leaves goes exactly once to the log function in effect: the one given, or else the standard log. Templates that are missing or cannot be parsed make the construction fail, and those that can be parsed are rendered with escaping and the safe function.",
 ["configurations","inputs"],"all combinations of settings over all contents of the working directory",
 "The tests build a handful of configurations and never look at the default log function, at broken templates, or at several handlers with different settings at a time.",
 ["gofre.go","router/router.go","response/template.go"],[("setDefaults","gofre.go"),("NewMuxHandler, Config, ExecutableTemplate, Clone","gofre.go"),("NewRouter","router/router.go")],["reported configuration; served resources and templates; log calls and the standard log"])
p("C34","A connection a handler takes over belongs to the application alone",
 "The callback of a response that takes over the connection is called exactly once per request, whatever middlewares the request passed on its way. Where the server can give up the connection, the callback gets it without an error, every byte the client sent behind the request can be read from the buffer in order, the client receives exactly the bytes the application writes, also after the callback has returned, and the framework neither writes to the connection nor closes it nor logs an error. Where it cannot be given up (HTTP/2, a plain writer), the callback gets an error and no connection, and nothing panics.",
 ["inputs","schedules","histories"],"all conversations over connections taken over, with bytes sent ahead, earlier requests on the connection and any middlewares that leave the response alone",
 "The unit test calls Write with a fake writer; no connection is ever taken over, so bytes lost, added or sent ahead are never seen.",
 ["response/hijack.go","router/router.go","gofre.go"],[("HttpHijackConnectionResponse.Write","response/hijack.go"),("ServeHTTP after the response","router/router.go")],["bytes at both ends of the connection; calls of the callback; server and framework logs"])
p("C35","Nothing that belongs to a finished request is kept",
 "After a request has ended, well or badly (error, panic, refusal, a client that is gone), the library keeps no reference to what belonged to it: the request, its body and context values, path, headers and cookies, the payload, stream, callback or template data of its response, its error. The memory in use therefore stays bounded however many different requests one handler serves, as long as the caches given to it are bounded.",
 ["histories","inputs"],"all histories of requests with different contents, over all the middlewares and response kinds",
 "A handful of requests cannot show that memory is kept; what is kept is not visible in any answer.",
 ["router/router.go","response/response.go","router/path/matching_context.go","middleware/csrf.go","gofre.go","middleware/dump.go"],[("pools of segments, headers and cookies","router/router.go, response/response.go"),("nonces and states in use","middleware/csrf.go, gofre.go")],["finalizers of objects only one request knows; live heap after garbage collections"])
p("C36","The context of a handler lives exactly as long as its request",
 "The context that handlers, suppliers, login providers, event generators and adapted handlers receive carries the values and the deadline of the context of their request, and those middlewares before them have added, whatever else stands in between. It is not over while the request is not, the writing of the response included, and it is over, with the same cause, once the request's context is: when the client leaves, when the deadline passes or when the request has been answered.",
 ["inputs","schedules"],"all moments at which a request's context may end, over all the middlewares and response kinds",
 "The tests pass background contexts and never end one; a context that ends early or never changes no tested answer.",
 ["router/router.go","middleware/auth.go","middleware/authz.go","middleware/csrf.go","gofre.go","response/sse.go","response/adaptor.go"],[("context handed to the handler chain","router/router.go ServeHTTP"),("derived contexts","middleware/auth.go, middleware/csrf.go, gofre.go"),("generator context","response/sse.go")],["contexts noted where they are received, judged while the request runs and after it"])
import re
for d in P:
    # at most three sentences
    n=len(re.findall(r'[a-z)\}][.](?: [A-Z]|$)',d["statement"]))
    if n>3: print("too many sentences",d["id"],n)
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
