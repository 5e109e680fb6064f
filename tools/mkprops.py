import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SEQ="The existing tests serve one request at a time, each against a freshly built tree, in one order; "
p("C01","Concurrent requests are isolated from each other",
"Every request gets exactly the response, and its handlers and middlewares observe exactly the request data (host and path values, remaining path, current host/resource, implementation, shared data, custom arguments), that it would get if it were the only request ever served by the same configuration. This holds whatever other requests are in flight on the same router, host or resource, wherever their execution interleaves with this one, and whatever nested dispatches handlers make.",
["schedules","inputs","fault_sequences"],"for every set of concurrent requests, every interleaving of their execution at any point inside the library, and every reuse of recycled per-request state",
SEQ+"a leak between requests only shows when two requests overlap at one particular point or when a recycled object carries one particular leftover.",
["utils.go","router.go","responder.go","host.go","resource.go","middleware.go"],
[("per-request argument object, recycled through a pool","utils.go getArgs/putArgsInThePool"),("request passing and handling with state only in the argument object","responder.go passRequest, host.go/resource.go handleOrPassRequest")],
[("argsPool","recycled per-request state","utils.go")])
p("C02","Serving concurrently is free of data races",
"Once a tree has been configured, any number of goroutines may serve requests through the same router, hosts, resources, converted handlers and converted middlewares at the same time without the library performing any unsynchronised conflicting memory accesses.",
["schedules","inputs"],"for every interleaving of concurrent requests over every configured tree and converter",
SEQ+"the race detector is never given two overlapping requests, and a race needs both accesses to be reached by overlapping requests.",
["utils.go","router.go","responder.go","host.go","resource.go","middleware.go","requesthandler.go","template.go"],
[("no writes to shared tree state while serving","responder.go, host.go, resource.go, router.go"),("converters must keep per-request state out of closures","middleware.go Mw, requesthandler.go converters")])
p("C03","Each request gets exactly one response",
"For every request whose handlers and middlewares do not panic, the response is decided exactly once: when a handler or middleware takes the request (returns true) the library adds nothing to what it wrote, and when everything that was asked declines (returns false) or nothing matches, the library sends exactly one response of its own. This holds wherever middlewares drop, short-circuit or answer requests (including standard-library style middlewares that are converted), whatever fallback that causes, and when the client disconnects or its writes fail.",
["schedules","inputs","fault_sequences","histories"],"for every combination of middlewares and handlers dropping, declining or answering, for every history of earlier requests and every interleaving with other requests",
SEQ+"the handlers in the tests nearly always answer, so combinations of drops, short-circuits and fallbacks (and what earlier requests leave behind in a converted middleware) are not reached.",
["router.go","responder.go","host.go","resource.go","middleware.go","requesthandler.go"],
[("handled flag returned up the tree","responder.go passRequest; host.go/resource.go handleOrPassRequest"),("not-found fallback at the entry points","router.go/host.go/resource.go ServeHTTP"),("converted middlewares report whether the request was handled","middleware.go Mw")])
p("C04","Routing picks the most specific responder, falling back to subtree handlers",
"A request goes to the host whose static template equals its host name, else to the first registered host pattern that matches, else to the root resource; then, per (percent-decoded) path segment, to the static child, else to the first registered matching pattern child, else to the wildcard child, and siblings of the chosen one are not tried. If no child matches a remaining segment, or the chosen part of the tree declines the request (returns false without answering), the nearest enclosing subtree handler gets it, and without one the answer is not-found. This holds for every tree however it was built, and whatever other requests are doing or did before.",
["inputs","configurations","histories","schedules","fault_sequences"],"for every tree and registration history, every request, every pattern of declining handlers and dropping middlewares, interleaved with any other requests",
SEQ+"the test trees are a few fixed shapes with fixed requests; the space of trees, requests and declines is unbounded.",
["router.go","responder.go","host.go","resource.go","template.go","utils.go"],
[("host choice","router.go passRequest"),("static > pattern > wildcard child choice","responder.go passRequest"),("subtree fallback","host.go/resource.go handleOrPassRequest, Args.subtreeExists")],
[("Args.currentPathSegmentIdx","position in the path","utils.go"),("Args.subtreeExists","an enclosing subtree handler exists","utils.go")])
p("C05","Middlewares are never bypassed, doubled or reordered",
"Whenever a responder's method handler (or its not-allowed or default OPTIONS handler) runs, it runs inside exactly the middlewares wrapped around the router's request passer, around the request passers of the host and resources above it that the request passed through, around its own request handler and around that method's handler: each active exactly once, outer responders outside inner ones, and at one level the later-wrapped outside the earlier-wrapped. A middleware that does not call its next handler keeps everything inside it from running. This holds for middlewares wrapped one by one, at a path, over a subtree or over the whole router, however the tree is built afterwards or before, and under any interleaving of requests.",
["inputs","configurations","histories","schedules","fault_sequences"],"for every history of wrapping and registration calls, every request, every set of middlewares that drop, answer or panic",
SEQ+"they check a few wrapping calls on fixed trees, not every combination of wrapping calls, tree positions and requests.",
["responder.go","router.go","requesthandler.go","middleware.go","host.go","resource.go"],
[("Wrap* methods","responder.go, router.go, requesthandler.go"),("bulk wrapping by tree traversal","utils.go traverseAndCall, middleware.go wrapEveryHandlerOf")])
p("C06","Secure responders never handle plain HTTP requests",
"A request that did not arrive over TLS never reaches the request handler, a method handler or the configured redirect target of a responder that is configured as secure: it is answered with not-found, or, if the responder is configured to redirect insecure requests, with a permanent redirect to the same URL under https. Over TLS the same responder serves the request normally, and responders that are not secure serve plain requests. This holds for every way the configuration was set, for requests the responder gets as a subtree handler, and whatever other plain or TLS requests are in flight.",
["inputs","configurations","histories","schedules","fault_sequences"],"for every tree, configuration history, request and interleaving of plain and TLS requests",
SEQ+"they try the security flag in a few fixed configurations and never mix concurrent plain and TLS requests.",
["host.go","resource.go","config.go","responder.go"],
[("security check before handling","host.go/resource.go handleOrPassRequest"),("config flags","config.go, responder.go configure/SetConfiguration")])
p("C07","Trailing-slash and unclean-path policy",
"A responder that is neither lenient nor strict on trailing slashes answers a request for its own URL (a host: only as a subtree handler) with a wrong trailing slash by a permanent redirect, a strict one by not-found, a lenient one by handling it; a request path with empty or dot segments is routed by its cleaned form and then redirected to it unless the responder is lenient on unclean paths. Requests whose path already conforms are never redirected by this policy, and several corrections (including http to https) are combined in one redirect sent with the responder's own permanent redirect code if set, else the common one, through its own redirect handler if set, else the common one.",
["inputs","configurations","histories","schedules"],"for every tree and configuration history, every spelling of the request path, whatever requests were served before or are in flight",
SEQ+"they sample a few spellings on fixed configurations, each on state no other request has touched.",
["host.go","resource.go","utils.go","config.go"],
[("path cleaning per request","utils.go getArgs"),("policy checks and combined redirect","host.go/resource.go handleOrPassRequest")],
[("Args.cleanPath","the path had to be cleaned","utils.go")])
p("C08","Policy redirects converge and preserve the URL",
"A client that follows the permanent redirects the router issues on its own (https upgrade, trailing slash, path cleaning) gets an answer that is not such a redirect after one hop, and the redirect keeps the host, port and query of the request and every decoded path segment value, so the request reaches the same responder with the same values. This holds for escaped paths and for any mix of corrections, with other clients active at the same time.",
["inputs","configurations","histories","schedules"],"for every tree, request URL (including percent-encoded slashes and other escapes, ports and queries) and client that follows redirects",
SEQ+"they compare single Location values for simple paths and never follow them; no test combines escapes with corrections.",
["host.go","resource.go","utils.go","requesthandler.go"],
[("redirect URL construction","host.go/resource.go handleOrPassRequest, utils.go cloneRequestURL")])
p("C09","HTTP method dispatch, 405 and OPTIONS",
"When a responder is to handle a request, the handler registered last for exactly that method runs; for a method without handler the responder's not-allowed handler runs, or by default 405 is sent with an Allow header listing exactly the methods the responder has, in sorted order; OPTIONS without a handler of its own is answered 200 with that Allow header. This holds for any number of methods, registered in any order, in any grouping and letter case, through functions or implementation types, before or after wrapping, and under concurrent requests.",
["inputs","configurations","histories","schedules"],"for every history of handler registrations and every request method",
SEQ+"the tests use a few methods in a few orders; lookup and sorting depend on the number and the order of registered methods.",
["requesthandler.go","responder.go"],
[("sorted method/handler pairs with lookup","requesthandler.go _MethodHandlerPairs"),("not allowed and OPTIONS handlers","requesthandler.go handleRequest")])
p("C10","Building the tree in any order loses nothing",
"Two ways of building the same set of hosts, resources, handlers, middlewares and settings give the same serving behaviour: responders may be created through the router, through a host or resource, or built apart and registered later (children before or after parents), and when a responder without handlers meets one with the same template the one with handlers is kept together with every child resource of both. Every registered responder stays reachable by its URL and name, with its parent, host and router, and registering two responders with handlers for the same template, or clashing names, is refused.",
["histories","configurations"],"for every order and every choice of API calls that build the same tree, including merges of subtrees",
SEQ+"tests fix one order of calls per tree; the merge rules are recursive and depend on which side is registered first at every level.",
["router.go","responder.go","host.go","resource.go"],
[("merging on template collision","responder.go keepResourceOrItsChildResources/passChildResourcesTo, router.go RegisterHost/registerNewRoot"),("find-or-create of path segments","responder.go segmentResources, router.go _Responder/Resource")],
[("staticResources/patternResources/wildcardResource","children of a responder","responder.go")])
p("C11","Serving recovers from panics, aborts and bad requests",
"When a handler or middleware panics at any point, the panic value reaches the caller of the router unchanged; and after any history of panics, aborted connections, failed writes, undecodable URLs, dropped requests and unmatched hosts, every later request is served exactly as on a freshly built identical tree.",
["fault_sequences","histories","schedules","inputs"],"for every sequence of faults placed at any point of request processing, followed by any requests",
SEQ+"no test panics inside a handler, aborts a connection or serves a second request after a failed one.",
["utils.go","router.go","host.go","resource.go","responder.go","middleware.go"],
[("reset of recycled per-request state","utils.go putArgsInThePool/getArgsFromThePool"),("serving keeps no state in the tree","router.go, host.go, resource.go, responder.go")],
[("argsPool","recycled per-request state","utils.go")])
p("C12","Requests never block or starve each other",
"Every request is finished within a bounded amount of work of the library's own that depends on the tree and the request only, and a request whose handler, middleware or client connection stalls indefinitely, panics or is aborted never delays any other request.",
["schedules","fault_sequences","inputs"],"for every set of concurrent requests, any of them stalled, aborted or panicking at any point for any time",
SEQ+"nothing in them stalls, so a lock or shared resource held across a handler, or a loop that does not end on some input, goes unseen.",
["router.go","responder.go","host.go","resource.go","utils.go","requesthandler.go","template.go"],
[("no locks held and no waiting while serving","router.go, responder.go, host.go, resource.go"),("bounded loops over path segments and children","responder.go passRequest, utils.go nextPathSegment")])
p("C13","Converted net/http handlers and middlewares act per request",
"A converted http.Handler or http.HandlerFunc is called exactly once with the request's own response writer and request, can read exactly this request's arguments from its context when converted with arguments, and counts as having handled the request. A converted func(http.Handler) http.Handler middleware behaves for every request like the same middleware written natively: what follows depends only on whether it called its next handler for this request and on what that returned, and the next handler gets the writer and request the middleware passes on and this request's arguments.",
["schedules","inputs","histories","fault_sequences"],"for every chain of converted handlers and middlewares and every history and interleaving of requests through them, with middlewares that pass on, answer, decline or panic per request",
SEQ+"a converted middleware is one shared closure for all requests, but tests send one request through each.",
["middleware.go","requesthandler.go","utils.go"],
[("arguments carried in the request context","requesthandler.go HrWithArgs/FnHrWithArgs, utils.go ArgsFrom"),("result of the wrapped handler carried back","middleware.go Mw")],
[("nextHasBeenCalled","whether the wrapped handler ran","middleware.go Mw"),("Args.handled","result of the last handler","utils.go")])
p("C14","A refused registration leaves the routes as they were",
"When a registration or retrieval call is refused (it panics because of a duplicate, a clashing name, an incompatible configuration or an invalid template), every request is afterwards served exactly as before that call, every responder registered before is found as before with its parent, host and router, and the same tree can be completed by further valid calls.",
["histories","fault_sequences","configurations"],"for every refused call at any point of any registration history",
SEQ+"tests check that the call panics, on trees that are thrown away afterwards, never what the tree serves after the refusal.",
["router.go","responder.go"],
[("validation before registration","responder.go registerResourceUnder/keepResourceOrItsChildResources, router.go RegisterResource*/Resource*/Host*")])
p("C15","Serving never changes the configuration",
"Serving any requests, including failing ones, leaves every observable setting of every responder unchanged (template, configuration flags, URL, allowed methods, implementation, shared data, redirect code, children, parent), and a tree that is reconfigured between two periods of serving serves the second period exactly like a tree that was configured that way from the start.",
["histories","schedules","fault_sequences"],"for every history of serving periods and configuration changes between them",
SEQ+"no test reconfigures a tree after it has served requests or looks at the configuration after serving.",
["router.go","responder.go","host.go","resource.go","requesthandler.go"],
[("serving reads the tree only","router.go, responder.go, host.go, resource.go, requesthandler.go")])
p("C16","Arguments describe the responder that has the request",
"While a responder's handlers, or middlewares around its request passer on the way in, have the request, the arguments give the host and decoded path values of the segments matched so far on the way to that responder, the still escaped remaining path below it (starting with a slash unless the responder's template ends with one), and that responder's host, resource, implementation and shared data, also when it gets the request back as a subtree handler after children declined or did not match. Custom arguments set by any middleware or handler are visible, with the latest value, to all that run later for the same request and to no other request.",
["inputs","configurations","schedules","fault_sequences","histories"],"for every tree and request, every fallback caused by declining children, interleaved with any other requests",
SEQ+"they read the arguments in the final handler of successful routes only, never after fallbacks, in passer middlewares, or with other requests in flight.",
["utils.go","responder.go","host.go","resource.go","router.go","template.go"],
[("Args accessors","utils.go"),("current responder and position restored on fallback","responder.go passRequest, host.go/resource.go handleOrPassRequest")],
[("Args._r","current responder","utils.go"),("Args.currentPathSegmentIdx","position in the path","utils.go"),("Args.hostPathValues","collected values","utils.go")])
p("C17","Configured redirects lead where they were told to",
"A responder told to redirect its requests answers those it would handle (after security and path policy) with the given code and the given URL followed by the remaining path, and never runs its handlers; one told to redirect any request answers every request for itself or anything below it that way without calling its request passer, children or handlers. The responder's own redirect handler is used if set, else the common one, each inside its wrapping redirect middlewares in order, and every request gets the URL computed from its own remaining path.",
["inputs","configurations","histories","schedules"],"for every tree, redirect target, remaining path and interleaving of requests",
SEQ+"the redirecting closure is shared by all requests, but tests send single requests with few remaining paths.",
["requesthandler.go","responder.go","host.go","resource.go"],
[("redirector closure","requesthandler.go redirector"),("RedirectRequestTo/RedirectAnyRequestTo","responder.go")])
p("C18","Bulk settings reach every responder exactly once",
"Setting shared data or configuration, or wrapping request passers, request handlers or method handlers, for a subtree or for the whole router takes effect, for every request served afterwards, at each responder registered in that scope at that time exactly once and nowhere else: shared data only where none was set, configuration only where nothing but security and trailing slash was configured (and it never removes those two), method handlers only where they exist.",
["histories","configurations","inputs"],"for every tree shape and every order of registrations and bulk calls",
SEQ+"tests use small fixed trees, mostly looking at a few members, so an omitted level, sibling kind or host, or a double visit, can go unseen.",
["router.go","responder.go","middleware.go","utils.go"],
[("breadth-first traversal","utils.go traverseAndCall"),("bulk setters","router.go *ForAll/WrapAll*, responder.go *ForSubtree/WrapSubtree*")])
# pure functions: not applicable
p("N01","Template printing and parsing round-trip",
"Parsing the string form of any parsed template gives a template that is the same, and invalid template strings are refused with an error, never a crash other than the documented one.",
["inputs"],"for every template string","Tests list examples; the input space is unbounded.",["template.go"],[("parser and printer","template.go parse/String")])
p("N02","Template matching and applying are inverse",
"A template filled with the values it extracted from a string gives that string back, a value that does not match its pattern is refused, and matching a string that does not fit leaves the given values as they were.",
["inputs"],"for every template, string and value set","Tests list examples; the input space is unbounded.",["template.go"],[("Match and TryToApply","template.go")])
p("N03","A responder's URL routes back to it",
"The URL built from a responder with given valid values is well-formed and names that responder and those values.",
["inputs","configurations"],"for every tree and value set","Tests list examples.",["utils.go","responder.go"],[("responderURL","utils.go")])
p("N04","Template similarity is a consistent relation",
"Comparing templates is symmetric, every template is the same as itself, and templates that compare as the same match the same strings with the same values.",
["inputs"],"for every pair of templates","Tests list examples.",["template.go"],[("SimilarityWith","template.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["title"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
