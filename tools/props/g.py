prop('G04', 'Retries follow the policy the wiring asked for',
 "A client with a retry policy calls the service again only after a failure and never more often than configured, and gives up with an error only when the configured attempts, backoff limit or tokens are used up or the caller's context has ended. Pauses between attempts are exactly the configured delay, or double from the configured first delay up to the configured limit, with a random part exactly when asked for. Tokens of a rate-limited or bucket policy are taken one per retry at the configured cost, come back at the configured rate or amount, and never exceed the configured capacity.",
 ['programs', 'inputs', 'fault_sequences'], "every retry option of the wiring, every method shape, every sequence of outcomes of the attempts, every state of the token account",
 "Retry classes are generated; no test compiles or runs one, and a wrong bound or delay shows only under a particular sequence of failures.",
 ['plugins/retries/codegen.go', 'plugins/retries/wiring.go', 'plugins/retries/ir_ratelimiter.go' if os.path.exists('/repo/plugins/retries/ir_ratelimiter.go') else 'plugins/retries/wiring.go'],
 [('retry templates', 'plugins/retries/codegen.go'), ('wiring options', 'plugins/retries/wiring.go')],
 technique=EXP + ', with each wiring argument traced to the value the emitted code uses',
 note=TRUST + "One value per configured parameter is followed, with loops to a stated bound; elapsed real time and the fairness of timers are trusted to the Go runtime.")

prop('G05', 'A client timeout bounds how long a caller waits',
 "A call through a client with a timeout reaches the service with a deadline exactly the configured time ahead, never later than the caller's own deadline. When that time passes, or the caller's context ends, before the service has answered, the caller gets an error at once, even when the service never returns. A call that is answered in time returns that answer, and the deadline's resources are released before the caller continues.",
 ['programs', 'inputs', 'schedules'], "every method shape, every configured duration as the emitted code uses it, every order of answer, timeout and cancellation",
 "Timeout classes are generated; no test compiles or runs one, and the failures need a slow service or a particular interleaving.",
 ['plugins/timeouts/codegen.go', 'plugins/timeouts/wiring.go', 'plugins/timeouts/ir.go'],
 [('timeout template', 'plugins/timeouts/codegen.go'), ('wiring option', 'plugins/timeouts/wiring.go')],
 technique=EXP + ', with the wiring argument traced to the deadline',
 note=TRUST + "Contexts and select are modelled as their documentation states; elapsed real time is trusted to the Go runtime.")

prop('G06', 'A circuit breaker sees every call and its true outcome',
 "Every call through a client with a circuit breaker asks the breaker first: when it refuses, the service is not called and the caller gets an error; when it agrees, the service is called and the breaker learns exactly once whether that call failed. The breaker works with the failure rate, minimum number of requests and interval given in the wiring.",
 ['programs', 'inputs', 'histories'], "every method shape, every state of the breaker, every outcome of the call",
 "Breaker classes are generated; no test compiles or runs one, and a breaker that never trips looks healthy until the service fails.",
 ['plugins/circuitbreaker/codegen.go', 'plugins/circuitbreaker/wiring.go', 'plugins/circuitbreaker/ir.go'],
 [('breaker template', 'plugins/circuitbreaker/codegen.go'), ('wiring option', 'plugins/circuitbreaker/wiring.go')],
 technique=EXP + ', typestate of the breaker protocol',
 note=TRUST + "When a breaker that is asked and told correctly trips is the library's business.")

prop('G07', 'A client pool lends each client to one request at a time',
 "A request through a client pool holds one client for the whole call and gives the same client back exactly once, whatever the call's outcome. The pool never builds more clients than configured, a client that could not be built does not use up capacity, and a request that waits for a client proceeds when one is given back or fails when its context ends. No schedule of requests loses, duplicates or races on a client.",
 ['programs', 'schedules', 'fault_sequences'], "every method shape, every outcome of building a client and of the call, every interleaving of requests",
 "Leaks and starvation need a failing constructor or a particular interleaving of many requests; the generated class is never compiled by a test.",
 ['plugins/clientpool/ir.go', 'plugins/clientpool/wiring.go', 'runtime/plugins/clientpool/pool.go' if os.path.exists('/repo/runtime/plugins/clientpool/pool.go') else 'plugins/clientpool/ir.go'],
 [('pool template', 'plugins/clientpool/ir.go'), ('pool', 'runtime/plugins/clientpool')],
 technique=EXP + ', and typestate of permits and clients over the SSA of the pool',
 note=TRUST + "Fairness among waiting requests is not decided.")

prop('G08', 'Tracing wrappers record each call once and connect it to its caller',
 "Every call through a traced client or server produces exactly one span that starts before the service is called, ends after it has answered, and carries the call's error when there is one. The server's span is a child of the client's span, or of the caller's when clients make no spans of their own, because the trace context crosses the call unchanged; a missing or malformed one never makes the call fail or crash. With vector clocks, both request and response carry the sender's clock, and the receiver merges it exactly once.",
 ['programs', 'inputs', 'fault_sequences'], "every method shape, every outcome of the call, every received trace context",
 "Tracing wrappers are generated; no test compiles or runs them, and a broken parent link or unended span changes no result.",
 ['plugins/opentelemetry/ir_ot_client.go', 'plugins/opentelemetry/ir_ot_server.go', 'plugins/govector/ir_clientwrapper.go', 'plugins/govector/ir_serverwrapper.go', 'runtime/core/backend/trace.go'],
 [('tracing templates', 'plugins/opentelemetry, plugins/govector'), ('trace context decoding', 'runtime/core/backend/trace.go')],
 technique=EXP + ', typestate of spans and dataflow of the trace context',
 note=TRUST + "Export of spans to a collector is the OpenTelemetry SDK's business.")

prop('G09', 'Injected latency, delays, failures and health checks are as configured',
 "A fixed latency delays every call by exactly the configured time before the service is reached, and a random delay by a time between nothing and the configured maximum. An injected failure hits exactly the configured percentage of calls: those return an error without reaching the service, and all others reach it. The health check answers without the service and is part of the interface offered to clients.",
 ['programs', 'inputs', 'histories'], "every method shape, every value of the random draw",
 "The injectors are generated; no test compiles or runs one, and a wrong probability is not visible in a sample.",
 ['plugins/latency/codegen.go', 'plugins/latency/wiring.go', 'plugins/faultinjector/wiring.go', 'plugins/healthchecker/codegen.go'],
 [('injector templates', 'plugins/latency, plugins/faultinjector'), ('health check template', 'plugins/healthchecker/codegen.go')],
 technique=EXP + ', with interval analysis of the random draw',
 note=TRUST + "The random source is taken to be uniform over its documented range.")

prop('G10', 'The load balancer gives every replica its turn',
 "Of any run of consecutive calls through a load balancer, as many as there are replicas, each reaches a different replica, and each call goes to exactly one. This holds however many calls were made before and for every number of replicas in the wiring.",
 ['programs', 'histories', 'schedules'], "every method, every number of earlier calls",
 "The balancer is generated; no test compiles or runs it.",
 ['plugins/loadbalancer/codegen.go', 'plugins/loadbalancer/ir_balancer.go'],
 [('balancer template', 'plugins/loadbalancer/codegen.go')],
 technique=EXP + ', following the state over consecutive calls',
 note=TRUST + "Three rounds from the initial state with the schematic number of replicas are followed; concurrent calls are covered by the lockset rule of the shared-state property.")

prop('G11', 'Generated classes are safe for concurrent requests',
 "Requests served concurrently by one instance of a generated class never race: state that requests share is protected by one lock or is atomic, and no generated class keeps such state in global variables. Locks are released on every path, and no request holds one while it waits or while it calls the wrapped service, so a slow or failing call never blocks other requests.",
 ['programs', 'schedules'], "every generated class, every pair of requests, every path including failures",
 "Generated classes are never compiled by a test, and races need concurrent requests that tests of the wiring never make.",
 ['plugins/retries/codegen.go', 'plugins/timeouts/codegen.go', 'plugins/circuitbreaker/codegen.go', 'plugins/clientpool/ir.go', 'plugins/loadbalancer/codegen.go'],
 [('wrapper templates', 'plugins/*/codegen.go')],
 technique=EXP + ', with lockset analysis',
 note=TRUST + "Imported types are taken to be safe for concurrent use as documented.")

prop('G02', 'Generated code compiles and fits together',
 "For every service interface a user writes, each generator either reports an error or emits Go code that type-checks, with valid interface descriptions where it emits them. The emitted instantiation code yields an instance, and that instance has the interface the node declares to the nodes that use it, so the next wrapper around it compiles too.",
 ['programs'], "every generator, every combination of parameter and result types, packages and names that the shapes cover",
 "The suite never compiles generated code: wiring tests only print the IR, and the interface compilers are not installed.",
 ['plugins/golang/gogen/namespacebuilder.go', 'plugins/golang/goparser/parser.go', 'plugins/golang/gogen/imports.go' if os.path.exists('/repo/plugins/golang/gogen/imports.go') else 'plugins/golang/gogen/modulebuilder.go', 'plugins/opentelemetry/ir_ot_client.go', 'plugins/govector/ir_clientwrapper.go'],
 [('templates of the plugins', 'plugins/*/codegen.go'), ('imports and type rendering', 'plugins/golang/gogen'), ('naming of arguments', 'plugins/golang/goparser/parser.go')],
 technique='expansion of the emission layer by partial evaluation for a family of service interfaces, then type-checking of the emitted program',
 note=TRUST + "The family has six interfaces; parameters named like identifiers of the templates are a recorded finding.")

prop('G12', 'Each instance runs with its own configuration',
 "When two services share an interface and are given the same kind of wrapper, server or client with different configuration - retries, delays, timeouts, addresses, rates - each one works with the values given for it in the wiring. No value given for one service ends up in code that the other shares.",
 ['programs', 'histories'], "every generator, every pair of nodes of one type for one service interface",
 "Needs two differently configured services of one interface in one process, compiled and run; the suite runs no generated code.",
 ['plugins/retries/codegen.go', 'plugins/timeouts/codegen.go', 'plugins/latency/codegen.go', 'plugins/faultinjector/delay/codegen.go' if os.path.exists('/repo/plugins/faultinjector/delay/codegen.go') else 'plugins/faultinjector/wiring.go', 'plugins/golang/gogen/namespacebuilder.go'],
 [('templates of the plugins', 'plugins/*/codegen.go'), ('once-per-class guards', 'plugins/golang/gogen/modulebuilder.go')],
 technique='non-interference of configuration with shared artifacts: the emission layer is expanded by partial evaluation for two configurations and compared',
 note=TRUST + "Eight generators violate this and are recorded as findings; configurations that differ in numbers, times and booleans are compared.")

prop('G13', 'A generated process holds every node put in it, with its own arguments',
 "A generated process builds every node that was placed in it, each exactly once and under its own name, even when a node is added more than once; a generated client library can build each of them on demand. Each node is built by the constructor of the implementation it stands for and is given its own arguments in the places meant for them: addresses, credentials, queue and database names, literals and other nodes. Everything the process needs from outside is declared, and when any node cannot be generated, generating the process fails.",
 ['programs', 'inputs', 'fault_sequences'], "every node type that is built from runtime or workflow code, every subset of what a node can provide, every point of failure",
 "Process generators have no tests; a dropped node, swapped credentials or an undeclared argument shows only when a generated process starts or talks to a real backend.",
 ['plugins/goproc/deploy.go', 'plugins/gotests/ir.go', 'plugins/golang/gogen/namespacebuilder.go', 'plugins/mysql/ir_client.go', 'plugins/rabbitmq/ir_client.go', 'plugins/workflow/ir_workflowservice.go', 'plugins/simple/ir.go'],
 [('process', 'plugins/goproc/deploy.go'), ('client library', 'plugins/gotests/ir.go'), ('namespace', 'plugins/golang/gogen/namespacebuilder.go')],
 technique='partial evaluation of the process generators over schematic nodes; the emitted namespace is parsed and matched with the constructors of the type-checked runtime',
 note=TRUST + "Node types that generate their own code belong to the other properties of generated code.")
prop('G14', 'Workflow tests are generated to run against the generated system',
 "Every service registry that the tests of a workflow declare for the type of a tested service, or for an interface that the service includes, receives a client for each such service, and no registry receives a client of anything else. The test packages are copied unchanged next to the code that registers the clients, and each module is copied once even when the workflow itself is needed as well. The result compiles, and when a service's interface cannot be found or a module cannot be copied, the generation fails.",
 ['programs', 'inputs', 'fault_sequences'], "every set of tested services, every arrangement of modules, test packages and registry variables",
 "The generator of tests is not tested; a missing registration silently leaves a test running against the local implementation instead of the deployed one.",
 ['plugins/gotests/ir.go', 'plugins/gotests/findtests.go', 'plugins/gotests/codegen/blueprint_clients.go.go', 'plugins/golang/gogen/workspacebuilder.go'],
 [('test library', 'plugins/gotests/ir.go'), ('registry variables', 'plugins/gotests/findtests.go')],
 technique='partial evaluation of the test generator over schematic workflows in both map orders; the written workspace is type-checked and its registrations are compared with the declared registries',
 note=TRUST + "Registries are recognised as documented: a variable declared with one direct call.")
