# Properties that static analysis cannot decide here; each gives the reason.

prop('N01', 'The choice of deployment does not change what an application answers',
 "For one workflow, every wiring specification that provides all it needs gives an application that answers every history of requests in the same way, whether its services share a process, are spread over containers, or use simple or real backends.",
 ['programs', 'histories', 'schedules'], "every pair of wiring specs of one workflow, every history of concurrent requests, every placement",
 "The tests run a handful of services in one process; they compare no two deployments, and none with containers.",
 ['docs', 'plugins', 'runtime'], [('the compiler', 'blueprint/pkg/ir, plugins/golang'), ('the backends', 'runtime/plugins')],
 na_reason="Equivalence of two concurrent, distributed programs over all histories: it depends on the user's workflow code, on interleavings across processes and on external databases. The parts of it that have a static argument are separate properties (G01, G03, G05, C04, C05, C11, R05).")

prop('N02', 'Simple backends answer as the databases that they stand in for',
 "A workflow that was tested with the simple in-memory database, cache or queue gets the same answers when MongoDB, MySQL, Redis, Memcached or RabbitMQ takes its place.",
 ['inputs', 'histories'], "every history of operations of a workflow, for each backend and its stand-in",
 "The real databases are not available to the tests, which only use the simple backends.",
 ['runtime/core/backend', 'runtime/plugins'], [('backends', 'runtime/plugins')],
 na_reason="The behaviour of the real databases is in server programs that are not in this repository, so there is nothing to analyse on one side of the comparison. Against the documented semantics, the operations on both sides are decided by R05 and R08 to R10, R15 and R16.")

prop('N03', 'The workload generator offers the load that was asked for',
 "Over a run of the workload generator, the requests that are started per second come to the rate that was given, and the latencies that are reported are those that a client sees.",
 ['schedules', 'inputs'], "every rate, duration and speed of the system under test",
 "Tests do not run the generator.",
 ['runtime/core/workload'], [('the generator', 'runtime/core/workload')],
 na_reason="It is a statement about elapsed time on a real scheduler: no property of the source bounds how late a timer fires or how long a request queues. What each request contributes to the counts and files is decided by R11.")

prop('N04', 'Generated deployments build and start on real infrastructure',
 "Everything that is generated for a wiring specification that compiles is accepted by docker, docker-compose or Kubernetes, builds into images, and starts.",
 ['programs', 'configurations', 'fault_sequences'], "every wiring spec, every version of the tools, every state of registries and network",
 "Tests never build an image: it needs a docker daemon and the network.",
 ['plugins/docker', 'plugins/dockercompose', 'plugins/kubernetes', 'plugins/linuxcontainer'], [('deployers', 'plugins/dockercompose, plugins/kubernetes')],
 na_reason="Whether it is accepted is decided by programs outside this repository, base images and a package registry. That the files say what the deployment needs, in the documented formats, is decided by D01, D02 and C04; that the Go code in them type-checks, by G02.")

prop('N05', 'Tracing servers show every trace complete',
 "Every request to a traced application can be found in the tracing server as one complete trace, whatever fails or restarts meanwhile.",
 ['histories', 'fault_sequences'], "every request, crash and loss of messages on the way to the collector",
 "The tests have no tracing server and look at no span.",
 ['runtime/plugins/jaeger', 'runtime/plugins/zipkin', 'runtime/plugins/xtrace', 'runtime/plugins/opentelemetry'], [('exporters', 'runtime/plugins/jaeger, runtime/plugins/zipkin')],
 na_reason="Delivery is up to exporter libraries that batch and drop, to the network, and to the servers; the X-Trace client library is not even present. That spans are started, ended, related and handed to the exporter is decided by G08 and R13.")

prop('N06', 'Compilation ends for every wiring specification',
 "Compiling any wiring specification ends, with an application or with an error, in time that is reasonable for its size.",
 ['programs'], "every wiring spec, however large, and every workflow that it uses",
 "Tests compile small specs that are known to compile.",
 ['blueprint/pkg/wiring', 'blueprint/pkg/ir', 'plugins/golang/goparser'], [('the compiler', 'blueprint/pkg/wiring, blueprint/pkg/ir')],
 na_reason="A wiring specification is a Go program that passes functions to the compiler; whether those and their mutual calls end is undecidable, and a bound on time is not a property of the source. That cycles of services are refused and that nodes are built once is decided on concrete specs by C01, C10 and C11.")
