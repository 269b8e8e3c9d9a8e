KERNEL = 'path-sensitive dataflow over the SSA of every implementation, with opaque contents and a typestate of the recorded effects'

prop('C01', 'A named node is built once per namespace and recorded once',
 "Within one namespace, however often and in whichever order a name or its aliases are requested, the node is built or fetched once and every request gets that same node; the build runs in the namespace that accepts the node's type and otherwise in its ancestors. The namespace records each built node and each fetched dependency exactly once, proxies and metadata excepted, and a failed attempt is reported and not remembered. Building an application obtains every requested node, runs every deferred function in queue order, and stops at the first failure.",
 ['histories', 'inputs', 'fault_sequences'], "every order of requests, every alias, every accepting or declining namespace, every failing step",
 "The wiring tests build a handful of acyclic specs; they never fail a build half way, re-request after a failure, or mix modes of one name.",
 ['blueprint/pkg/wiring/namespace.go', 'blueprint/pkg/wiring/application.go'],
 [('per-namespace cache of nodes', 'blueprint/pkg/wiring/namespace.go'), ('deferred functions', 'blueprint/pkg/wiring/application.go')],
 technique=KERNEL,
 note="Contents of the caches and of the wiring spec are opaque, so the result holds for any history; loops over deferred functions are followed for two requested nodes that each defer one function. Trusts go/ssa and that a name's definition does not change while nodes are built.")

prop('C09', 'Workflow code is read as Go means it',
 "Every struct, interface, function and field in the packages of a workflow is read with the types that Go gives it, whatever the file, import name, or order of declarations. A service is accepted exactly if generated code can use it: its operations take a context first and return an error last, an accessible constructor makes it, and a type implements it; its remote operations are its methods without context and error. What is chosen does not depend on chance, and what cannot be represented is refused and never taken for something else.",
 ['programs'], "every workflow source program of a family that covers declarations, imports, types and near misses of services",
 "The tests of the parser read one small module; user code comes in every shape of Go, and a type read wrongly becomes generated code that does not compile or calls the wrong thing.",
 ['plugins/golang/goparser/parser.go','plugins/golang/goparser/moduleset.go','plugins/workflow/workflowspec/service.go','plugins/workflow/workflowspec/spec.go','plugins/golang/gocode/typename.go'],
 [('reading of types', 'plugins/golang/goparser/parser.go'), ('choice of interface, constructor and struct', 'plugins/workflow/workflowspec/service.go'), ('equality of types', 'plugins/golang/gocode/typename.go')],
 technique="abstract interpretation of the parser and of the service selection (SSA) over schematic modules, compared with the result of Go's own type checker on the same source",
 note="The family has about sixty modules; source outside of it is not covered. File system, go list and Go's own syntax parser are modelled. Arrays and function types are known findings.")
prop('C12', 'A wiring spec keeps what it is told and the last word wins',
 "A name in a wiring spec stands for its most recent definition or alias; a lookup follows aliases to the definition they end in, finds nothing for names without one, and always ends. Setting a property replaces its values, adding one appends to them, and reading them gives every value in order. An error that wiring records makes building the application fail.",
 ['histories', 'inputs'], "every sequence of definitions, aliases, properties and recorded errors",
 "Tests only use well-formed specs in which every name is defined once; redefinition, alias chains and cycles, and recorded errors never occur.",
 ['blueprint/pkg/wiring/wiring.go'],
 [('definitions and aliases', 'blueprint/pkg/wiring/wiring.go'), ('recorded errors', 'blueprint/pkg/wiring/wiring.go')],
 technique=KERNEL,
 note="Every operation is followed from an arbitrary spec, so sequences compose; alias resolution is followed through opaque maps and through chains of one and two aliases and a cycle. The copying of values into the caller's variable by reflection is not followed.")

prop('C03', 'Wrappers sit between every client and the service, in order',
 "Whatever sequence of client-side wrappers, server-side wrappers and addresses is applied to a service, a client of the service reaches all of its client-side wrappers in the order they were applied, then the outermost server-side node, and from there the earlier ones down to the service itself; no wrapper is bypassed. Every wrapping plugin acts on the side it is documented for, contains the next node of that chain and reports names it cannot wrap. The server side is instantiated when only clients are, and a server side that cannot be reached is an error.",
 ['histories', 'inputs'], "every sequence of wrapping options on a service, every plugin that wraps, every path of its node builders",
 "The wiring tests apply at most three wrappers in a few fixed orders and look at the printed application, so combinations and orders are mostly unseen.",
 ['blueprint/pkg/coreplugins/pointer/pointer.go', 'plugins/timeouts/wiring.go', 'plugins/grpc/wiring.go'],
 [('pointer chain', 'blueprint/pkg/coreplugins/pointer/pointer.go'), ('wrapping options', 'plugins/*/wiring.go')],
 technique='inductive path-sensitive dataflow over the pointer operations with opaque state, plus a def-use rule over every build function that wraps',
 note="Every operation is shown to keep the chain linked from an arbitrary earlier state, so any sequence does. The side a plugin acts on is a table taken from the plugins' documentation. Wrapping code in xtrace cannot be built offline and is not analysed.")

prop('C05', 'Nodes end up in the process, container or deployment they are put in',
 "Every child that a wiring spec puts into a process, container, pod, deployment or test suite, when created or later, is built inside it, whatever other wrappers its service has; its clients elsewhere do not get inside. Each such namespace holds exactly the kinds of node that belong in it, keeps every node built in it and every dependency from outside once each, and itself becomes part of the application. A service that must be unique is refused as soon as it would be built in a second namespace of its scope.",
 ['inputs', 'histories'], "any number of children, any kind of node, every path of every option that places things",
 "Tests place one or two services in one process and compare printed output for a handful of specs; containers of several processes, pods of several containers, late additions and refusals are rarely exercised.",
 ['blueprint/pkg/coreplugins/namespaceutil/namespace.go', 'blueprint/pkg/coreplugins/pointer/visibility.go', 'plugins/goproc/wiring.go', 'plugins/linuxcontainer/wiring.go'],
 [('placing children', 'blueprint/pkg/coreplugins/namespaceutil/namespace.go'), ('namespace handlers', 'plugins/*/wiring.go'), ('uniqueness', 'blueprint/pkg/coreplugins/pointer/visibility.go')],
 technique='path-sensitive dataflow from each placing option to the namespace it names, with the kinds of node each namespace accepts enumerated over all node types of the repository',
 note="Lists of children are followed for zero, one and two elements and beyond that for the first two. Which kinds of node belong in which namespace, and which parameter of an option names the children, are tables taken from the documentation.")

prop('C06', 'Compiling an application again generates the same files',
 "Compiling the same wiring spec against the same workflow code always chooses the same services, interfaces and constructors and writes the same files with the same content. Nothing that is generated, neither code nor configuration nor deployment manifests, depends on the order in which maps are iterated over, on the time, on random numbers or on the machine's state.",
 ['schedules', 'inputs'], "every order in which each map of the compiler may be iterated over",
 "The order of map iteration is random: a test that compares output passes most of the time, and existing tests only compare sorted summaries of the application.",
 ['blueprint/pkg/ir/builders.go', 'plugins/golang/gogen/imports.go', 'plugins/workflow/workflowspec/service.go', 'plugins/kubernetes/kubepod/deploy.go', 'plugins/environment/wiring.go'],
 [('grouping and building nodes', 'blueprint/pkg/ir/builders.go'), ('generated imports', 'plugins/golang/gogen/imports.go'), ('lookup of services in workflow code', 'plugins/workflow/workflowspec/service.go')],
 technique='partial evaluation of every generator under both directions of map iteration, and interprocedural order-taint dataflow from every loop over a map to generated text, kept lists and choices',
 note="Loops whose order reaches nothing but error messages, logs and debug strings are allowed. Two directions of iteration stand for all orders where generators are evaluated; elsewhere the dataflow is order-free. Package loading and go mod tidy are outside.")

prop('C07', 'A build leaves a complete workspace and nothing stale in it',
 "An application is only built into a directory that was not there, every node of it is built exactly once by the builder for its kind or by itself, and a node that nothing can build, or a step that fails, makes the build fail. Every generated or copied module has a directory of its own; the workspace lists every module once and points each of them at all the others; services bring the modules of their interface and implementation along with their versions, and clashes are errors. No generated file keeps remains of an earlier one.",
 ['programs', 'histories', 'fault_sequences'], "every history of up to three modules with clashing or distinct names, every mix of local and remote modules, every node kind and point of failure",
 "Workspace generation has no tests; clashes of names, modules split in two and rewritten files need particular applications.",
 ['plugins/golang/gogen/workspacebuilder.go', 'plugins/golang/gogen/modulebuilder.go', 'plugins/golang/helpers.go', 'plugins/workflow/workflowspec/service.go', 'blueprint/pkg/ir/builders.go', 'blueprint/pkg/blueprint/ioutil/ioutil.go'],
 [('workspaces', 'plugins/golang/gogen/workspacebuilder.go'), ('modules of services', 'plugins/golang/helpers.go'), ('building an application', 'blueprint/pkg/ir/builders.go')],
 technique='partial evaluation of the workspace builders over every short history of requests against a reference model, with the emitted module files parsed; a constant-propagation lint over every place that opens a file for writing',
 note="Three modules at a time stand for any number. The syntax of module files is that of the library the compiler uses; copying directories and running the Go tool are stand-ins that record what they were asked.")

prop('C08', 'The compile command builds exactly the spec it is asked for',
 "A program made from a list of wiring specs builds the one that its flags select, under the application's name, runs every analysis pass once and in order on the result, and generates it once into the given directory, with ports assigned from the given port unless that is turned off. A missing directory, a missing or unknown spec or an impossible port is refused before anything is built. When any step fails, nothing after it is done and the exit code says so.",
 ['inputs', 'fault_sequences'], "every value of the flags, any selected spec, every failing step",
 "No test runs the command line program; the flags, exit codes and failing steps of a real compilation are never exercised.",
 ['plugins/cmdbuilder/cmdbuilder.go'],
 [('flags', 'plugins/cmdbuilder/cmdbuilder.go'), ('order of the compilation steps', 'plugins/cmdbuilder/cmdbuilder.go')],
 technique=KERNEL,
 note="Followed for two specs and two passes and a list of flag values that includes the limits of ports; what specs, passes and generation do is opaque and can fail. Trusts the flag package to fill in what the command line says.")
prop('C10', 'Properties in a wiring spec are read exactly, or refused',
 "The value of a property becomes the value of the variable that it is read into exactly when it can be held there, element by element for several values; otherwise there is an error and the variable is unchanged. A property without a value reads as the zero value. No combination of value and variable, nil included, makes reading panic, and a list that was read shares no memory with the spec.",
 ['inputs'], "every pair of about 30 shapes of property values and 23 types of variables",
 "Plugins are only tested with properties of the types they expect; the interesting pairs are those that nearly match.",
 ['blueprint/pkg/wiring/reflect.go', 'blueprint/pkg/wiring/wiring.go'],
 [('property values', 'blueprint/pkg/wiring/wiring.go'), ('copying', 'blueprint/pkg/wiring/reflect.go')],
 technique="path-sensitive dataflow over SSA with a model of reflection, values being opaque leaves in enumerated shapes",
 note="Shapes outside the lists are not decided; reflection is modelled.")
prop('C11', 'What a wiring spec says is what is built and deployed',
 "Compiling a wiring spec generates, for every process, exactly the objects that the spec asks for, each built by the right constructor from the arguments that the spec gives, in order, and reached through exactly the modifiers that the spec adds, in order; processes, containers and pods are those of the spec. Every address that a process needs is given to it by its deployment and leads to the server meant. A spec that asks for something impossible ends in an error, never in a panic or in a different application.",
 ['programs'], "fourteen applications that together use every wiring function of the plugins except those of one, each compiled twice with maps walked in opposite orders",
 "The example applications only cover a few combinations of plugins, and tests of wiring compare printed intermediate nodes, not what the generated processes build.",
 ['plugins', 'blueprint/pkg', 'runtime/plugins'],
 [('wiring functions', 'plugins/*/wiring.go'), ('namespaces', 'blueprint/pkg/wiring'), ('processes', 'plugins/goproc'), ('deployments', 'plugins/dockercompose, plugins/kubernetes, plugins/docker')],
 technique="partial evaluation of the compiler's source on a table of wiring specs, with the constructor trees of the generated processes read back from their syntax",
 note="The table is finite: combinations of modifiers outside it are decided only modifier by modifier (G04-G10).")
