HIST = "path-sensitive dataflow over SSA, following histories of calls from the constructor on with opaque values"
RTRUST = "Trusts go/ssa, the analyser's models of the standard library and the documented behaviour of imported libraries. "

prop('R01', 'A running process builds, runs and stops each node exactly once',
 "In a running process every node is built on first use by its own build function, at most once even when asked for concurrently, and everyone who asks for it gets that one instance or the error of building it. A runnable node runs exactly once for the life of the process: a failing one stops the process, stopping the process ends the context its nodes run with, and waiting for the process waits for all its nodes, however deeply nested. A node that a part of the process does not define itself comes from the enclosing part, and a process that cannot be built leaves nothing running.",
 ['histories', 'schedules', 'fault_sequences'], "every order of defining, building, getting and stopping, every outcome of a build function, every nesting",
 "The orders of gets, failures and shutdowns are unbounded; tests sample single-threaded happy paths.",
 ['runtime/plugins/golang/namespace.go'],
 [('namespace', 'runtime/plugins/golang/namespace.go')],
 technique=HIST + ', with the locks held at each step',
 note=RTRUST + "Histories have up to three nodes and two levels; interrupt signals are not modelled.")

prop('R02', 'A process takes each argument from its definition, flag or environment',
 "A value set by the program wins over the command line flag of the argument's name, which wins over the environment variable of that name. A process starts exactly when every required argument has a value, and the error otherwise names what is missing; an optional argument without a value only fails the parts that use it. Parts of a process see the arguments of the enclosing process.",
 ['inputs'], "every combination of definition, flag and environment variable, for required and optional arguments, in nested processes",
 "Tests run without flags and in one environment.",
 ['runtime/plugins/golang/namespace.go'],
 [('argument lookup', 'runtime/plugins/golang/namespace.go')],
 technique=HIST + ', with flags and environment as symbolic stores',
 note=RTRUST + "The parsing of a command line is the flag package's business.")

prop('R03', 'Runtime components are safe for concurrent requests',
 "The caches, databases, queues, loggers, pools and other objects that the services of a process share can be used by any number of requests at once: whatever they keep is read and written under one common lock or atomically. Every lock is released however an operation ends, and no operation holds one while it waits for another request, so a slow or failing operation never blocks the others for good.",
 ['schedules'], "every pair of operations on one object, every path including failures",
 "Races need particular interleavings; the tests use one goroutine.",
 ['runtime/plugins/simplecache/cache.go', 'runtime/plugins/simplenosqldb/nosqldb.go', 'runtime/plugins/clientpool/clientpool.go', 'runtime/plugins/golang/namespace.go'],
 [('in-memory backends', 'runtime/plugins/simplecache, runtime/plugins/simplenosqldb'), ('namespace', 'runtime/plugins/golang')],
 technique='lockset analysis over all paths of all exported methods of each shared runtime type',
 note=RTRUST + "Imported client types are taken to be safe for concurrent use as documented; objects used only while setting up are left out.")

prop('R04', 'A failed runtime operation is never reported as a success',
 "When a backend, a connection, an encoding or any other step of a runtime operation fails, the caller gets that failure. It is never dropped, replaced by an unrelated error, or turned into an empty answer that looks like a success.",
 ['fault_sequences'], "every call in the runtime library that can fail, on every path on which it fails",
 "Most failure paths need broken connections, malformed data or absent servers that tests do not have.",
 ['runtime/plugins/redis/cache.go', 'runtime/plugins/memcached/cache.go', 'runtime/plugins/mongodb/nosqldb.go', 'runtime/plugins/rabbitmq/queue.go', 'runtime/plugins/mysql/reldb.go'],
 [('backend clients', 'runtime/plugins')],
 technique='interprocedural path-sensitive error-flow (typestate of error values) over SSA',
 note=RTRUST + "Printing and closing on a path that already fails may drop an error.")

prop('R05', 'Every cache gives back what was stored under the key, or a miss',
 "Getting a key gives the value last stored under it and says it was there, and a key that holds nothing or was deleted is a miss, not an error; several keys at once pair each key with its own value and are refused when the lists differ in length. Incrementing adds one in a single step, starting from nothing, so that concurrent increments are never lost. A request that the cache server refuses is the caller's error, and stored values do not expire.",
 ['histories', 'fault_sequences', 'schedules'], "every cache of the runtime library, every order of its operations, every answer of a cache server",
 "The clients of cache servers are never run by a test: there is no server; the in-process cache is tested with a few values.",
 ['runtime/plugins/simplecache/cache.go', 'runtime/plugins/redis/cache.go', 'runtime/plugins/memcached/cache.go', 'runtime/core/backend/cache.go'],
 [('in-process cache', 'runtime/plugins/simplecache/cache.go'), ('cache clients', 'runtime/plugins/redis/cache.go, runtime/plugins/memcached/cache.go')],
 technique=HIST + ', the server being a model of its documented requests',
 note=RTRUST + "Histories have up to three keys with opaque values; that JSON gives back an equal value is trusted.")

prop('R06', "Runtime operations end when the caller's context does",
 "Every operation of the runtime library that is given a context works with that context or one derived from it, in everything it calls. It uses the form of a library operation that honours contexts wherever there is one, and it never waits without also waiting for the end of the caller's context.",
 ['inputs', 'schedules'], "every call and every wait in every operation that is given a context",
 "A dropped context changes nothing until a caller gives up; no test cancels one at the right moment.",
 ['runtime/plugins/mongodb/nosqldb.go', 'runtime/plugins/rabbitmq/queue.go', 'runtime/plugins/mysql/reldb.go', 'runtime/plugins/simplequeue/queue.go', 'runtime/plugins/clientpool/clientpool.go'],
 [('backend clients', 'runtime/plugins'), ('waiting operations', 'runtime/plugins/simplequeue/queue.go, runtime/plugins/clientpool/clientpool.go')],
 technique='interprocedural dataflow of context values over SSA',
 note=RTRUST + "Whether a library honours the context it is given is not decided.")

prop('R10', 'A queue hands over each pushed item once, in order, or says it did not',
 "An item is in the queue exactly once when the push is reported as done, and not at all when it is reported as failed or the caller's context ended first. A pop takes the oldest item once and gives it to the caller exactly when it says so; when the caller gives up first nothing is taken. What is pushed to an external queue is one message for the declared queue with the whole item, and a delivery is decoded for the caller and acknowledged, or its failure is the caller's error.",
 ['histories', 'schedules', 'fault_sequences'], "every order of pushes and pops, contexts that end at any point, every answer of a queue server",
 "Items are lost or doubled only when a context ends at the wrong moment or a server refuses; tests push and pop undisturbed.",
 ['runtime/plugins/simplequeue/queue.go', 'runtime/plugins/rabbitmq/queue.go'],
 [('in-process queue', 'runtime/plugins/simplequeue/queue.go'), ('queue client', 'runtime/plugins/rabbitmq/queue.go')],
 technique=HIST + ', the queue server being a model of its documented requests',
 note=RTRUST + "Delivery by the external queue is not decided, nor whether JSON gives back an equal value.")

prop('R11', 'A workload run makes and records each request once, in proportion',
 "A workload is accepted exactly when no proportion is negative and they add up to 100, the rate is positive and the duration can be read. In a run each API is called with its proportion of the requests, at times whose mean distance is one second divided by the rate, until the duration or the caller's context ends. When the run returns each request made is in the statistics exactly once, however requests and collection interleave, and the numbers and file printed tell exactly those.",
 ['inputs', 'schedules'], "every list of proportions, every interleaving of requests, collection and the end of the run",
 "Lost or doubled statistics need requests in flight at the end of a run; no test runs a workload engine.",
 ['runtime/core/workload/engine.go', 'runtime/core/workload/workload.go'],
 [('engine', 'runtime/core/workload/engine.go'), ('workload', 'runtime/core/workload/workload.go')],
 technique="exploration of goroutine interleavings over SSA with opaque values; decision tables read off path conditions; algebraic normal form of the pace",
 note=RTRUST + "Interleavings of up to two requests in flight; how well timers keep the rate is not decided.")

prop('R09', 'Operations on a document collection do exactly what they say, in order',
 "Inserting, finding, updating, replacing and deleting affect exactly the documents that match the filter, or the first of them in insertion order for the single-document forms, and the caller is told how many or whether there was one. Documents keep their ids and get one when they have none; an upsert inserts exactly when nothing matches. An operation that fails on the way leaves each document as it was or as it should become, and documents that callers hold before or after a call are never those of the collection.",
 ['inputs', 'histories', 'fault_sequences'], "every way in which the documents of a collection can match the filter of an operation, every encoding failure",
 "The tests run one fixed collection with filters whose matches are known, and no failing step.",
 ['runtime/plugins/simplenosqldb/nosqldb.go', 'runtime/core/backend/nosqldb.go'],
 [('collections', 'runtime/plugins/simplenosqldb/nosqldb.go'), ('cursors', 'runtime/plugins/simplenosqldb/nosqldb.go')],
 technique=HIST + ', compared with a reference collection',
 note=RTRUST + "Collections of up to three documents; encoding to BSON is a deep copy that may fail; duplicate ids and projections are left out.")

prop('R15', 'A filter finds a document exactly when the query means it',
 "A document is found exactly when the filter, read as a MongoDB query, says so: paths lead through documents, arrays and positions, each condition of a field holds for the value or an element of it, and comparisons are by value and kind. Logical operators combine conditions as they are named. A filter that means nothing is an error of the operation that is given it, never a match of everything or nothing.",
 ['inputs'], "every value of the leaves in the cross product of 120 filter shapes and 27 document shapes, plus malformed filters",
 "Tests sample one value of each leaf in a few shapes; a wrong answer needs a particular combination of operator, path and document.",
 ['runtime/plugins/simplenosqldb/query/filter.go', 'runtime/plugins/simplenosqldb/query/parsefilter.go'],
 [('filter evaluation', 'runtime/plugins/simplenosqldb/query/filter.go'), ('filter parsing', 'runtime/plugins/simplenosqldb/query/parsefilter.go')],
 technique='path-sensitive flow analysis over SSA with opaque leaves; the conditions of each path are compared with a reference query evaluator in three-valued logic',
 note=RTRUST + "Shapes outside the lists are not decided, nor null queries for absent fields, $size, and regular expressions themselves.")

prop('R16', 'An update makes exactly the change it describes, or fails and changes nothing',
 "The document after an update is the one that the update, read as a MongoDB update, makes of it: fields and positions are set, created, removed, increased without overflow, and array elements added or removed, and nothing else changes. An update that cannot be applied to a document is an error and leaves that document as it was, even when some of its parts could be applied. An update that means nothing is an error.",
 ['inputs', 'fault_sequences'], "every value of the leaves in the cross product of 70 update shapes and 22 document shapes, plus malformed updates",
 "Tests sample one value of each leaf in a few shapes, and no update that fails halfway.",
 ['runtime/plugins/simplenosqldb/query/update.go', 'runtime/plugins/simplenosqldb/query/parseupdate.go'],
 [('update evaluation', 'runtime/plugins/simplenosqldb/query/update.go'), ('update parsing', 'runtime/plugins/simplenosqldb/query/parseupdate.go')],
 technique='path-sensitive flow analysis over SSA with opaque leaves; the resulting document is compared with a reference update evaluator, sums by decision tables',
 note=RTRUST + "Shapes outside the lists are not decided, nor sums beyond 64 bits and operator modifiers.")

prop('R08', 'Database clients send what the caller asked and return what the server said',
 "A client of a database connects to the configured server with the configured credentials and database. Each operation is one request of the same kind with the caller's query, documents, arguments and options, and the caller gets the server's counts, documents or failure unchanged. In-process databases with the same schema are separate for each instance, and all connections of one instance see the same one.",
 ['inputs', 'histories', 'fault_sequences'], "every operation of every database client, every answer of the server",
 "There is no database server in the tests, so no client of one is ever run.",
 ['runtime/plugins/mongodb/nosqldb.go', 'runtime/plugins/mysql/reldb.go', 'runtime/plugins/sqlitereldb/reldb.go'],
 [('document database client', 'runtime/plugins/mongodb/nosqldb.go'), ('relational database clients', 'runtime/plugins/mysql/reldb.go, runtime/plugins/sqlitereldb/reldb.go')],
 technique=HIST + ', the requests of each path being compared with the operation asked for',
 note=RTRUST + "What a database server does with a request is not decided.")

prop('R12', 'A service registry gives a test the one instance it selected, built once',
 "The instance asked for is the selected one, or the first registered when nothing is selected, and selecting an unknown one is an error. It is built at most once, with the context of the first caller, and everyone who asks gets that instance, or the error of building it.",
 ['histories', 'fault_sequences'], "every order of registering and getting, every outcome of a build function, every selection",
 "Tests use one registration and one selection and builds that succeed.",
 ['runtime/core/registry/registry.go'],
 [('registry', 'runtime/core/registry/registry.go')],
 technique=HIST,
 note=RTRUST + "Parsing of the command line is the flag package's business.")

prop('R13', 'What a service logs, traces and measures reaches the configured place once',
 "Each call of a logger makes one record with the formatted message at the level of the call, where the caller's trace is one in that trace, and gives the context back usable. The default logger and the default collectors are the ones that were built. Tracers and meters send everything they record to the configured server.",
 ['inputs', 'fault_sequences'], "every operation of every logger, tracer and metric collector of the runtime library",
 "Tests neither collect telemetry nor read logs.",
 ['runtime/plugins/slogger/log.go', 'runtime/plugins/opentelemetry/log.go', 'runtime/plugins/opentelemetry/trace.go', 'runtime/plugins/opentelemetry/metric.go', 'runtime/plugins/govector/log.go', 'runtime/plugins/jaeger/trace.go', 'runtime/plugins/zipkin/trace.go', 'runtime/core/backend/log.go', 'runtime/core/backend/metric.go'],
 [('loggers', 'runtime/plugins/slogger, runtime/plugins/opentelemetry, runtime/plugins/govector'), ('tracers', 'runtime/plugins/jaeger, runtime/plugins/zipkin')],
 technique=HIST + ', the telemetry libraries being models of their documented operations',
 note=RTRUST + "The X-Trace client cannot be loaded without the network and is not decided.")

prop('R14', 'Results are copied to the caller exactly, or refused and nothing is changed',
 "A result handed to a variable of the caller becomes its value exactly when it can be represented there, element by element for lists and maps; otherwise the caller gets an error and the variable is unchanged. Lists that are handed over share no memory with what the component keeps. No combination of result and variable makes the component panic.",
 ['inputs'], "every pair of about 30 shapes of results and 23 types of variables",
 "Tests copy a few matching types; the interesting pairs are those that nearly match.",
 ['runtime/core/backend/reflect.go'],
 [('result copying', 'runtime/core/backend/reflect.go')],
 technique="path-sensitive dataflow over SSA with a model of reflection, values being opaque leaves in enumerated shapes",
 note=RTRUST + "Shapes outside the lists are not decided.")
