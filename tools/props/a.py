EXP = "expansion of the emission layer by partial evaluation, then path-sensitive dataflow over the emitted program's SSA"
TRUST = "Decides the emitted program for a schematic service; trusts go/types and go/ssa, the analyser's model of text/template and fmt, and the documented behaviour of imported libraries. "

prop('C02', 'A failed compilation step is never swallowed',
 "When any step of compiling an application fails - a wiring option cannot be applied, a node cannot be built or recorded, source cannot be parsed, a file cannot be written - the failure is reported to the caller of the compilation. It never ends as a success, as an unrelated error, or silently dropped so that a wrong or partial artifact is left behind as if it were good.",
 ['fault_sequences', 'inputs'], "every call in the compiler and its plugins that can fail, on every path on which it fails",
 "Failure paths are not reachable from the wiring the tests build: they need full disks, unparsable modules, illegal plugin combinations, in every one of several hundred call sites.",
 ['blueprint/pkg/wiring/namespace.go', 'blueprint/pkg/ir/builders.go', 'plugins/golang/gogen/workspacebuilder.go', 'plugins/goproc/ir_goproc.go'],
 [('error returns along the build recursion', 'blueprint/pkg/wiring/namespace.go'), ('wiring errors collected in the spec', 'blueprint/pkg/wiring/wiring.go'), ('artifact builders return errors', 'plugins/golang/gogen')],
 technique='interprocedural path-sensitive error-flow (typestate of every error result) over SSA',
 note="Every fallible call in the compiler is followed on all paths of its function; trusts go/ssa and the table of calls whose failure is an answer. Whether an error message is the most useful one is not decided.")

prop('G01', 'Every generated wrapper forwards calls faithfully',
 "For every service interface, a generated client-side wrapper or in-process modifier hands each call to the same method of the service it wraps, with the caller's arguments in order and a context derived from the caller's, and on success returns exactly the results that call gave. An error of the wrapped call reaches the caller, no path reports success without a successful call, and no successful call is repeated. No schedule makes the wrapper race with, block or leak a goroutine it started.",
 ['programs', 'inputs', 'schedules', 'fault_sequences'], "every wrapper generator, every method shape, every outcome of the wrapped call, every schedule of goroutines the wrapper starts",
 "No test in the suite compiles or runs generated wrapper code; the wiring tests only print the IR.",
 ['plugins/retries/codegen.go', 'plugins/timeouts/codegen.go', 'plugins/circuitbreaker/codegen.go', 'plugins/clientpool/ir.go', 'plugins/loadbalancer/codegen.go', 'plugins/opentelemetry/ir_ot_client.go', 'plugins/latency/codegen.go'],
 [('wrapper templates', 'plugins/*/codegen.go'), ('method and argument rendering', 'plugins/golang/gogen')],
 technique=EXP,
 note=TRUST + "Loops are followed to a stated bound; the schematic service covers no-argument, scalar, struct, slice, map and pointer methods.")

prop('G03', 'Remote calls arrive with the values that were sent',
 "For every service interface that an RPC plugin accepts, a call made through the generated client reaches the same method of the service behind the generated server with equal arguments, and its results come back equal, including nested structures, lists, maps, pointers and empty values. The client and the server agree on how each method is addressed, and an error of the service or of the transport is reported to the caller.",
 ['programs', 'inputs', 'fault_sequences'], "every RPC generator, every method, every supported type constructor at empty and populated values, every failing step",
 "The suite never generates or compiles RPC code: the interface compilers are not installed, and marshalling bugs need particular type combinations.",
 ['plugins/grpc/grpccodegen/clientgen.go', 'plugins/grpc/grpccodegen/servergen.go', 'plugins/grpc/grpccodegen/marshallgen.go', 'plugins/grpc/grpccodegen/protogen.go', 'plugins/thrift/thriftcodegen/clientgen.go', 'plugins/thrift/thriftcodegen/servergen.go', 'plugins/http/httpcodegen/clientgen.go', 'plugins/http/httpcodegen/servergen.go'],
 [('marshalling templates and tables', 'plugins/grpc/grpccodegen, plugins/thrift/thriftcodegen'), ('query and JSON encoding', 'plugins/http/httpcodegen')],
 technique=EXP,
 note=TRUST + "The interface compilers are replaced by the analyser's model of the Go code they produce; arguments and results are symbolic trees of a fixed shape, so deeper nesting is covered by the recursive structure of the templates only.")
