DEPLOY = 'partial evaluation of the generator source (SSA and templates) on schematic deployments, with a rule over the parsed manifests'

prop('C04', 'Servers and clients of an address agree on where it is',
 "Every address that wiring defines has one place to bind and one place to dial that belong together, every server binds the address that leads to it, and every client is given the dial address of the server it calls, whatever the plugin. Within a process, machine or deployment every port is assigned once, is never zero, keeps the port that was asked for when it is free, and a conflict between ports that were given explicitly is an error. A generated environment file gives both sides of an address the same port and no two addresses the same one.",
 ['histories', 'inputs'], "every set of addresses, preferred and given ports, every plugin that defines a server or a client, every off-the-shelf container",
 "Tests deploy a few services whose preferred ports never collide, run out or get reassigned; the environment files are not read by any test.",
 ['blueprint/pkg/coreplugins/address', 'plugins/environment', 'plugins/grpc/wiring.go', 'plugins/http/wiring.go', 'plugins/thrift/wiring.go', 'plugins/mongodb', 'plugins/redis'],
 [('addresses', 'blueprint/pkg/coreplugins/address'), ('environment files', 'plugins/environment')],
 technique='path-sensitive dataflow over the SSA of the address operations and of every plugin that uses them; partial evaluation of the port assignment on every short list of servers, and of the environment files',
 note="Port assignment is evaluated for every list of up to three servers with ports given, preferred, clashing or absent and names that agree or differ; the environment file is evaluated for schematic sets of addresses around the port limits. The ports images listen on are a table from their documentation.")

prop('D02', 'Deployment manifests contain every container with its arguments',
 "A generated docker-compose file or Kubernetes manifest has every container of the deployment exactly once, with its image, its environment, its command and options, and the addresses it binds and dials, and is valid YAML whatever the order of declaration. Every server is told a port that nothing else in its network uses, every client is told where that server listens or gets it from the caller, and configuration without a fixed value comes from the caller under its own name. Arguments that cannot be deployed are reported.",
 ['inputs', 'configurations'], "every combination of binding, dialling, configured, optional, local and prebuilt containers, in every order",
 "The tests look at neither manifest: no deployment is started, and no test asserts on the contents of the emitted files.",
 ['plugins/dockercompose', 'plugins/kubernetes', 'plugins/dockercompose/dockergen', 'plugins/kubernetes/kubetemplate'],
 [('compose files', 'plugins/dockercompose'), ('kubernetes manifests', 'plugins/kubernetes')],
 technique=DEPLOY,
 note="Decided for schematic containers that stand for each kind of argument, in both orders of declaration and of map iteration; values with quotes, backslashes or line breaks are not covered. A Kubernetes volume that is in no manifest is a known finding.")

prop('D01', 'Every process in a container starts once with all its arguments',
 "A generated container holds every process it should, runs every build script that its processes provide, and has a run script that starts each of them exactly once, with exactly the arguments the process requires, each taken from the environment variable that the deployment sets for it. If a variable is missing, nothing is started and the script fails. A process builds the namespace generated for it and fails if that cannot be built.",
 ['inputs', 'configurations'], "every container of processes with any mix of addresses and configuration, deployed in an image or on its own",
 "No test builds an image or runs a generated script; agreement between Dockerfile, script, manifest and process is never looked at.",
 ['plugins/goproc', 'plugins/linuxcontainer', 'plugins/linux', 'plugins/dockercompose', 'runtime/plugins/golang'],
 [('processes', 'plugins/goproc'), ('run scripts and images', 'plugins/linuxcontainer')],
 technique='partial evaluation of the generator source on schematic containers, with abstract interpretation of the emitted scripts, Dockerfiles and Go sources together',
 note="Decided for schematic containers of one to three processes with up to eleven arguments. Trusts the small abstract interpreters of shell scripts and Dockerfiles, which give up (and report) on constructs they do not know.")
