From 173ea71bbdd0188532bb319f4601f5e9edcfdc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 01/79] fix: namespaces report failures to record nodes and
 edges

Namespace get/Put dropped errors from the namespace handler, cached a nil node
for an alias that failed to resolve, and Put tested the parent the wrong way
round. The workload generator's namespace compared a process against the
generator's own name and so rejected its process; that error was masked.
---
 blueprint/pkg/wiring/namespace.go | 24 ++++++++++++++----------
 plugins/workload/wiring.go        |  4 ++--
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index d238be9..3c22c6a 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -173,11 +173,10 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	if def.Name != name {
 		namespace.Info("Resolved %s to %s", name, def.Name)
 		var node ir.IRNode
-		err := namespace.get(def.Name, addEdge, &node)
-		namespace.Seen[name] = node
-		if err != nil {
+		if err := namespace.get(def.Name, addEdge, &node); err != nil {
 			return err
 		}
+		namespace.Seen[name] = node
 		return copyResult(node, dst)
 	}
 
@@ -199,7 +198,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if _, already_added := namespace.Added[node.Name()]; !already_added {
 			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && addEdge && !def.Options.ProxyNode {
 				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
-				namespace.Handler.AddEdge(name, node)
+				if err := namespace.Handler.AddEdge(name, node); err != nil {
+					return err
+				}
 			}
 			namespace.Added[node.Name()] = true
 		}
@@ -222,7 +223,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 
 	if _, already_added := namespace.Added[node.Name()]; !already_added {
 		if !def.Options.ProxyNode {
-			namespace.Handler.AddNode(name, node)
+			if err := namespace.Handler.AddNode(name, node); err != nil {
+				return err
+			}
 		}
 		namespace.Added[node.Name()] = true
 	}
@@ -236,12 +239,14 @@ func (namespace *namespaceimpl) Put(name string, node ir.IRNode) error {
 	namespace.Seen[name] = node
 
 	if namespace.Handler.Accepts(node) {
-		namespace.Handler.AddNode(name, node)
+		if err := namespace.Handler.AddNode(name, node); err != nil {
+			return err
+		}
 		namespace.Info("%s of type %s added to namespace", name, reflect.TypeOf(node).Elem().Name())
 		return nil
 	}
 
-	if namespace.ParentNamespace != nil {
+	if namespace.ParentNamespace == nil {
 		return namespace.Error("%s of type %s does not belong in this namespace, but cannot push to parent namespace because no parent namespace exists", name, reflect.TypeOf(node).Elem().Name())
 	}
 
@@ -250,8 +255,7 @@ func (namespace *namespaceimpl) Put(name string, node ir.IRNode) error {
 	if err != nil {
 		return err
 	}
-	namespace.Handler.AddEdge(name, node)
-	return err
+	return namespace.Handler.AddEdge(name, node)
 }
 
 // Implements [Namespace]
@@ -351,5 +355,5 @@ func (namespace *namespaceimpl) Error(message string, args ...any) error {
 	} else {
 		slog.Error(fmt.Sprintf("%s %s: %s", namespace.NamespaceType, namespace.Name(), formattedMessage))
 	}
-	return blueprint.Errorf(formattedMessage)
+	return blueprint.Errorf("%s", formattedMessage)
 }
diff --git a/plugins/workload/wiring.go b/plugins/workload/wiring.go
index 6cf80a8..cb6afc5 100644
--- a/plugins/workload/wiring.go
+++ b/plugins/workload/wiring.go
@@ -158,8 +158,8 @@ func (w *wlgen) AddNode(name string, node ir.IRNode) error {
 	proc, isProcNode := node.(*goproc.Process)
 	if !isProcNode {
 		return blueprint.Errorf("Unexpected node %v = %v", name, node)
-	} else if proc.InstanceName != w.WorkloadName {
-		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.WorkloadName)
+	} else if proc.InstanceName != w.ProcName {
+		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.ProcName)
 	} else if w.ProcNode != nil {
 		return blueprint.Errorf("Unexpected duplicate workload proc %v", node)
 	} else {
-- 
2.43.0


From 53024b2e8eea82147df56a62df8d54fb0ca37ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 02/79] fix: pointer.InstantiateDst returns the instantiation
 error

---
 blueprint/pkg/coreplugins/pointer/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/coreplugins/pointer/pointer.go b/blueprint/pkg/coreplugins/pointer/pointer.go
index f5e0ec3..14a7725 100644
--- a/blueprint/pkg/coreplugins/pointer/pointer.go
+++ b/blueprint/pkg/coreplugins/pointer/pointer.go
@@ -243,7 +243,7 @@ func (ptr *PointerDef) InstantiateDst(namespace wiring.Namespace) error {
 
 	// Getting the first dst modifier should cause all of the dst side of the pointer to be instantiated
 	var dst ir.IRNode
-	if namespace.Instantiate(ptr.dstModifiers[0], &dst) != nil {
+	if err := namespace.Instantiate(ptr.dstModifiers[0], &dst); err != nil {
 		return err
 	}
 
-- 
2.43.0


From e91f3b0bb146a1ca327b75a32a3c02caae7355f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 03/79] fix: container deployers report failures to set ports
 and environment

---
 plugins/dockercompose/deploy.go      | 24 ++++++++++++++++++------
 plugins/kubernetes/kubepod/deploy.go | 16 ++++++++++++----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/plugins/dockercompose/deploy.go b/plugins/dockercompose/deploy.go
index b391404..975c3fe 100644
--- a/plugins/dockercompose/deploy.go
+++ b/plugins/dockercompose/deploy.go
@@ -172,7 +172,9 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 			switch node := arg.(type) {
 			case ir.IRConfig:
 				if !node.HasValue() {
-					d.DockerComposeFile.PassthroughEnvVar(instanceName, node.Name(), node.Optional())
+					if err := d.DockerComposeFile.PassthroughEnvVar(instanceName, node.Name(), node.Optional()); err != nil {
+						return err
+					}
 				}
 			default:
 				return blueprint.Errorf("container instance %v can only accept IRConfig nodes as arguments, but found %v of type %v", instanceName, arg, reflect.TypeOf(arg))
@@ -187,7 +189,9 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 			return err
 		}
 		for _, bind := range assigned {
-			d.DockerComposeFile.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port))
+			if err := d.DockerComposeFile.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port)); err != nil {
+				return err
+			}
 		}
 
 		// All ports need to be exposed in the docker-compose file in order to be accessible
@@ -196,14 +200,18 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 		for _, bind := range binds {
 			hostname := ir.CleanName(instanceName)
 			addresses[bind.AddressName] = fmt.Sprintf("%v:%v", hostname, bind.Port)
-			d.DockerComposeFile.ExposePort(instanceName, bind.Port)
+			if err := d.DockerComposeFile.ExposePort(instanceName, bind.Port); err != nil {
+				return err
+			}
 		}
 
 		// The default logic for the docker-compose file is for the user to set environment
 		// variables so that internal container ports are bound to external-facing ports on the
 		// host machine.  These ports are chosen by the user at runtime and set by env vars.
 		for _, bind := range binds {
-			d.DockerComposeFile.MapPortToEnvVar(instanceName, bind.Port, bind.Name())
+			if err := d.DockerComposeFile.MapPortToEnvVar(instanceName, bind.Port, bind.Name()); err != nil {
+				return err
+			}
 		}
 		address.Clear(binds)
 	}
@@ -215,9 +223,13 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 		_, dials, _ := address.Split(instanceArgs)
 		for _, dial := range dials {
 			if addr, isLocalDial := addresses[dial.AddressName]; isLocalDial {
-				d.DockerComposeFile.AddEnvVar(instanceName, dial.Name(), addr)
+				if err := d.DockerComposeFile.AddEnvVar(instanceName, dial.Name(), addr); err != nil {
+					return err
+				}
 			} else {
-				d.DockerComposeFile.PassthroughEnvVar(instanceName, dial.Name(), false)
+				if err := d.DockerComposeFile.PassthroughEnvVar(instanceName, dial.Name(), false); err != nil {
+					return err
+				}
 			}
 		}
 	}
diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index 3c7e01b..5cca940 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -213,23 +213,31 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 		// If we assigned ports for this container, then set the environment variables for them
 		for _, bind := range binds {
 			if _, isAssigned := assignedBinds[bind]; isAssigned {
-				p.F.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port))
+				if err := p.F.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port)); err != nil {
+					return err
+				}
 			}
 		}
 
 		// Expose all ports for this container
 		for _, bind := range binds {
-			p.F.ExposePort(instanceName, bind.AddressName, bind.Port)
+			if err := p.F.ExposePort(instanceName, bind.AddressName, bind.Port); err != nil {
+				return err
+			}
 		}
 
 		// If a dial is local, then it just calls localhost:port.  If it's not local
 		// then ??????????????????
 		for _, dial := range dials {
 			if addr, isLocalDial := localAddresses[dial.AddressName]; isLocalDial {
-				p.F.AddEnvVar(instanceName, dial.Name(), addr)
+				if err := p.F.AddEnvVar(instanceName, dial.Name(), addr); err != nil {
+					return err
+				}
 			} else {
 				name := linux.EnvVar(dial.Name())
-				p.F.AddConfigMapVar(instanceName, name)
+				if err := p.F.AddConfigMapVar(instanceName, name); err != nil {
+					return err
+				}
 			}
 		}
 
-- 
2.43.0


From 9637855829f9a65284d7a0f54b86fe6b304686c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 04/79] fix: golang workspace reports failure to rewrite go.mod
 files

---
 plugins/golang/gogen/workspacebuilder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 65e0678..f159e17 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -200,12 +200,16 @@ func (workspace *WorkspaceBuilderImpl) Finish() error {
 
 	// Rewrite the go.mod files to redirect to local modules
 	for moduleSubDir, moduleName := range workspace.Modules {
-		workspace.updateModfile(moduleSubDir, moduleName)
+		if err := workspace.updateModfile(moduleSubDir, moduleName); err != nil {
+			return err
+		}
 	}
 
 	// Resolve imported packages for generated modules
 	for moduleSubDir := range workspace.GeneratedModules {
-		workspace.goModTidy(moduleSubDir)
+		if err := workspace.goModTidy(moduleSubDir); err != nil {
+			slog.Warn(fmt.Sprintf("go mod tidy failed for %v: %v", moduleSubDir, err))
+		}
 	}
 
 	return nil
@@ -231,7 +235,9 @@ func (workspace *WorkspaceBuilderImpl) updateModfile(moduleSubDir string, module
 		}
 
 		// Add a replace for everything, regardless of whether the module uses it
-		modFile.AddReplace(otherModfile.Module.Mod.Path, "", "../"+otherModuleSubDir, "")
+		if err := modFile.AddReplace(otherModfile.Module.Mod.Path, "", "../"+otherModuleSubDir, ""); err != nil {
+			return err
+		}
 	}
 
 	// Format and overwrite the new modfile
-- 
2.43.0


From 9ef404eddb677bd592d34d76857b3b9dbc25e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 05/79] fix: opentelemetry wrappers report a failed dependency
 requirement

---
 plugins/opentelemetry/ir_ot_client.go | 4 +++-
 plugins/opentelemetry/ir_ot_server.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index d187921..8231e96 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -72,7 +72,9 @@ func (node *OpenTelemetryClientWrapper) AddInterfaces(builder golang.ModuleBuild
 
 // Part of code generation compilation pass; provides implementation of interfaces from GenerateInterfaces
 func (node *OpenTelemetryClientWrapper) GenerateFuncs(builder golang.ModuleBuilder) error {
-	builder.Require("go.opentelemetry.io/otel/trace", "v1.26.0")
+	if err := builder.Require("go.opentelemetry.io/otel/trace", "v1.26.0"); err != nil {
+		return err
+	}
 	wrapped_iface, err := golang.GetGoInterface(builder, node.Wrapped)
 	if err != nil {
 		return err
diff --git a/plugins/opentelemetry/ir_ot_server.go b/plugins/opentelemetry/ir_ot_server.go
index 5e5bede..1e78928 100644
--- a/plugins/opentelemetry/ir_ot_server.go
+++ b/plugins/opentelemetry/ir_ot_server.go
@@ -100,7 +100,9 @@ func (node *OpenTelemetryServerWrapper) AddInterfaces(builder golang.ModuleBuild
 
 // Part of code generation compilation pass; provides implementation of interfaces from GenerateInterfaces
 func (node *OpenTelemetryServerWrapper) GenerateFuncs(builder golang.ModuleBuilder) error {
-	builder.Require("go.opentelemetry.io/otel/trace", "v1.26.0")
+	if err := builder.Require("go.opentelemetry.io/otel/trace", "v1.26.0"); err != nil {
+		return err
+	}
 	wrapped_iface, err := golang.GetGoInterface(builder, node.Wrapped)
 	if err != nil {
 		return err
-- 
2.43.0


From 6a09b5f0d78744f71b4b9ba35c61b6d83d1fef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 06/79] fix: thrift client generation reports missing
 interfaces and has its own guard

---
 plugins/thrift/ir_thrift_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/thrift/ir_thrift_client.go b/plugins/thrift/ir_thrift_client.go
index 5a20ac2..50e3d34 100644
--- a/plugins/thrift/ir_thrift_client.go
+++ b/plugins/thrift/ir_thrift_client.go
@@ -67,10 +67,10 @@ func (node *golangThriftClient) AddInterfaces(builder golang.ModuleBuilder) erro
 func (node *golangThriftClient) GenerateFuncs(builder golang.ModuleBuilder) error {
 	iface, err := golang.GetGoInterface(builder, node)
 	if err != nil {
-		return nil
+		return err
 	}
 
-	if builder.Visited(iface.Name + ".grpc.client") {
+	if builder.Visited(iface.Name + ".thrift.client") {
 		return nil
 	}
 
-- 
2.43.0


From 7bee18e004e8d9c11329c2adfeb7927a7cb1de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 07/79] fix: goproc reports an unreadable metric print
 frequency

---
 plugins/goproc/wiring.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugins/goproc/wiring.go b/plugins/goproc/wiring.go
index e064c89..c81ef55 100644
--- a/plugins/goproc/wiring.go
+++ b/plugins/goproc/wiring.go
@@ -198,7 +198,9 @@ func defineStdoutMetricCollector(spec wiring.WiringSpec, processName string) str
 	collector := processName + ".stdoutmetriccollector"
 	spec.Define(collector, &stdoutMetricCollector{}, func(ns wiring.Namespace) (ir.IRNode, error) {
 		var printFrequency string
-		spec.GetProperty(processName, "metricPrintFrequency", &printFrequency)
+		if err := spec.GetProperty(processName, "metricPrintFrequency", &printFrequency); err != nil {
+			return nil, err
+		}
 		return newStdOutMetricCollector(collector, printFrequency)
 	})
 	return collector
-- 
2.43.0


From 779262cdfc879902c6627598a9dbbedfa5eaae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 08/79] fix: grpc marshalling keeps map entries and pointers
 and uses valid proto types

---
 plugins/grpc/grpccodegen/marshallgen.go | 84 +++++++++++++++++--------
 plugins/grpc/grpccodegen/protogen.go    | 11 ++--
 2 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 118e037..5bb4d79 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -116,22 +116,24 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 }
 
 func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error) {
+	src := obj + f.Name
+	dst := "msg." + strings.Title(f.Name)
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("%s = new(%s).marshall(&%s)", dst, t.Name, src), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("msg.%s = %s(%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("%s = %s(%s)", dst, t.Name, src), nil
 		}
 	case *gocode.Pointer:
 		{
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s = new(%s).marshall(%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = new(%s).marshall(%s) }", src, dst, pt.Name, src), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s(*%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = %s(*%s) }", src, dst, pt.Name, src), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
@@ -142,13 +144,17 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			case *gocode.UserType:
 				{
 					return fmt.Sprintf(`
-    msg.%s = make(map[%s]*%s)
-	for k, v := range %s%s {
-		msg.%s[k] = new(%s).marshall(&v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), vt.Name), nil
+    %s = make(map[%s]*%s)
+	for k, v := range %s {
+		%s[%s(k)] = new(%s).marshall(&v)
+	}`, dst, t.KeyType, vt.Name, src, dst, t.KeyType, vt.Name), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(`
+    %s = make(map[%s]%s)
+	for k, v := range %s {
+		%s[%s(k)] = %s(v)
+	}`, dst, t.KeyType, vt.Name, src, dst, t.KeyType, vt.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
 			}
@@ -158,10 +164,12 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			switch st := t.SliceOf.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(
-					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
-					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
+					"for _, v := range %s { %s = append(%s, new(%s).marshall(&v)) }",
+					src, dst, dst, st.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(
+					"for _, v := range %s { %s = append(%s, %s(v)) }",
+					src, dst, dst, st.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
@@ -171,55 +179,79 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 }
 
 func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, error) {
+	src := "msg." + strings.Title(f.Name)
+	dst := obj + f.Name
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", strings.Title(f.Name), obj, f.Name), nil
+			return fmt.Sprintf("if %s != nil { %s.unmarshall(&%s) }", src, src, dst), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
+			return fmt.Sprintf("%s = %v(%s)", dst, f.SrcType, src), nil
 		}
 	case *gocode.Pointer:
 		{
+			ptr, isPtr := f.SrcType.(*gocode.Pointer)
+			if !isPtr {
+				return "", blueprint.Errorf("expected a pointer but got %v", f.SrcType)
+			}
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s.unmarshall(%s%s)", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = new(%s); %s.unmarshall(%s) }", src, dst, imports.NameOf(ptr.PointerTo), src, dst), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = &%v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
+				return fmt.Sprintf("{ v := %s(%s); %s = &v }", imports.NameOf(ptr.PointerTo), src, dst), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
 		}
 	case *gocode.Map:
 		{
+			m, isMap := f.SrcType.(*gocode.Map)
+			if !isMap {
+				return "", blueprint.Errorf("expected a map but got %v", f.SrcType)
+			}
+			key, value := imports.NameOf(m.KeyType), imports.NameOf(m.ValueType)
 			switch t.ValueType.(type) {
 			case *gocode.UserType:
 				{
 					return fmt.Sprintf(`
-    %s%s = make(%s)
-	for k, v := range msg.%s {
-		objv := %s%s[k]
+    %s = make(%s)
+	for k, v := range %s {
+		var objv %s
 		v.unmarshall(&objv)
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name), nil
+		%s[%s(k)] = objv
+	}`, dst, imports.NameOf(f.SrcType), src, value, dst, key), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(`
+    %s = make(%s)
+	for k, v := range %s {
+		%s[%s(k)] = %s(v)
+	}`, dst, imports.NameOf(f.SrcType), src, dst, key, value), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
 			}
 		}
 	case *gocode.Slice:
 		{
+			slice, isSlice := f.SrcType.(*gocode.Slice)
+			if !isSlice {
+				return "", blueprint.Errorf("expected a slice but got %v", f.SrcType)
+			}
 			switch st := t.SliceOf.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(`
-	%s%s = make(%s, len(msg.%s))
-	for i, v := range msg.%s {
-		v.unmarshall(&%s%s[i])
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), strings.Title(f.Name), obj, f.Name), nil
+	%s = make(%s, len(%s))
+	for i, v := range %s {
+		v.unmarshall(&%s[i])
+	}`, dst, imports.NameOf(f.SrcType), src, src, dst), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+				return fmt.Sprintf(`
+	%s = make(%s, len(%s))
+	for i, v := range %s {
+		%s[i] = %s(v)
+	}`, dst, imports.NameOf(f.SrcType), src, src, dst, imports.NameOf(slice.SliceOf)), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index b359fa0..3f73911 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -326,8 +326,8 @@ var basicToGrpc = map[string]string{
 	"string": "string",
 	"int":    "sint64", "int8": "sint32", "int16": "sint32", "int32": "sint32", "int64": "sint64",
 	"uint": "uint64", "uint8": "uint32", "uint16": "uint32", "uint32": "uint32", "uint64": "uint64",
-	"byte":    "uint8",
-	"rune":    "uint8",
+	"byte":    "uint32",
+	"rune":    "sint32",
 	"float32": "float", "float64": "double",
 }
 
@@ -336,9 +336,8 @@ var grpcToBasic = map[string]string{
 	"string": "string",
 	"sint32": "int32", "sint64": "int64",
 	"uint32": "uint32", "uint64": "uint64",
-	"uint8":   "byte",
-	"float32": "float",
-	"float64": "double",
+	"float":  "float32",
+	"double": "float64",
 }
 
 var acceptableMapKeys map[string]struct{}
@@ -357,7 +356,7 @@ func getMapKeyType(t gocode.TypeName) (string, gocode.TypeName, bool) {
 	if basic, isBasic := t.(*gocode.BasicType); isBasic {
 		if grpcType, hasGrpcType := basicToGrpc[basic.Name]; hasGrpcType {
 			if _, isValid := acceptableMapKeys[grpcType]; isValid {
-				return grpcType, t, true
+				return grpcType, &gocode.BasicType{Name: grpcToBasic[grpcType]}, true
 			}
 		}
 	}
-- 
2.43.0


From 45b6fdbcfcb81c93ab44c99a312655fc2e3b5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 09/79] fix: thrift marshalling keeps map entries and pointers
 and full integer ranges

---
 plugins/thrift/thriftcodegen/marshallgen.go | 88 +++++++++++++++------
 plugins/thrift/thriftcodegen/thriftgen.go   |  7 +-
 2 files changed, 66 insertions(+), 29 deletions(-)

diff --git a/plugins/thrift/thriftcodegen/marshallgen.go b/plugins/thrift/thriftcodegen/marshallgen.go
index b625e55..8cc52f9 100644
--- a/plugins/thrift/thriftcodegen/marshallgen.go
+++ b/plugins/thrift/thriftcodegen/marshallgen.go
@@ -143,39 +143,49 @@ func (m *ThriftMethodDecl) MarshallResponse(imports *gogen.Imports, pkg string)
 }
 
 func (f *ThriftField) Marshall(imports *gogen.Imports, obj string, pkg string) (string, error) {
+	src := obj + f.Name
+	dst := "msg." + capitalizeFieldName(f.Name)
 	switch t := f.ThriftGoType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s = marshall_%s_%s(new(%s.%s), &%s%s)", capitalizeFieldName(f.Name), pkg, t.Name, pkg, t.Name, obj, f.Name), nil
+			return fmt.Sprintf("%s = marshall_%s_%s(new(%s.%s), &%s)", dst, pkg, t.Name, pkg, t.Name, src), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("msg.%s = %s(%s%s)", capitalizeFieldName(f.Name), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("%s = %s(%s)", dst, t.Name, src), nil
 		}
 	case *gocode.Pointer:
 		{
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s = marshall_%s_%s(new(%s.%s),%s%s)", capitalizeFieldName(f.Name), pkg, pt.Name, pkg, pt.Name, obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = marshall_%s_%s(new(%s.%s), %s) }", src, dst, pkg, pt.Name, pkg, pt.Name, src), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s(*%s%s)", capitalizeFieldName(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = %s(*%s) }", src, dst, pt.Name, src), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
 		}
 	case *gocode.Map:
 		{
+			key, isBasicKey := t.KeyType.(*gocode.BasicType)
+			if !isBasicKey {
+				return "", blueprint.Errorf("unsupported/unimplemented map key type %v", t.KeyType)
+			}
 			switch vt := t.ValueType.(type) {
 			case *gocode.UserType:
 				{
 					return fmt.Sprintf(`
-    msg.%s = make(map[%s]*%s.%s)
-	for k, v := range %s%s {
-		msg.%s[k] = marshall_%s_%s(new(%s.%s), &v)
-	}`, capitalizeFieldName(f.Name), t.KeyType, pkg, vt.Name, obj, f.Name, capitalizeFieldName(f.Name), pkg, vt.Name, pkg, vt.Name), nil
+    %s = make(map[%s]*%s.%s)
+	for k, v := range %s {
+		%s[%s(k)] = marshall_%s_%s(new(%s.%s), &v)
+	}`, dst, key.Name, pkg, vt.Name, src, dst, key.Name, pkg, vt.Name, pkg, vt.Name), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", capitalizeFieldName(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(`
+    %s = make(map[%s]%s)
+	for k, v := range %s {
+		%s[%s(k)] = %s(v)
+	}`, dst, key.Name, vt.Name, src, dst, key.Name, vt.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
 			}
@@ -185,10 +195,12 @@ func (f *ThriftField) Marshall(imports *gogen.Imports, obj string, pkg string) (
 			switch st := t.SliceOf.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(
-					"for _, v := range %s%s { msg.%s = append(msg.%s, marshall_%s_%s(new(%s.%s), &v)) }",
-					obj, f.Name, capitalizeFieldName(f.Name), capitalizeFieldName(f.Name), pkg, st.Name, pkg, st.Name), nil
+					"for _, v := range %s { %s = append(%s, marshall_%s_%s(new(%s.%s), &v)) }",
+					src, dst, dst, pkg, st.Name, pkg, st.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", capitalizeFieldName(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(
+					"for _, v := range %s { %s = append(%s, %s(v)) }",
+					src, dst, dst, st.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
@@ -198,55 +210,79 @@ func (f *ThriftField) Marshall(imports *gogen.Imports, obj string, pkg string) (
 }
 
 func (f *ThriftField) Unmarshall(imports *gogen.Imports, obj string, pkg string) (string, error) {
+	src := "msg." + capitalizeFieldName(f.Name)
+	dst := obj + f.Name
 	switch t := f.ThriftGoType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("unmarshall_%s_%s(msg.%s,&%s%s)", pkg, t.Name, capitalizeFieldName(f.Name), obj, f.Name), nil
+			return fmt.Sprintf("if %s != nil { unmarshall_%s_%s(%s, &%s) }", src, pkg, t.Name, src, dst), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, capitalizeFieldName(f.Name)), nil
+			return fmt.Sprintf("%s = %v(%s)", dst, f.SrcType, src), nil
 		}
 	case *gocode.Pointer:
 		{
+			ptr, isPtr := f.SrcType.(*gocode.Pointer)
+			if !isPtr {
+				return "", blueprint.Errorf("expected a pointer but got %v", f.SrcType)
+			}
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("unmarshall_%s_%s(msg.%s, %s%s)", pkg, pt.Name, capitalizeFieldName(f.Name), obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = new(%s); unmarshall_%s_%s(%s, %s) }", src, dst, imports.NameOf(ptr.PointerTo), pkg, pt.Name, src, dst), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = &%v(msg.%s)", obj, f.Name, f.SrcType, capitalizeFieldName(f.Name)), nil
+				return fmt.Sprintf("{ v := %s(%s); %s = &v }", imports.NameOf(ptr.PointerTo), src, dst), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
 		}
 	case *gocode.Map:
 		{
+			m, isMap := f.SrcType.(*gocode.Map)
+			if !isMap {
+				return "", blueprint.Errorf("expected a map but got %v", f.SrcType)
+			}
+			key, value := imports.NameOf(m.KeyType), imports.NameOf(m.ValueType)
 			switch vt := t.ValueType.(type) {
 			case *gocode.UserType:
 				{
 					return fmt.Sprintf(`
-    %s%s = make(%s)
-	for k, v := range msg.%s {
-		objv := %s%s[k]
+    %s = make(%s)
+	for k, v := range %s {
+		var objv %s
 		unmarshall_%s_%s(v, &objv)
-	}`, obj, f.Name, imports.NameOf(f.SrcType), capitalizeFieldName(f.Name), obj, f.Name, pkg, vt.Name), nil
+		%s[%s(k)] = objv
+	}`, dst, imports.NameOf(f.SrcType), src, value, pkg, vt.Name, dst, key), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", capitalizeFieldName(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(`
+    %s = make(%s)
+	for k, v := range %s {
+		%s[%s(k)] = %s(v)
+	}`, dst, imports.NameOf(f.SrcType), src, dst, key, value), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
 			}
 		}
 	case *gocode.Slice:
 		{
+			slice, isSlice := f.SrcType.(*gocode.Slice)
+			if !isSlice {
+				return "", blueprint.Errorf("expected a slice but got %v", f.SrcType)
+			}
 			switch st := t.SliceOf.(type) {
 			case *gocode.UserType:
 				return fmt.Sprintf(`
-	%s%s = make(%s, len(msg.%s))
-	for i, v := range msg.%s {
-		unmarshall_%s_%s(v, &%s%s[i])
-	}`, obj, f.Name, imports.NameOf(f.SrcType), capitalizeFieldName(f.Name), capitalizeFieldName(f.Name), pkg, st.Name, obj, f.Name), nil
+	%s = make(%s, len(%s))
+	for i, v := range %s {
+		unmarshall_%s_%s(v, &%s[i])
+	}`, dst, imports.NameOf(f.SrcType), src, src, pkg, st.Name, dst), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, capitalizeFieldName(f.Name)), nil
+				return fmt.Sprintf(`
+	%s = make(%s, len(%s))
+	for i, v := range %s {
+		%s[i] = %s(v)
+	}`, dst, imports.NameOf(f.SrcType), src, src, dst, imports.NameOf(slice.SliceOf)), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
diff --git a/plugins/thrift/thriftcodegen/thriftgen.go b/plugins/thrift/thriftcodegen/thriftgen.go
index 29e723e..6b18bd9 100644
--- a/plugins/thrift/thriftcodegen/thriftgen.go
+++ b/plugins/thrift/thriftcodegen/thriftgen.go
@@ -288,12 +288,13 @@ func (b *ThriftBuilder) GetOrAddMessage(t *gocode.UserType) (*ThriftStructDecl,
 var basicToThirft = map[string]string{
 	"bool":   "bool",
 	"string": "string",
-	"int":    "i32",
+	"int":    "i64",
 	"int32":  "i32",
 	"int64":  "i64",
 	"int16":  "i16",
 	"int8":   "byte",
 	// Use 64-bit integers for unsigned integers as thrift only has support for signed ints
+	"uint":    "i64",
 	"uint32":  "i64",
 	"uint64":  "i64",
 	"uint8":   "i64",
@@ -301,13 +302,13 @@ var basicToThirft = map[string]string{
 	"float32": "double",
 	"float64": "double",
 	"byte":    "byte",
-	"rune":    "byte",
+	"rune":    "i32",
 }
 
 var thriftToBasic = map[string]string{
 	"bool":   "bool",
 	"string": "string",
-	"byte":   "byte",
+	"byte":   "int8",
 	"double": "float64",
 	"i64":    "int64",
 	"i32":    "int32",
-- 
2.43.0


From 1ad30e1c30906c607eef588ddec24d257bc54efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 10/79] fix: thrift client reports the remote error instead of
 masking it

---
 plugins/thrift/thriftcodegen/clientgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/thrift/thriftcodegen/clientgen.go b/plugins/thrift/thriftcodegen/clientgen.go
index 2e50670..1a81ab7 100644
--- a/plugins/thrift/thriftcodegen/clientgen.go
+++ b/plugins/thrift/thriftcodegen/clientgen.go
@@ -121,7 +121,7 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	defer cancel()
 
 	rsp, err := client.Client.{{$.ThriftMethodName $f.Name}}(ctx, req)
-	if err != nil {
+	if err == nil {
 		err = ctx.Err()
 	}
 	if err != nil {
-- 
2.43.0


From a15526f1c10557d5d4c30a941551d18238225ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 11/79] fix: timeout client does not race with or leak the
 timed out request

---
 plugins/timeouts/codegen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 99e71d6..20ac57a 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -65,10 +65,10 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
 	defer cancel()
-	is_complete := make(chan bool)
+	is_complete := make(chan func() ({{RetTypes $f "error"}}), 1)
 	go func() {
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		is_complete <- true
+		{{RetVars $f "err"}} := client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		is_complete <- func() ({{RetTypes $f "error"}}) { return {{RetVars $f "err"}} }
 	}()
 
 	// Wait till we either complete the request or it gets timed out
@@ -76,8 +76,8 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	case <-ctx.Done():
 		err = errors.New("Request was timed out")
 		return
-	case <-is_complete:
-		return
+	case response := <-is_complete:
+		return response()
 	}
 }
 {{end}}
-- 
2.43.0


From 3bf1e3e1b3ba2a604de8e31cdff7d4d64c857524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 12/79] fix: retry token buckets and jitter are safe for
 concurrent requests

---
 plugins/retries/codegen.go | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index db70ead..c19c8e8 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -86,7 +86,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		Imports:        gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "sync", "time")
 
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
@@ -107,7 +107,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		ReplenishAmt: replenish_amount,
 	}
 
-	client.Imports.AddPackages("context", "math")
+	client.Imports.AddPackages("context", "math", "sync")
 
 	return generateClientCommon(&client, clientTokenBucketTemplate)
 }
@@ -118,7 +118,7 @@ func generateClientCommon(client *clientArgs, clientTemplate string) error {
 	outputFile := filepath.Join(client.Package.Path, clientName+".go")
 
 	if client.UseJitter {
-		client.Imports.AddPackages("math/rand")
+		client.Imports.AddPackages("math/rand", "sync")
 	}
 
 	return gogen.ExecuteTemplateToFile("Retries", clientTemplate, client, outputFile)
@@ -224,6 +224,7 @@ type {{.Name}} struct {
 	Limit time.Duration
 	{{if .UseJitter -}}
 	Rand *rand.Rand
+	randLock sync.Mutex
 	{{- end}}
 }
 
@@ -250,6 +251,8 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 
 {{if .UseJitter}}
 func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
+	client.randLock.Lock()
+	defer client.randLock.Unlock()
 	return d/2 + time.Duration(client.Rand.Int63n(int64(d/2)))
 }
 {{end}}
@@ -311,6 +314,7 @@ type {{.Name}} struct {
 	maxTokens float64
 	refillRate float64
 	lastRefill time.Time
+	tokenLock sync.Mutex
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -345,6 +349,9 @@ func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 
 // acquireToken implements token bucket algorithm
 func (client *{{.Name}}) acquireToken() bool {
+	client.tokenLock.Lock()
+	defer client.tokenLock.Unlock()
+
 	now := time.Now()
 	elapsed := now.Sub(client.lastRefill).Seconds()
 	
@@ -404,6 +411,7 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	TokenBucket float64
+	tokenLock sync.Mutex
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -413,24 +421,40 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 	return handler, nil
 }
 
+// takeTokens consumes the cost of a retry, if there are enough tokens
+func (client *{{.Name}}) takeTokens() bool {
+	client.tokenLock.Lock()
+	defer client.tokenLock.Unlock()
+	tb := client.TokenBucket
+	if tb - {{.RetryCost}} < 1.0 {
+		// Not enough tokens
+		return false
+	}
+	client.TokenBucket = tb - {{.RetryCost}}
+	return true
+}
+
+// replenishTokens returns tokens to the bucket after a successful retry
+func (client *{{.Name}}) replenishTokens() {
+	client.tokenLock.Lock()
+	defer client.tokenLock.Unlock()
+	client.TokenBucket = math.Min(client.TokenBucket + {{.ReplenishAmt}}, {{.Capacity}})
+}
+
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
-{{$node := . -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx = context.WithValue(ctx, "attempt_num", 1)
 	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
-		tb := client.TokenBucket
-		if tb - {{$node.RetryCost}} < 1.0 {
-			// Not enough tokens
+		if !client.takeTokens() {
 			return
 		} else {
-			client.TokenBucket = tb - {{$node.RetryCost}}
 			ctx = context.WithValue(ctx, "attempt_num", 2)
 			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 			if err == nil {
-				client.TokenBucket = math.Min(client.TokenBucket + {{$node.ReplenishAmt}}, {{$node.Capacity}})
+				client.replenishTokens()
 				return
 			}
 		}
-- 
2.43.0


From 779355fc0716aee433dfcce7d274f4c45d96698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 13/79] fix: http client and server propagate the request
 context

---
 plugins/http/httpcodegen/clientgen.go | 6 +++++-
 plugins/http/httpcodegen/servergen.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 8433785..2e3e07b 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -93,7 +93,11 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	}
 	encoded_url.RawQuery = vals.Encode()
 
-	resp, err := client.Client.Get(encoded_url.String())
+	http_request, err := http.NewRequestWithContext(ctx, http.MethodGet, encoded_url.String(), nil)
+	if err != nil {
+		return
+	}
+	resp, err := client.Client.Do(http_request)
 	if err != nil {
 		return
 	}
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index 38bb273..72d40f7 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -104,7 +104,7 @@ func (handler *{{$receiver}}) {{$f.Name -}}
 	}
 	{{- end}}
 	{{end}}
-	ctx := context.Background()
+	ctx := r.Context()
 	{{RetVars $f "err"}} {{HasNewReturnVars $f}} handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
 		http.Error(w, err.Error(), 500)
-- 
2.43.0


From 8550150edaf80b893b31fdee4c628685f7222f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 14/79] fix: a client pool strands waiting requests when
 instantiating a client fails and reads its size unsynchronised

---
 runtime/plugins/clientpool/clientpool.go | 33 +++++++++++-------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/runtime/plugins/clientpool/clientpool.go b/runtime/plugins/clientpool/clientpool.go
index d5c2320..6aa84c7 100644
--- a/runtime/plugins/clientpool/clientpool.go
+++ b/runtime/plugins/clientpool/clientpool.go
@@ -15,9 +15,9 @@ import (
 // Pop and returned with Push.
 type ClientPool[T any] struct {
 	clients   chan T
+	permits   chan struct{} // one for each client that can still be instantiated
 	build     func() (T, error)
 	capacity  int64
-	size      int64
 	available int64
 	waiting   int64
 }
@@ -30,12 +30,15 @@ type ClientPool[T any] struct {
 func NewClientPool[T any](capacity int, build func() (T, error)) *ClientPool[T] {
 	pool := &ClientPool[T]{
 		clients:   make(chan T, capacity),
+		permits:   make(chan struct{}, capacity),
 		build:     build,
 		capacity:  int64(capacity),
-		size:      0,
 		available: 0,
 		waiting:   0,
 	}
+	for i := 0; i < capacity; i++ {
+		pool.permits <- struct{}{}
+	}
 	return pool
 }
 
@@ -55,27 +58,21 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 	default:
 	}
 
-	// If the pool isn't at capacity, we can instantiate a new client
-	for curSize := pool.size; curSize < pool.capacity; {
-		if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
-			client, err = pool.build()
-			if err != nil {
-				atomic.AddInt64(&pool.size, -1)
-			}
-			return
-		}
-		curSize = pool.size
-	}
-
-	// Pool is at capacity; wait to reuse an existing client
+	// If the pool isn't at capacity, we can instantiate a new client; otherwise
+	// wait to reuse an existing client, or for an instantiation to fail
 	atomic.AddInt64(&pool.waiting, 1)
+	defer atomic.AddInt64(&pool.waiting, -1)
 	select {
 	case <-ctx.Done():
 		err = errors.New("timeout before client was available")
 	case client = <-pool.clients:
 		atomic.AddInt64(&pool.available, -1)
+	case <-pool.permits:
+		client, err = pool.build()
+		if err != nil {
+			pool.permits <- struct{}{}
+		}
 	}
-	atomic.AddInt64(&pool.waiting, -1)
 	return
 }
 
@@ -92,10 +89,10 @@ func (pool *ClientPool[T]) Capacity() int {
 
 // Returns the current size of the client pool
 func (pool *ClientPool[T]) Size() int {
-	return int(pool.size)
+	return int(pool.capacity) - len(pool.permits)
 }
 
 // Returns the current number of available clients in the client pool
 func (pool *ClientPool[T]) Available() int {
-	return int(pool.available)
+	return int(atomic.LoadInt64(&pool.available))
 }
-- 
2.43.0


From 4fb5796b1a8d3028b1b8e7995247e67306906bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 15/79] fix: a client pool's client counter is unsynchronised

---
 plugins/clientpool/ir.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index 227da93..baba286 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -153,7 +153,7 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
-		"context", "fmt",
+		"context", "fmt", "sync/atomic",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/golang",
 	)
@@ -191,14 +191,13 @@ type {{.PoolName}} struct {
 }
 
 func {{.PoolConstructor}}(parent *golang.Namespace) *{{.PoolName}} {
-	i := 0
+	var created atomic.Int64 // clients are instantiated by concurrent requests
 	createClient := func() ({{NameOf .Service.UserType}}, error) {
-		clientName := fmt.Sprintf("{{.InstanceName}}.%v", i)
+		clientName := fmt.Sprintf("{{.InstanceName}}.%v", created.Add(1)-1)
 		n, err := {{.ClientConstructor}}(clientName).BuildWithParent(parent)
 		if err != nil {
 			return nil, err
 		}
-		i++
 		var client {{NameOf .Service.UserType}}
 		err = n.Get("{{.WrappedClient}}", &client)
 		return client, err
-- 
2.43.0


From 8ca1abc8164d6f7a828c129f9aa0f4b509130b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 16/79] fix: a trace context without flags crashes the receiver

---
 runtime/core/backend/trace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/core/backend/trace.go b/runtime/core/backend/trace.go
index ca3c9b2..9ec57ef 100644
--- a/runtime/core/backend/trace.go
+++ b/runtime/core/backend/trace.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 
 	"go.opentelemetry.io/otel/trace"
 )
@@ -49,6 +50,9 @@ func GetSpanContext(encoded_string string) (trace.SpanContextConfig, error) {
 	if err != nil {
 		return trace.SpanContextConfig{}, err
 	}
+	if len(flag_bytes) != 1 {
+		return trace.SpanContextConfig{}, errors.New("trace flags must be a single byte")
+	}
 	tFlags := trace.TraceFlags(flag_bytes[0])
 	tState, err := trace.ParseTraceState(tCtx.TraceState)
 	if err != nil {
-- 
2.43.0


From c59572b8170919b47fd2e8d6a9e55c8ae47b6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 17/79] fix: name unnamed arguments of service methods so that
 generated code can pass them on

---
 plugins/golang/goparser/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index a8efb91..739adac 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -330,13 +330,19 @@ func (f *ParsedFunc) Parse() error {
 			}
 
 			if len(p.Names) == 0 {
-				// This is an unnamed argument such as on an interface
-				f.Arguments = append(f.Arguments, gocode.Variable{Type: argType})
+				// This is an unnamed argument such as on an interface.  Generated code
+				// needs a name in order to pass the argument on.
+				name := fmt.Sprintf("arg%d", len(f.Arguments))
+				f.Arguments = append(f.Arguments, gocode.Variable{Name: name, Type: argType})
 			}
 
 			for _, argName := range p.Names {
 				// Can be 1 or more arguments sharing a type
-				f.Arguments = append(f.Arguments, gocode.Variable{Name: argName.Name, Type: argType})
+				name := argName.Name
+				if name == "_" {
+					name = fmt.Sprintf("arg%d", len(f.Arguments))
+				}
+				f.Arguments = append(f.Arguments, gocode.Variable{Name: name, Type: argType})
 			}
 		}
 	}
-- 
2.43.0


From e366668368e322eecacb0c7d5f81f59f294220cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 18/79] fix: client pools of services with one interface share
 the first pool's clients

---
 plugins/clientpool/ir.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index baba286..3496e3a 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -65,12 +65,8 @@ func (pool *ClientPool) AddInterfaces(module golang.ModuleBuilder) error {
 
 // Implements golang.GeneratesFuncs
 func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
-	/* Only generate clientpool code for the wrapped client once */
-	iface, err := golang.GetGoInterface(module, pool.Client)
-	if err != nil {
-		return err
-	}
-	if module.Visited(iface.Name + "_ClientPool") {
+	/* The generated code instantiates the nodes of this pool, so every pool needs its own */
+	if module.Visited(pool.PoolName + ".generateFuncs") {
 		return nil
 	}
 
@@ -88,7 +84,7 @@ func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
 	if err != nil {
 		return err
 	}
-	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.Service.BaseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
+	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.PoolName+"_Client", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
 	if err != nil {
 		return err
 	}
@@ -143,13 +139,14 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.WrappedClient = pool.Client.Name()
 	args.InstanceName = pool.PoolName
 	args.MaxClients = pool.N
-	args.PoolName = args.Service.Name + "_ClientPool"
+	uniqueName := args.Service.BaseName + "_" + ir.CleanName(pool.PoolName)
+	args.PoolName = uniqueName + "_ClientPool"
 	args.PackageShortName = "pool"
 	args.PackageName = module.Info().Name + "/" + args.PackageShortName
-	args.ClientFileName = args.Service.BaseName + "_pool_client.go"
-	args.PoolFileName = args.Service.BaseName + "_pool.go"
-	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.Service.BaseName)
-	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.Service.BaseName)
+	args.ClientFileName = uniqueName + "_pool_client.go"
+	args.PoolFileName = uniqueName + "_pool.go"
+	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", uniqueName)
+	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", uniqueName)
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
-- 
2.43.0


From 61cef4d62c5fbafb294fef829a61764f1999952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 19/79] fix: building a wiring spec reports the errors its
 wiring recorded

---
 blueprint/pkg/wiring/wiring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index b654a4d..3e4c3be 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -288,5 +288,8 @@ func (spec *wiringSpecImpl) Err() error {
 }
 
 func (spec *wiringSpecImpl) BuildIR(nodesToInstantiate ...string) (*ir.ApplicationNode, error) {
+	if err := spec.Err(); err != nil {
+		return nil, err
+	}
 	return BuildApplicationIR(spec, spec.name, nodesToInstantiate...)
 }
-- 
2.43.0


From 07996ee7a1154f3798434b29aaf7fd8586e4b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 20/79] fix: a cycle of aliases is reported instead of looping
 forever

---
 blueprint/pkg/wiring/wiring.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index 3e4c3be..f23b0f4 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -149,15 +149,16 @@ func (def *WiringDef) String() string {
 	return b.String()
 }
 
+// Follows aliases until a name that is not an alias; a cycle of aliases stops at the name where it closes
 func (spec *wiringSpecImpl) resolveAlias(alias string) string {
-	for {
+	for i := len(spec.aliases); i > 0; i-- {
 		name, is_alias := spec.aliases[alias]
-		if is_alias {
-			alias = name
-		} else {
-			return alias
+		if !is_alias {
+			break
 		}
+		alias = name
 	}
+	return alias
 }
 
 func (spec *wiringSpecImpl) getDef(name string, createIfAbsent bool) *WiringDef {
-- 
2.43.0


From d3214d8f2e0aa0162f1c69835ef66ee09e7862ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 21/79] fix: wiring options that cannot be applied are reported
 instead of ignored

---
 plugins/circuitbreaker/wiring.go |  3 +--
 plugins/clientpool/wiring.go     |  4 ++--
 plugins/faultinjector/wiring.go  |  8 ++++----
 plugins/govector/wiring.go       |  4 ++--
 plugins/grpc/wiring.go           |  3 +--
 plugins/healthchecker/wiring.go  |  3 +--
 plugins/http/wiring.go           |  4 ++--
 plugins/latency/wiring.go        |  4 ++--
 plugins/opentelemetry/wiring.go  |  4 ++--
 plugins/retries/wiring.go        | 11 +++++------
 plugins/thrift/wiring.go         |  3 +--
 plugins/timeouts/wiring.go       |  4 ++--
 12 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/plugins/circuitbreaker/wiring.go b/plugins/circuitbreaker/wiring.go
index fc109cc..da83e77 100644
--- a/plugins/circuitbreaker/wiring.go
+++ b/plugins/circuitbreaker/wiring.go
@@ -9,7 +9,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds circuit breaker functionality to all clients of the specified service.
@@ -24,7 +23,7 @@ func AddCircuitBreaker(spec wiring.WiringSpec, serviceName string, min_reqs int6
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add a circuit breaker to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add a circuit breaker to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/clientpool/wiring.go b/plugins/clientpool/wiring.go
index 051d354..db6f52b 100644
--- a/plugins/clientpool/wiring.go
+++ b/plugins/clientpool/wiring.go
@@ -27,11 +27,11 @@
 package clientpool
 
 import (
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Create can be used by wiring specs to add a clientpool to the client side of a service.
@@ -51,7 +51,7 @@ func Create(spec wiring.WiringSpec, serviceName string, numClients int) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to create clientpool for " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to create clientpool for %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/faultinjector/wiring.go b/plugins/faultinjector/wiring.go
index b18f68a..6c1396f 100644
--- a/plugins/faultinjector/wiring.go
+++ b/plugins/faultinjector/wiring.go
@@ -2,8 +2,6 @@
 package faultinjector
 
 import (
-	"log/slog"
-
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
@@ -29,7 +27,8 @@ func AddRandomDelay(spec wiring.WiringSpec, serviceName string, maxDelay int64)
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add random delay node to " + serviceName)
+		spec.AddError(blueprint.Errorf("Unable to add random delay node to %s", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
@@ -60,7 +59,8 @@ func AddProbabilisticFailures(spec wiring.WiringSpec, serviceName string, probab
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add probabilistic failures node to " + serviceName)
+		spec.AddError(blueprint.Errorf("Unable to add probabilistic failures node to %s", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
diff --git a/plugins/govector/wiring.go b/plugins/govector/wiring.go
index ccf906f..dbd627c 100644
--- a/plugins/govector/wiring.go
+++ b/plugins/govector/wiring.go
@@ -61,7 +61,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 // [Instrument] can be used by the wiring specs to instrument the client and server side of a service with govector-instrumentation to initialize, maintain, and propagate vector clocks.
@@ -77,7 +76,8 @@ func Instrument(spec wiring.WiringSpec, serviceName string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using GoVector as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to deploy %s using GoVector as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
diff --git a/plugins/grpc/wiring.go b/plugins/grpc/wiring.go
index 15a8fb6..4253478 100644
--- a/plugins/grpc/wiring.go
+++ b/plugins/grpc/wiring.go
@@ -57,7 +57,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // [Deploy] can be used by wiring specs to deploy a workflow service using gRPC.
@@ -82,7 +81,7 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using GRPC as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to deploy %s using GRPC as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/healthchecker/wiring.go b/plugins/healthchecker/wiring.go
index d845860..3056ae4 100644
--- a/plugins/healthchecker/wiring.go
+++ b/plugins/healthchecker/wiring.go
@@ -10,7 +10,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds a health check API to the server side implementation of the specified service.
@@ -40,7 +39,7 @@ func AddHealthCheckAPI(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add healthcheck API to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add healthcheck API to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/http/wiring.go b/plugins/http/wiring.go
index b2aa67d..e907a0a 100644
--- a/plugins/http/wiring.go
+++ b/plugins/http/wiring.go
@@ -18,7 +18,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 //Deploys `serviceName` as a HTTP server.
@@ -42,7 +41,8 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using HTTP as it not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to deploy %s using HTTP as it not a pointer", serviceName))
+		return
 	}
 
 	// Define the address that will be used by clients and the server
diff --git a/plugins/latency/wiring.go b/plugins/latency/wiring.go
index 1810f46..96c35ce 100644
--- a/plugins/latency/wiring.go
+++ b/plugins/latency/wiring.go
@@ -23,7 +23,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds fixed-amount of latency on the server side during request processing for the specified sevrice.
@@ -36,7 +35,8 @@ func AddFixed(spec wiring.WiringSpec, serviceName string, latency string) {
 	serverWrapper := serviceName + ".server.latency"
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add a latencyinjector to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add a latencyinjector to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
diff --git a/plugins/opentelemetry/wiring.go b/plugins/opentelemetry/wiring.go
index 62ca1b3..e9aea2e 100644
--- a/plugins/opentelemetry/wiring.go
+++ b/plugins/opentelemetry/wiring.go
@@ -53,12 +53,12 @@
 package opentelemetry
 
 import (
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 func instrument(spec wiring.WiringSpec, serviceName string, collectorName string, genClientSpan bool) {
@@ -69,7 +69,7 @@ func instrument(spec wiring.WiringSpec, serviceName string, collectorName string
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to instrument " + serviceName + " with OpenTelemetry as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to instrument %s with OpenTelemetry as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/retries/wiring.go b/plugins/retries/wiring.go
index 94e9e9e..b1458b8 100644
--- a/plugins/retries/wiring.go
+++ b/plugins/retries/wiring.go
@@ -20,7 +20,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
-	"golang.org/x/exp/slog"
 )
 
 var PROP_MAXRETRY = "Retry-Max"
@@ -42,7 +41,7 @@ func AddRetries(spec wiring.WiringSpec, serviceName string, max_retries int64) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -95,7 +94,7 @@ func AddRetriesWithFixedDelay(spec wiring.WiringSpec, serviceName string, max_re
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -127,7 +126,7 @@ func AddRetriesWithExponentialBackoff(spec wiring.WiringSpec, serviceName string
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -158,7 +157,7 @@ func AddRetriesRetryRateLimit(spec wiring.WiringSpec, serviceName string, max_re
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -189,7 +188,7 @@ func AddRetriesTokenBucket(spec wiring.WiringSpec, serviceName string, max_capac
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/thrift/wiring.go b/plugins/thrift/wiring.go
index d340542..855ef74 100644
--- a/plugins/thrift/wiring.go
+++ b/plugins/thrift/wiring.go
@@ -22,7 +22,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Deploys `serviceName` as a Thrift server.
@@ -47,7 +46,7 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using Thrift as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to deploy %s using Thrift as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/timeouts/wiring.go b/plugins/timeouts/wiring.go
index 8d9577b..eece973 100644
--- a/plugins/timeouts/wiring.go
+++ b/plugins/timeouts/wiring.go
@@ -14,7 +14,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 var PROP_TIMEOUT = "Timeout"
@@ -36,7 +35,8 @@ func Add(spec wiring.WiringSpec, serviceName string, timeout string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add timeouts to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("Unable to add timeouts to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
-- 
2.43.0


From fafb282aa9447a0947da8706b31d639ebf952a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 22/79] fix: a grpc server that cannot be bound is an error
 instead of a crash

---
 plugins/grpc/wiring.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/grpc/wiring.go b/plugins/grpc/wiring.go
index 4253478..bffca3e 100644
--- a/plugins/grpc/wiring.go
+++ b/plugins/grpc/wiring.go
@@ -114,8 +114,10 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 			return nil, err
 		}
 
-		err = address.Bind[*golangServer](namespace, grpcAddr, server, &server.Bind)
+		if err := address.Bind[*golangServer](namespace, grpcAddr, server, &server.Bind); err != nil {
+			return nil, err
+		}
 		server.Bind.PreferredPort = 12345
-		return server, err
+		return server, nil
 	})
 }
-- 
2.43.0


From 5c2476497b8b0dbd899df46acb93fe6745b9249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 23/79] fix: ports are assigned from 1 after the last port
 instead of 0

---
 blueprint/pkg/coreplugins/address/portassignment.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/pkg/coreplugins/address/portassignment.go b/blueprint/pkg/coreplugins/address/portassignment.go
index 5b02750..30d16f9 100644
--- a/blueprint/pkg/coreplugins/address/portassignment.go
+++ b/blueprint/pkg/coreplugins/address/portassignment.go
@@ -76,6 +76,10 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 				break
 			}
 			candidatePort++
+			if candidatePort == 0 {
+				// Past the last port; zero means that no port is assigned
+				candidatePort = 1
+			}
 		}
 	}
 
-- 
2.43.0


From 599af11b8ae65f12a659147a2fc1bb32261d2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 24/79] fix: an environment file with more addresses than ports
 is an error instead of ports from 0

---
 plugins/environment/wiring.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/plugins/environment/wiring.go b/plugins/environment/wiring.go
index f298cdb..7eb5dda 100644
--- a/plugins/environment/wiring.go
+++ b/plugins/environment/wiring.go
@@ -57,6 +57,7 @@ package environment
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -129,7 +130,7 @@ func generateEnvFiles(outputDir string, nodes []ir.IRNode, port uint16) error {
 	return generateEnv(filepath.Join(outputDir, ".env"), addrs, port, false)
 }
 
-func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, localhost bool) error {
+func generateEnv(outputFile string, addrs map[string]*addrconfig, initialPort uint16, localhost bool) error {
 	b := strings.Builder{}
 	// Fix iteration order so that each address is allocated the same port across multiple invocations of this function
 	keys := make([]string, 0, len(addrs))
@@ -137,7 +138,11 @@ func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, l
 		keys = append(keys, k)
 	}
 	sort.Strings(keys)
-	for _, k := range keys {
+	for i, k := range keys {
+		if int(initialPort)+i > math.MaxUint16 {
+			return fmt.Errorf("cannot assign ports to %d addresses starting from port %d", len(keys), initialPort)
+		}
+		port := int(initialPort) + i
 		addr := addrs[k]
 		if addr.bind != nil {
 			b.WriteString(fmt.Sprintf("%s=0.0.0.0:%d\n", linux.EnvVar(addr.bind.Key), port))
@@ -149,7 +154,6 @@ func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, l
 			}
 			b.WriteString(fmt.Sprintf("%s=%s:%d\n", linux.EnvVar(addr.dial.Key), hostname, port))
 		}
-		port += 1
 	}
 
 	if err := os.WriteFile(outputFile, []byte(b.String()), 0644); err != nil {
-- 
2.43.0


From bf7fd61402c93233ea4d63816e1e890342176d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 25/79] fix: the docker-compose file has spaces where YAML does
 not allow tabs

---
 .../dockercompose/dockergen/dockercompose.go  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/plugins/dockercompose/dockergen/dockercompose.go b/plugins/dockercompose/dockergen/dockercompose.go
index 420c5a0..d45834d 100644
--- a/plugins/dockercompose/dockergen/dockercompose.go
+++ b/plugins/dockercompose/dockergen/dockercompose.go
@@ -211,21 +211,21 @@ services:
      - {{$name}}={{$value}}
     {{- end}}
     {{- end}}
-	{{- if .Volumes}}
-	volumes:
-	{{- range $name, $value := .Volumes}}
-	 - {{$name}}:{{$value}}
-	{{- end}}
-	{{- end}}
-	{{- if .CustomCommand}}
-	command:
-	{{- range $_, $val := .CustomCommand}}
-	 - {{$val}}
-	{{- end}}
-	{{- end}}
-	{{- range $key, $val := .CustomConf}}
-	{{$key}}: {{$val}}
-	{{- end}}
+    {{- if .Volumes}}
+    volumes:
+    {{- range $name, $value := .Volumes}}
+     - {{$name}}:{{$value}}
+    {{- end}}
+    {{- end}}
+    {{- if .CustomCommand}}
+    command:
+    {{- range $_, $val := .CustomCommand}}
+     - {{$val}}
+    {{- end}}
+    {{- end}}
+    {{- range $key, $val := .CustomConf}}
+    {{$key}}: {{$val}}
+    {{- end}}
     restart: always
 {{end}}
 `
-- 
2.43.0


From 78b2e5ca3e62bfce683d4f0d0143f20b004ce5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 26/79] fix: values in kubernetes manifests are not HTML

---
 plugins/kubernetes/kubetemplate/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index d3fcd2e..dd2424f 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -2,9 +2,9 @@ package kubetemplate
 
 import (
 	"bytes"
-	"html/template"
 	"os"
 	"strings"
+	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
-- 
2.43.0


From 7f5366d7f551b697fa66ec7b6b5f8e783e4e2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 27/79] fix: kubernetes containers that only dial other pods
 get their environment

---
 plugins/kubernetes/kubepod/deploygen/deployfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index 776ec08..cd63927 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -169,7 +169,7 @@ spec:
         - name: {{KubernetesName .InstanceName}}
           image: {{.Image}}
           imagePullPolicy: Always
-          {{- if .Config}}
+          {{- if or .Config .ConfigMap}}
           env:
           {{- range $name, $value := .Config}}
             - name: {{$name}}
-- 
2.43.0


From e21bf3b9ae25e6c76824558a2c4065756359b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 28/79] fix: kubernetes containers of local images have an
 image without a registry

---
 plugins/kubernetes/kubepod/deploy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index 5cca940..f94322c 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -121,7 +121,7 @@ func (p *kubeDeploymentWorkspace) DeclareLocalImage(instanceName string, imageDi
 	slog.Info("Inside DeclareLocalImage")
 	p.InstanceArgs[instanceName] = args
 	// For now set image to instanceName
-	var image string
+	image := instanceName
 	if p.DockerRegistryAddr != "" {
 		image = p.DockerRegistryAddr + "/" + instanceName
 	}
-- 
2.43.0


From 7e46d49f3c58cdcaf2dc8bb9a0e3c5cc4b547f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 29/79] fix: kubernetes containers get their custom command and
 configuration

---
 plugins/kubernetes/kubepod/deploygen/deployfile.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index cd63927..de8f741 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -169,6 +169,15 @@ spec:
         - name: {{KubernetesName .InstanceName}}
           image: {{.Image}}
           imagePullPolicy: Always
+          {{- if .CustomCommand}}
+          args:
+          {{- range $_, $val := .CustomCommand}}
+            - "{{$val}}"
+          {{- end}}
+          {{- end}}
+          {{- range $key, $val := .CustomConf}}
+          {{$key}}: {{$val}}
+          {{- end}}
           {{- if or .Config .ConfigMap}}
           env:
           {{- range $name, $value := .Config}}
-- 
2.43.0


From 5e9b9f30efd140b574ca32a59a9f95bbde4b67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 30/79] fix: kubernetes pods are assigned the same ports on
 every compilation

---
 plugins/kubernetes/kubepod/deploy.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index f94322c..8542017 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -170,8 +171,14 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 	var localAddresses map[string]string
 	{
 		localAddresses = make(map[string]string)
-		for _, instanceArgs := range p.InstanceArgs {
-			allBinds = append(allBinds, ir.Filter[*address.BindConfig](instanceArgs)...)
+		// Fix the order of instances so that the same ports are assigned on every compilation
+		instanceNames := make([]string, 0, len(p.InstanceArgs))
+		for instanceName := range p.InstanceArgs {
+			instanceNames = append(instanceNames, instanceName)
+		}
+		sort.Strings(instanceNames)
+		for _, instanceName := range instanceNames {
+			allBinds = append(allBinds, ir.Filter[*address.BindConfig](p.InstanceArgs[instanceName])...)
 		}
 
 		_, assigned, err := address.AssignPorts(allBinds)
-- 
2.43.0


From 03be60e83a693a08280c54a57f97e57b1c9fc072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 31/79] fix: nodes of an application are built in the same
 order on every compilation

---
 blueprint/pkg/ir/builders.go   | 8 ++++++--
 blueprint/pkg/wiring/wiring.go | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/blueprint/pkg/ir/builders.go b/blueprint/pkg/ir/builders.go
index ee18c7e..98ac108 100644
--- a/blueprint/pkg/ir/builders.go
+++ b/blueprint/pkg/ir/builders.go
@@ -15,6 +15,7 @@ type (
 	// Registers default build functions for building nodes of certain types.
 	registry struct {
 		namespace map[reflect.Type]*namespaceBuilder
+		order     []reflect.Type // the node types in the order they were first registered
 	}
 
 	builder struct {
@@ -48,6 +49,9 @@ func RegisterDefaultNamespace[T IRNode](name string, buildFunc func(outputDir st
 }
 
 func (r *registry) addNamespaceBuilder(name string, nodeType reflect.Type, buildFunc func(outputDir string, nodes []IRNode) error) {
+	if _, exists := r.namespace[nodeType]; !exists {
+		r.order = append(r.order, nodeType)
+	}
 	r.namespace[nodeType] = &namespaceBuilder{
 		builder: builder{
 			name:     name,
@@ -112,8 +116,8 @@ func (r *registry) buildAll(outputDir string, nodes []IRNode) (err error) {
 	}
 
 	// Try to group like-nodes into namespaces first
-	for _, builder := range r.namespace {
-		nodes, err = builder.buildCompatibleNodes(outputDir, nodes)
+	for _, nodeType := range r.order {
+		nodes, err = r.namespace[nodeType].buildCompatibleNodes(outputDir, nodes)
 		if err != nil {
 			return err
 		}
diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index f23b0f4..46b459a 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -28,6 +28,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
@@ -202,6 +203,7 @@ func (spec *wiringSpecImpl) Defs() []string {
 	for name := range spec.defs {
 		defs = append(defs, name)
 	}
+	sort.Strings(defs)
 	return defs
 }
 
-- 
2.43.0


From f9aba35c433781f871f6e31208780959083feca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 32/79] fix: generated imports and go.mod files are the same on
 every compilation

---
 plugins/golang/gocode/service.go            | 14 +++++++++++++-
 plugins/golang/gogen/imports.go             | 17 ++++++++++++++---
 plugins/golang/gogen/workspacebuilder.go    |  3 ++-
 plugins/grpc/grpccodegen/marshallgen.go     | 11 +++++++++--
 plugins/thrift/thriftcodegen/marshallgen.go | 11 +++++++++--
 5 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/plugins/golang/gocode/service.go b/plugins/golang/gocode/service.go
index 3f523ad..cea2f84 100644
--- a/plugins/golang/gocode/service.go
+++ b/plugins/golang/gocode/service.go
@@ -4,6 +4,7 @@ package gocode
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/service"
@@ -42,12 +43,23 @@ func (s *ServiceInterface) GetName() string {
 
 func (s *ServiceInterface) GetMethods() []service.Method {
 	var methods []service.Method
-	for _, method := range s.Methods {
+	for _, name := range s.methodNames() {
+		method := s.Methods[name]
 		methods = append(methods, &method)
 	}
 	return methods
 }
 
+// Returns the names of all methods in a fixed order
+func (s *ServiceInterface) methodNames() []string {
+	names := make([]string, 0, len(s.Methods))
+	for name := range s.Methods {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (s *ServiceInterface) AddMethod(f Func) {
 	s.Methods[f.Name] = f
 }
diff --git a/plugins/golang/gogen/imports.go b/plugins/golang/gogen/imports.go
index 0e6ec42..c621033 100644
--- a/plugins/golang/gogen/imports.go
+++ b/plugins/golang/gogen/imports.go
@@ -3,6 +3,7 @@ package gogen
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
@@ -114,16 +115,26 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 func (imports *Imports) String() string {
 	var b strings.Builder
 	b.WriteString("import (\n")
-	for pkg := range imports.anonymous {
+	for _, pkg := range sortedKeys(imports.anonymous) {
 		b.WriteString(fmt.Sprintf("\t\"%s\"\n", pkg))
 	}
-	for pkg, importName := range imports.named {
-		b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", importName, pkg))
+	for _, pkg := range sortedKeys(imports.named) {
+		b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", imports.named[pkg], pkg))
 	}
 	b.WriteString(")")
 	return b.String()
 }
 
+// Returns the keys of m in a fixed order, so that the same code is generated on every compilation
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Given fully-qualified package name pkg and exported member name,
 // returns the short name used to reference that member.
 //
diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index f159e17..3fc6cfc 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -225,7 +225,8 @@ func (workspace *WorkspaceBuilderImpl) updateModfile(moduleSubDir string, module
 	}
 
 	// Now we add replace directives
-	for otherModuleSubDir, otherModuleName := range workspace.Modules {
+	for _, otherModuleSubDir := range sortedKeys(workspace.Modules) {
+		otherModuleName := workspace.Modules[otherModuleSubDir]
 		if moduleName == otherModuleName {
 			continue
 		}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 5bb4d79..1d3c0e4 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -3,6 +3,7 @@ package grpccodegen
 import (
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"text/template"
 
@@ -106,8 +107,14 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 	args.gRPCProtoBuilder = *b
 	args.Imports = gogen.NewImports(args.PackageName)
 
-	for _, msg := range args.gRPCProtoBuilder.Messages {
-		for _, field := range msg.FieldList {
+	// Fix the order of imports so that the same code is generated on every compilation
+	names := make([]string, 0, len(args.gRPCProtoBuilder.Messages))
+	for name := range args.gRPCProtoBuilder.Messages {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		for _, field := range args.gRPCProtoBuilder.Messages[name].FieldList {
 			args.Imports.AddType(field.SrcType)
 		}
 	}
diff --git a/plugins/thrift/thriftcodegen/marshallgen.go b/plugins/thrift/thriftcodegen/marshallgen.go
index 8cc52f9..89e7ed1 100644
--- a/plugins/thrift/thriftcodegen/marshallgen.go
+++ b/plugins/thrift/thriftcodegen/marshallgen.go
@@ -2,6 +2,7 @@ package thriftcodegen
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -40,8 +41,14 @@ func (b *ThriftBuilder) GenerateMarshallingCode(outputFilePath string) error {
 	args.ThriftBuilder = *b
 	args.Imports = gogen.NewImports(args.PackageName)
 
-	for _, struc := range args.ThriftBuilder.Structs {
-		for _, field := range struc.FieldList {
+	// Fix the order of imports so that the same code is generated on every compilation
+	names := make([]string, 0, len(args.ThriftBuilder.Structs))
+	for name := range args.ThriftBuilder.Structs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		for _, field := range args.ThriftBuilder.Structs[name].FieldList {
 			args.Imports.AddType(field.SrcType)
 		}
 	}
-- 
2.43.0


From f10a311c5283dd907909f0b09212ab237380e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 33/79] fix: the same interface, struct and constructor is
 chosen for a service on every compilation

---
 plugins/golang/goparser/moduleset.go     | 16 ++++++++++++++++
 plugins/gotests/findtests.go             |  6 +++---
 plugins/gotests/ir.go                    | 11 ++++++++++-
 plugins/workflow/workflowspec/service.go | 24 ++++++++++++------------
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/plugins/golang/goparser/moduleset.go b/plugins/golang/goparser/moduleset.go
index da21a4b..9f5f13a 100644
--- a/plugins/golang/goparser/moduleset.go
+++ b/plugins/golang/goparser/moduleset.go
@@ -3,6 +3,7 @@ package goparser
 import (
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -132,6 +133,21 @@ func (set *ParsedModuleSet) AddWorkspace(workspaceDir string) error {
 	return set.AddModules(srcDirs...)
 }
 
+// Returns the values of m in the order of their keys.  Searching the maps of a module set in this
+// order gives the same result on every compilation.
+func Sorted[V any](m map[string]V) []V {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	values := make([]V, 0, len(m))
+	for _, key := range keys {
+		values = append(values, m[key])
+	}
+	return values
+}
+
 // Gets the [*ParsedPackage] for the specified name, possibly searching
 // for and parsing the package.
 //
diff --git a/plugins/gotests/findtests.go b/plugins/gotests/findtests.go
index f93044f..c7f414a 100644
--- a/plugins/gotests/findtests.go
+++ b/plugins/gotests/findtests.go
@@ -58,9 +58,9 @@ func findWorkflowServiceRegistries() (*serviceRegistries, error) {
 
 	// Find instances
 	names := []string{}
-	for _, mod := range modset.Modules {
-		for _, pkg := range mod.Packages {
-			for _, v := range pkg.Vars {
+	for _, mod := range goparser.Sorted(modset.Modules) {
+		for _, pkg := range goparser.Sorted(mod.Packages) {
+			for _, v := range goparser.Sorted(pkg.Vars) {
 				vType, isRegistry := isRegistryVar(v)
 				if isRegistry {
 					registryInfo := &serviceRegistry{
diff --git a/plugins/gotests/ir.go b/plugins/gotests/ir.go
index 6aee90b..171cb4b 100644
--- a/plugins/gotests/ir.go
+++ b/plugins/gotests/ir.go
@@ -3,6 +3,7 @@ package gotests
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
@@ -141,7 +142,15 @@ func (lib *testLibrary) GenerateArtifacts(workspaceDir string) error {
 	namespaceConstructor := namespaceBuilder.Package.ShortName + "." + constructorName
 	namespaceName := "tests"
 
-	for name, node := range lib.ServicesToTest {
+	// Fix the order of services so that the same code is generated on every compilation
+	serviceNames := make([]string, 0, len(lib.ServicesToTest))
+	for name := range lib.ServicesToTest {
+		serviceNames = append(serviceNames, name)
+	}
+	sort.Strings(serviceNames)
+
+	for _, name := range serviceNames {
+		node := lib.ServicesToTest[name]
 		// Find the interface type
 		iface, err := golang.GetGoInterface(module, node)
 		if err != nil {
diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 488b2ca..f4b6342 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -164,9 +164,9 @@ For a parsed struct, finds all valid interfaces that the struct implements
 */
 func (spec *WorkflowSpec) findInterfacesFor(struc *goparser.ParsedStruct) []*goparser.ParsedInterface {
 	var ifaces []*goparser.ParsedInterface
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, iface := range pkg.Interfaces {
+	for _, mod := range goparser.Sorted(spec.Modules.Modules) {
+		for _, pkg := range goparser.Sorted(mod.Packages) {
+			for _, iface := range goparser.Sorted(pkg.Interfaces) {
 				if valid, _ := implements(struc, iface); valid {
 					ifaces = append(ifaces, iface)
 				}
@@ -181,9 +181,9 @@ For a parsed interface, finds all valid struct that implement the provided inter
 */
 func (spec *WorkflowSpec) findStructsFor(iface *goparser.ParsedInterface) []*goparser.ParsedStruct {
 	var structs []*goparser.ParsedStruct
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, struc := range pkg.Structs {
+	for _, mod := range goparser.Sorted(spec.Modules.Modules) {
+		for _, pkg := range goparser.Sorted(mod.Packages) {
+			for _, struc := range goparser.Sorted(pkg.Structs) {
 				if valid, _ := implements(struc, iface); valid {
 					structs = append(structs, struc)
 				}
@@ -211,9 +211,9 @@ func implements(struc *goparser.ParsedStruct, iface *goparser.ParsedInterface) (
 
 func (spec *WorkflowSpec) findConstructorsOfIface(iface *goparser.ParsedInterface) []*goparser.ParsedFunc {
 	var constructors []*goparser.ParsedFunc
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, f := range pkg.Funcs {
+	for _, mod := range goparser.Sorted(spec.Modules.Modules) {
+		for _, pkg := range goparser.Sorted(mod.Packages) {
+			for _, f := range goparser.Sorted(pkg.Funcs) {
 				if isConstructorOfIface(f, iface) {
 					constructors = append(constructors, f)
 				}
@@ -225,9 +225,9 @@ func (spec *WorkflowSpec) findConstructorsOfIface(iface *goparser.ParsedInterfac
 
 func (spec *WorkflowSpec) findConstructorsOfStruct(struc *goparser.ParsedStruct) []*goparser.ParsedFunc {
 	var constructors []*goparser.ParsedFunc
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, f := range pkg.Funcs {
+	for _, mod := range goparser.Sorted(spec.Modules.Modules) {
+		for _, pkg := range goparser.Sorted(mod.Packages) {
+			for _, f := range goparser.Sorted(pkg.Funcs) {
 				if isConstructorOfStruct(f, struc) {
 					constructors = append(constructors, f)
 				}
-- 
2.43.0


From 382e6ba0cf062b0bef8be319e58bbd983201376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 34/79] fix: wiring specs are listed in the same order every
 time

---
 plugins/cmdbuilder/cmdbuilder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugins/cmdbuilder/cmdbuilder.go b/plugins/cmdbuilder/cmdbuilder.go
index 316d2d4..46818ef 100644
--- a/plugins/cmdbuilder/cmdbuilder.go
+++ b/plugins/cmdbuilder/cmdbuilder.go
@@ -57,6 +57,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -195,7 +196,13 @@ func (b *CmdBuilder) ValidateArgs() error {
 // Returns a list of configured wiring specs
 func (builder *CmdBuilder) List() string {
 	var b strings.Builder
-	for _, spec := range builder.Registry {
+	names := make([]string, 0, len(builder.Registry))
+	for name := range builder.Registry {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		spec := builder.Registry[name]
 		b.WriteString(fmt.Sprintf("  %v: %v\n", spec.Name, spec.Description))
 	}
 	return b.String()
-- 
2.43.0


From f9fb36151ecd2ec324992752b5561231071fbee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 35/79] fix: copying a nil result returns instead of panicking

---
 runtime/core/backend/reflect.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 314303c..f9b4795 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -8,7 +8,7 @@ import (
 
 func GetPointerValue(val any) (any, error) {
 	val_ptr := reflect.ValueOf(val)
-	if val_ptr.Kind() != reflect.Pointer {
+	if val_ptr.Kind() != reflect.Pointer || val_ptr.IsNil() {
 		return nil, errors.Errorf("cannot indirect non-pointer type %v", val)
 	}
 	return reflect.Indirect(val_ptr).Interface(), nil
@@ -27,6 +27,16 @@ func CopyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is an untyped nil, which can be copied to anything that can be nil
+		switch dst_val.Kind() {
+		case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func:
+			dst_val.SetZero()
+			return nil
+		}
+		return errors.Errorf("unable to copy nil to %v", dst_val.Type())
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From 38190e2b8e56092f5ad281759b440eebca74d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 36/79] fix: simplecache reads under its lock and increments
 atomically

---
 runtime/plugins/simplecache/cache.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/simplecache/cache.go b/runtime/plugins/simplecache/cache.go
index 176caea..fe94e23 100644
--- a/runtime/plugins/simplecache/cache.go
+++ b/runtime/plugins/simplecache/cache.go
@@ -3,6 +3,7 @@ package simplecache
 
 import (
 	"context"
+	"reflect"
 	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
@@ -31,6 +32,8 @@ func (cache *SimpleCache) Put(ctx context.Context, key string, value interface{}
 }
 
 func (cache *SimpleCache) Get(ctx context.Context, key string, val interface{}) (bool, error) {
+	cache.RLock()
+	defer cache.RUnlock()
 	if v, exists := cache.values[key]; exists {
 		return true, backend.CopyResult(v, val)
 	}
@@ -73,11 +76,17 @@ func (cache *SimpleCache) Delete(ctx context.Context, key string) error {
 }
 
 func (cache *SimpleCache) Incr(ctx context.Context, key string) (int64, error) {
-	cur := int64(0)
-	_, err := cache.Get(ctx, key, &cur)
-	if err != nil {
-		return cur, err
+	cache.Lock()
+	defer cache.Unlock()
+	v, exists := cache.values[key]
+	if !exists {
+		v = int64(0)
+	}
+	cur := reflect.ValueOf(v)
+	if !cur.CanInt() {
+		return 0, errors.Errorf("cannot increment non-integer value of type %v for key %v", reflect.TypeOf(v), key)
 	}
-	cur += 1
-	return cur, cache.Put(ctx, key, cur)
+	next := cur.Int() + 1
+	cache.values[key] = reflect.ValueOf(next).Convert(cur.Type()).Interface()
+	return next, nil
 }
-- 
2.43.0


From 29e2de3302e0759f2d28ab5c387108051b6ed3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 37/79] fix: redis cache checks the number of values and skips
 missing keys

---
 runtime/plugins/redis/cache.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/redis/cache.go b/runtime/plugins/redis/cache.go
index 399669e..bf6b207 100644
--- a/runtime/plugins/redis/cache.go
+++ b/runtime/plugins/redis/cache.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 
 	redis_impl "github.com/go-redis/redis/v8"
+	"github.com/pkg/errors"
 )
 
 // A redis client wrapper that implements the [backend.Cache] interface
@@ -59,12 +60,23 @@ func (r *RedisCache) Delete(ctx context.Context, key string) error {
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return errors.Errorf("mget received %v keys but %v values", len(keys), len(values))
+	}
+	if len(keys) == 0 {
+		return nil
+	}
 	result, err := r.client.MGet(ctx, keys...).Result()
 	if err != nil {
 		return err
 	}
 	for idx, res := range result {
-		err := json.Unmarshal([]byte(res.(string)), values[idx])
+		val, exists := res.(string)
+		if !exists {
+			// Key doesn't exist
+			continue
+		}
+		err := json.Unmarshal([]byte(val), values[idx])
 		if err != nil {
 			return err
 		}
@@ -74,6 +86,12 @@ func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mset(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return errors.Errorf("mset received %v keys but %v values", len(keys), len(values))
+	}
+	if len(keys) == 0 {
+		return nil
+	}
 	kv_map := make(map[string]string)
 	for idx, key := range keys {
 		val, err := json.Marshal(values[idx])
-- 
2.43.0


From 42dbfde5313e7d598e1faa74081c63d3e47534eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 38/79] fix: memcached checks the number of values and accepts
 missing keys

---
 runtime/plugins/memcached/cache.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/memcached/cache.go b/runtime/plugins/memcached/cache.go
index ef91b11..edc68d8 100644
--- a/runtime/plugins/memcached/cache.go
+++ b/runtime/plugins/memcached/cache.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/bradfitz/gomemcache/memcache"
+	"github.com/pkg/errors"
 )
 
 // A memcached client wrapper that implements the [backend.Cache] interface
@@ -49,16 +50,34 @@ func (m *Memcached) Get(ctx context.Context, key string, value interface{}) (boo
 // Implements the backend.Cache interface
 func (m *Memcached) Incr(ctx context.Context, key string) (int64, error) {
 	val, err := m.Client.Increment(key, 1)
+	if err == memcache.ErrCacheMiss {
+		// memcached does not create missing keys
+		err = m.Client.Add(&memcache.Item{Key: key, Value: []byte("1")})
+		if err == nil {
+			return 1, nil
+		}
+		if err == memcache.ErrNotStored {
+			// The key was created in the meantime
+			val, err = m.Client.Increment(key, 1)
+		}
+	}
 	return int64(val), err
 }
 
 // Implements the backend.Cache interface
 func (m *Memcached) Delete(ctx context.Context, key string) error {
-	return m.Client.Delete(key)
+	err := m.Client.Delete(key)
+	if err == memcache.ErrCacheMiss {
+		return nil
+	}
+	return err
 }
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return errors.Errorf("mget received %v keys but %v values", len(keys), len(values))
+	}
 	val_map, err := m.Client.GetMulti(keys)
 	if err != nil {
 		return err
@@ -76,6 +95,9 @@ func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mset(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return errors.Errorf("mset received %v keys but %v values", len(keys), len(values))
+	}
 	var wg sync.WaitGroup
 	wg.Add(len(keys))
 	err_chan := make(chan error, len(keys))
-- 
2.43.0


From 9a91448de3ffb1d9404aafe6c78f324b20358b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 39/79] fix: rabbitmq queue reports failed pushes and a closed
 connection

---
 runtime/plugins/rabbitmq/queue.go | 37 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/runtime/plugins/rabbitmq/queue.go b/runtime/plugins/rabbitmq/queue.go
index 1768eaa..d93a533 100644
--- a/runtime/plugins/rabbitmq/queue.go
+++ b/runtime/plugins/rabbitmq/queue.go
@@ -4,8 +4,8 @@ package rabbitmq
 import (
 	"context"
 	"encoding/json"
+	"errors"
 
-	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	amqp "github.com/rabbitmq/amqp091-go"
 )
 
@@ -26,14 +26,17 @@ func NewRabbitMQ(ctx context.Context, addr string, queue_name string) (*RabbitMQ
 	}
 	ch, err := conn.Channel()
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	q, err := ch.QueueDeclare(queue_name, false, false, false, false, nil)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	msgs, err := ch.Consume(q.Name, "", true, false, false, false, nil)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return &RabbitMQ{name: queue_name, conn: conn, ch: ch, queue: q, msgs: msgs}, nil
@@ -43,10 +46,12 @@ func getBytes(key interface{}) ([]byte, error) {
 	return json.Marshal(key)
 }
 
-func decodeBytes(val []byte) (interface{}, error) {
-	var res interface{}
-	err := json.Unmarshal(val, &res)
-	return res, err
+// Copies a received message to dst; open is false if no more messages can be received
+func decodeMessage(msg amqp.Delivery, open bool, dst interface{}) (bool, error) {
+	if !open {
+		return false, errors.New("connection to the queue was closed")
+	}
+	return true, json.Unmarshal(msg.Body, dst)
 }
 
 // Push implements backend.Queue
@@ -56,27 +61,23 @@ func (q *RabbitMQ) Push(ctx context.Context, item interface{}) (bool, error) {
 		return false, err
 	}
 	publish_msg := amqp.Publishing{ContentType: "text/plain", Body: raw_bytes}
-	return true, q.ch.Publish("", q.queue.Name, false, false, publish_msg)
+	err = q.ch.PublishWithContext(ctx, "", q.queue.Name, false, false, publish_msg)
+	if err != nil {
+		return false, err
+	}
+	return true, nil
 }
 
 // Pop implements backend.Queue
 func (q *RabbitMQ) Pop(ctx context.Context, dst interface{}) (bool, error) {
 	select {
-	case v := <-q.msgs:
-		val, err := decodeBytes(v.Body)
-		if err != nil {
-			return true, err
-		}
-		return true, backend.CopyResult(val, dst)
+	case v, open := <-q.msgs:
+		return decodeMessage(v, open, dst)
 	default:
 		{
 			select {
-			case v := <-q.msgs:
-				val, err := decodeBytes(v.Body)
-				if err != nil {
-					return true, err
-				}
-				return true, backend.CopyResult(val, dst)
+			case v, open := <-q.msgs:
+				return decodeMessage(v, open, dst)
 			case <-ctx.Done():
 				return false, nil
 			}
-- 
2.43.0


From 4e78828327bf8d8169265a2ad5ecb2f260e02498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 40/79] fix: sql databases honour the caller's context and do
 not leak connections

---
 runtime/plugins/mysql/reldb.go       | 9 ++-------
 runtime/plugins/sqlitereldb/reldb.go | 2 +-
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/runtime/plugins/mysql/reldb.go b/runtime/plugins/mysql/reldb.go
index 121def6..2e1de96 100644
--- a/runtime/plugins/mysql/reldb.go
+++ b/runtime/plugins/mysql/reldb.go
@@ -23,17 +23,12 @@ func NewMySqlDB(ctx context.Context, addr string, name string, username string,
 		return nil, err
 	}
 
+	_, err = db.ExecContext(ctx, "CREATE DATABASE IF NOT EXISTS "+name)
+	db.Close()
 	if err != nil {
 		return nil, err
 	}
 
-	_, err = db.Exec("CREATE DATABASE IF NOT EXISTS " + name)
-	if err != nil {
-		return nil, err
-	}
-
-	db.Close()
-
 	db, err = sqlx.Open("mysql", username+":"+password+"@tcp("+addr+")/"+name)
 	if err != nil {
 		return nil, err
diff --git a/runtime/plugins/sqlitereldb/reldb.go b/runtime/plugins/sqlitereldb/reldb.go
index 268728d..6a94e4f 100644
--- a/runtime/plugins/sqlitereldb/reldb.go
+++ b/runtime/plugins/sqlitereldb/reldb.go
@@ -46,7 +46,7 @@ func (s *SqliteRelDB) Get(ctx context.Context, dst interface{}, query string, ar
 
 // Prepare implements backend.RelationalDB.
 func (s *SqliteRelDB) Prepare(ctx context.Context, query string) (*sql.Stmt, error) {
-	return s.db.Prepare(query)
+	return s.db.PrepareContext(ctx, query)
 }
 
 // Select implements backend.RelationalDB.
-- 
2.43.0


From bd11679a3f912587cff70516364f3f2e5caa5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 41/79] fix: sqlite database instances do not share their
 contents

---
 runtime/plugins/sqlitereldb/reldb.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/sqlitereldb/reldb.go b/runtime/plugins/sqlitereldb/reldb.go
index 6a94e4f..b8a8f85 100644
--- a/runtime/plugins/sqlitereldb/reldb.go
+++ b/runtime/plugins/sqlitereldb/reldb.go
@@ -9,6 +9,8 @@ package sqlitereldb
 import (
 	"context"
 	"database/sql"
+	"fmt"
+	"sync/atomic"
 
 	"github.com/jmoiron/sqlx"
 
@@ -20,9 +22,13 @@ type SqliteRelDB struct {
 	db *sqlx.DB
 }
 
+// Connections share the in-memory database that has the same name, so instances need different names
+var instances atomic.Int64
+
 // Instantiates a new [SqliteRelDB] instance that stores query data in-memory
 func NewSqliteRelDB(ctx context.Context) (*SqliteRelDB, error) {
-	db, err := sqlx.Open("sqlite3", "file:foobar?mode=memory&cache=shared")
+	name := fmt.Sprintf("file:blueprint%d?mode=memory&cache=shared", instances.Add(1))
+	db, err := sqlx.Open("sqlite3", name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cac24a39ea43b453ee052a0cf328daa02f4b3cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 42/79] fix: mongodb results of FindMany can be read one at a
 time

---
 runtime/plugins/mongodb/nosqldb.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/mongodb/nosqldb.go b/runtime/plugins/mongodb/nosqldb.go
index b8dab45..0910d8a 100644
--- a/runtime/plugins/mongodb/nosqldb.go
+++ b/runtime/plugins/mongodb/nosqldb.go
@@ -153,9 +153,8 @@ func (mc *MongoCollection) UpdateMany(ctx context.Context, filter bson.D, update
 
 // Implements the [backend.NoSQLCollection] interface
 func (mc *MongoCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	update := bson.D{{"$set", document}}
-	opts := options.Update().SetUpsert(true)
-	result, err := mc.collection.UpdateOne(ctx, filter, update, opts)
+	opts := options.Replace().SetUpsert(true)
+	result, err := mc.collection.ReplaceOne(ctx, filter, document, opts)
 	if result == nil {
 		return false, err
 	} else {
@@ -201,6 +200,11 @@ func (mr *MongoCursor) One(ctx context.Context, obj interface{}) (bool, error) {
 		} else {
 			return false, v.Err()
 		}
+	case *mongo.Cursor:
+		if v.Next(ctx) {
+			return true, v.Decode(obj)
+		}
+		return false, v.Err()
 	default:
 		return false, errors.New("result has no decode method")
 	}
-- 
2.43.0


From 27ed03821264ba160c5d4eda6bb2ed20b8361e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 43/79] fix: simplenosqldb is safe for concurrent use and
 failed operations change nothing

---
 runtime/plugins/simplenosqldb/nosqldb.go | 120 +++++++++++++++++------
 1 file changed, 88 insertions(+), 32 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 86cfb1c..458903f 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
@@ -26,11 +27,13 @@ type (
 	// Only a small set of common basic filter and update operators are supported, but typically this is sufficient
 	// for most applications and enables writing service-level unit tests.
 	SimpleNoSQLDB struct {
+		mu          sync.Mutex
 		collections map[string]map[string]*SimpleCollection
 	}
 
 	SimpleCollection struct {
-		items []bson.D
+		mu    sync.RWMutex
+		items []bson.D // documents are never modified, only replaced
 	}
 
 	SimpleCursor struct {
@@ -46,6 +49,8 @@ func NewSimpleNoSQLDB(ctx context.Context) (*SimpleNoSQLDB, error) {
 }
 
 func (impl *SimpleNoSQLDB) GetCollection(ctx context.Context, db_name string, collection_name string) (backend.NoSQLCollection, error) {
+	impl.mu.Lock()
+	defer impl.mu.Unlock()
 	db, dbExists := impl.collections[db_name]
 	if !dbExists {
 		db = make(map[string]*SimpleCollection)
@@ -97,22 +102,18 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
-	d, isD := document.(bson.D)
-	if !isD {
-		var err error
-		d, err = toBson(document)
-		if err != nil {
-			return err
-		}
-	}
-	hasId := false
-	for _, e := range d {
-		if e.Key == "_id" {
-			hasId = true
-			break
-		}
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.insert(document)
+}
+
+// Inserts a copy of document.  The caller must hold db.mu
+func (db *SimpleCollection) insert(document interface{}) error {
+	d, err := toBson(document)
+	if err != nil {
+		return err
 	}
-	if !hasId {
+	if _, hasId := getId(d); !hasId {
 		d = append(bson.D{{"_id", primitive.NewObjectID()}}, d...)
 	}
 
@@ -138,6 +139,8 @@ func (db *SimpleCollection) FindOne(ctx context.Context, filter bson.D, projecti
 	if verbose {
 		fmt.Printf("---- FindOne\n%v\n", query)
 	}
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -168,6 +171,8 @@ func (db *SimpleCollection) FindMany(ctx context.Context, filter bson.D, project
 	if verbose {
 		fmt.Printf("---- FindMany\n%v\n", query)
 	}
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -189,6 +194,8 @@ func (db *SimpleCollection) DeleteOne(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	for i, item := range db.items {
 		if query.Apply(item) {
 			db.items = append(db.items[:i], db.items[i+1:]...)
@@ -203,6 +210,8 @@ func (db *SimpleCollection) DeleteMany(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	copyrangebegin := 0
 	newitems := make([]bson.D, 0, len(db.items))
 	for i, item := range db.items {
@@ -235,12 +244,17 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 		fmt.Printf("---- UpdateOne\n%v\n%v\n", filter, update)
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("MATCH: %v\n", db.items[i])
 			}
-			return 1, updateOp.Apply(&db.items[i])
+			if err := db.update(i, updateOp); err != nil {
+				return 0, err
+			}
+			return 1, nil
 		} else {
 			if verbose {
 				fmt.Printf("      %v\n", db.items[i])
@@ -265,13 +279,15 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 		fmt.Printf(" UPDATE: %v\n", updateOp)
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	updated := 0
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("UPDATING: %v\n", db.items[i])
 			}
-			err := updateOp.Apply(&db.items[i])
+			err := db.update(i, updateOp)
 			if err != nil {
 				return updated, err
 			}
@@ -288,12 +304,31 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 	return updated, nil
 }
 
+// Replaces item i with an updated copy, unless the update fails.  The caller must hold db.mu
+func (db *SimpleCollection) update(i int, updateOp query.Update) error {
+	updated, err := toBson(db.items[i])
+	if err != nil {
+		return err
+	}
+	if err := updateOp.Apply(&updated); err != nil {
+		return err
+	}
+	db.items[i] = updated
+	return nil
+}
+
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	updatedCount, err := db.ReplaceOne(ctx, filter, document)
-	if updatedCount == 1 || err != nil {
-		return true, err
+	query, err := query.ParseFilter(filter)
+	if err != nil {
+		return false, err
 	}
-	return false, db.InsertOne(ctx, document)
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	updatedCount, err := db.replace(query, document)
+	if updatedCount > 0 || err != nil {
+		return updatedCount > 0, err
+	}
+	return false, db.insert(document)
 }
 
 func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID, document interface{}) (bool, error) {
@@ -310,33 +345,52 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 	if err != nil {
 		return 0, err
 	}
-	for i, item := range db.items {
-		if query.Apply(item) {
-			db.items[i], err = toBson(replacement)
-			return 1, err
-		}
-	}
-	return 0, nil
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.replace(query, replacement)
 }
 
 func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.replace(query, replacements...)
+}
+
+// Replaces the first documents that match the filter with the replacements, which keep the ID of the
+// replaced document unless they have their own.  The caller must hold db.mu
+func (db *SimpleCollection) replace(filter query.Filter, replacements ...interface{}) (int, error) {
 	updateCount := 0
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
-		if query.Apply(db.items[i]) {
-			db.items[i], err = toBson(replacements[updateCount])
+		if filter.Apply(db.items[i]) {
+			d, err := toBson(replacements[updateCount])
 			if err != nil {
 				return updateCount, err
 			}
+			if _, hasId := getId(d); !hasId {
+				if id, exists := getId(db.items[i]); exists {
+					d = append(bson.D{id}, d...)
+				}
+			}
+			db.items[i] = d
 			updateCount++
 		}
 	}
 	return updateCount, nil
 }
 
+func getId(d bson.D) (bson.E, bool) {
+	for _, e := range d {
+		if e.Key == "_id" {
+			return e, true
+		}
+	}
+	return bson.E{}, false
+}
+
 func toBson(document any) (bson.D, error) {
 	bytes, err := bson.Marshal(document)
 	if err != nil {
@@ -356,6 +410,8 @@ func fromBson(d bson.D, dst any) error {
 }
 
 func (db *SimpleCollection) String() string {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	var strs []string
 	for i := range db.items {
 		strs = append(strs, fmt.Sprintf("%v", db.items[i]))
-- 
2.43.0


From 2abfe2c718efb04461ab02bbd30e2fee09a7168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 44/79] fix: negative array indices in simplenosqldb selectors
 do not panic

---
 runtime/plugins/simplenosqldb/query/filter.go | 2 +-
 runtime/plugins/simplenosqldb/query/update.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 1541147..71fb2b9 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -92,7 +92,7 @@ const (
 func Lookup(selector string, next Filter) Filter {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, err := strconv.Atoi(splits[i]); err == nil && j >= 0 {
 			next = Index(j, next)
 		} else {
 			next = Select(splits[i], next)
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 74aa2cd..7254051 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -112,7 +112,7 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 func UpdatePath(selector string, update Update) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, err := strconv.Atoi(splits[i]); err == nil && j >= 0 {
 			update = UpdateIndex(j, update, true)
 		} else {
 			update = UpdateField(splits[i], update, true)
@@ -128,14 +128,14 @@ func UnsetPath(selector string) Update {
 	splits := strings.Split(selector, ".")
 
 	var update Update
-	if i, err := strconv.Atoi(splits[len(splits)-1]); err == nil {
+	if i, err := strconv.Atoi(splits[len(splits)-1]); err == nil && i >= 0 {
 		update = UnsetElement(i)
 	} else {
 		update = UnsetField(splits[len(splits)-1])
 	}
 
 	for i := len(splits) - 2; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, err := strconv.Atoi(splits[i]); err == nil && j >= 0 {
 			update = UpdateIndex(j, update, false)
 		} else {
 			update = UpdateField(splits[i], update, false)
-- 
2.43.0


From bb26fa4214a6843ef41ef2818d7217a2cdf4c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 45/79] fix: simplenosqldb updates of array elements and large
 counters keep data

---
 runtime/plugins/simplenosqldb/query/update.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 7254051..c63cb55 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -181,9 +181,7 @@ func (s *set) Apply(itemRef any) error {
 		return errors.Errorf("set unable to apply update to non-interface type %v", reflect.TypeOf(dst_val))
 	}
 
-	dst_val.Set(reflect.ValueOf(v))
-
-	return nil
+	return backend.CopyResult(v, itemRef)
 }
 
 func (p *push) Apply(itemRef any) error {
@@ -333,7 +331,11 @@ func (i *incint) Apply(itemRef any) error {
 	case int64:
 		return backend.CopyResult(v+i.amount, itemRef)
 	case int32:
-		return backend.CopyResult(v+int32(i.amount), itemRef)
+		sum := int64(v) + i.amount
+		if sum != int64(int32(sum)) {
+			return backend.CopyResult(sum, itemRef)
+		}
+		return backend.CopyResult(int32(sum), itemRef)
 	case int16:
 		return backend.CopyResult(v+int16(i.amount), itemRef)
 	case int8:
@@ -401,12 +403,9 @@ func (s *updateindex) Apply(itemRef any) error {
 	if !s.createIfAbsent && len(v) <= s.index {
 		return nil
 	}
-	if cap(v) <= s.index {
-		newv := make(bson.A, 0, s.index+1)
-		newv = append(newv, v...)
-		v = newv
+	for len(v) <= s.index {
+		v = append(v, nil)
 	}
-	v = v[:s.index+1]
 
 	// Update at the specified index and copy back to ptr
 	err = s.update.Apply(&v[s.index])
-- 
2.43.0


From 5e27758d93f6125bd90cc8d84251261bc75f07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 46/79] fix: simplenosqldb $exists and array filters select the
 documents they describe

---
 runtime/plugins/simplenosqldb/query/filter.go   | 17 +++++++++++++++++
 .../plugins/simplenosqldb/query/parsefilter.go  |  5 ++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 71fb2b9..230aa61 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -64,6 +64,10 @@ type (
 
 	exists struct{}
 
+	length struct {
+		n int
+	}
+
 	exactFieldMatch struct {
 		fields map[string]struct{}
 	}
@@ -164,6 +168,10 @@ func Exists() Filter {
 	return &exists{}
 }
 
+func Length(n int) Filter {
+	return &length{n: n}
+}
+
 func ExactFieldMatch(fieldsSeen ...string) Filter {
 	lookup := make(map[string]struct{})
 	for _, fieldName := range fieldsSeen {
@@ -282,6 +290,11 @@ func (f *exists) Apply(item any) bool {
 	return true
 }
 
+func (f *length) Apply(item any) bool {
+	a, isA := item.(bson.A)
+	return isA && len(a) == f.n
+}
+
 func (f *exactFieldMatch) Apply(item any) bool {
 	d, isD := item.(bson.D)
 	if !isD {
@@ -406,6 +419,10 @@ func (f *exists) String() string {
 	return "exists"
 }
 
+func (f *length) String() string {
+	return fmt.Sprintf("length %v", f.n)
+}
+
 func (f *regex) String() string {
 	return fmt.Sprintf("regex(%v)", f.re.String())
 }
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 8052384..6d0f04f 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -100,7 +100,7 @@ func parseValue(value any) (Filter, error) {
 
 func parseArrayValues(a bson.A) (Filter, error) {
 	/* All elements of the array must match exactly */
-	var arrayFilters []Filter
+	arrayFilters := []Filter{Length(len(a))}
 	for i := range a {
 		switch v := a[i].(type) {
 		case bson.D:
@@ -119,7 +119,6 @@ func parseArrayValues(a bson.A) (Filter, error) {
 				}
 				arrayFilters = append(arrayFilters, Index(i, filter))
 			}
-			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.A found in %v", v)
 		case bson.E:
 			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.E found in %v", v)
 		case bson.M:
@@ -306,7 +305,7 @@ func parseExistsOperators(key string, d bson.D) (Filter, error) {
 		if e.Key == "$exists" {
 			if v, isBool := e.Value.(bool); isBool {
 				if !v {
-					return Not(Lookup(e.Key, Exists())), nil
+					return Not(Lookup(key, Exists())), nil
 				} else {
 					return nil, nil
 				}
-- 
2.43.0


From 81614126c38568492283edf49ec96dc10016509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 47/79] fix: simplenosqldb compares integers with floating
 point fields

---
 runtime/plugins/simplenosqldb/query/filter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 230aa61..b958bc9 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -242,6 +242,8 @@ func (f *cmpInt) Apply(item any) bool {
 		case Lte:
 			return v <= f.value
 		}
+	} else if _, isFloat := floatValue(item); isFloat {
+		return CmpFloat(float64(f.value), f.cmp).Apply(item)
 	}
 	return false
 }
-- 
2.43.0


From c7aa2f68c0bd9f75fc837da2146c203acb365bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 48/79] fix: simplenosqldb value operators follow mongodb for
 missing and array fields

---
 .../simplenosqldb/query/parsefilter.go        | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 6d0f04f..d65cfa7 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -25,6 +25,9 @@ func init() {
 }
 
 func parseQueries(a bson.A) ([]Filter, error) {
+	if len(a) == 0 {
+		return nil, errors.Errorf("invalid query; logical operators need at least one query")
+	}
 	var filters []Filter
 	for _, v := range a {
 		d, isD := v.(bson.D)
@@ -174,8 +177,7 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 			}
 
 			// We have regular value operators
-			filter, err := parseValueOperators(v)
-			return Lookup(e.Key, Broadcast(filter)), err
+			return parseValueOperators(e.Key, v)
 		}
 	case bson.A:
 		{
@@ -320,14 +322,27 @@ func parseExistsOperators(key string, d bson.D) (Filter, error) {
 /*
 Parses a value that has some operators in it
 */
-func parseValueOperators(d bson.D) (Filter, error) {
+func parseValueOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
-
+		if e.Key == "$exists" {
+			// Only $exists: true gets here
+			filters = append(filters, Lookup(key, Exists()))
+			continue
+		}
+		isNe := e.Key == "$ne"
+		if isNe {
+			e.Key = "$eq"
+		}
 		filter, err := parseValueOperator(e)
 		if err != nil {
 			return nil, err
 		}
+		filter = Lookup(key, Broadcast(filter))
+		if isNe {
+			// Also matches if the field doesn't exist, but not if an array contains the value
+			filter = Not(filter)
+		}
 		filters = append(filters, filter)
 	}
 	return And(filters...), nil
@@ -342,11 +357,6 @@ func parseValueOperator(e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$eq":
 		return parseValue(e.Value)
-	case "$ne":
-		{
-			f, err := parseValue(e.Value)
-			return Not(f), err
-		}
 	case "$in":
 		{
 			v := reflect.ValueOf(e.Value)
-- 
2.43.0


From 57f58dc079b806c0156e85dd28e3c48b0c3053a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 49/79] fix: simplenosqldb filters match values of any type
 that can be stored

---
 runtime/plugins/simplenosqldb/query/filter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index b958bc9..a587012 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -121,6 +121,13 @@ func Broadcast(next Filter) Filter {
 }
 
 func Equals(value any) Filter {
+	// Stored documents contain BSON values
+	if t, bytes, err := bson.MarshalValue(value); err == nil {
+		var v any
+		if err := bson.UnmarshalValue(t, bytes, &v); err == nil {
+			value = v
+		}
+	}
 	if i, isInt := intValue(value); isInt {
 		return CmpInt(i, Eq)
 	} else if f, isFloat := floatValue(value); isFloat {
-- 
2.43.0


From 2f9b18f5f84d0ac7fd66e70c1dd91c447d998cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 50/79] fix: log messages keep their priority

---
 runtime/core/backend/log.go    | 13 ++++++++++++-
 runtime/plugins/slogger/log.go | 11 ++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/runtime/core/backend/log.go b/runtime/core/backend/log.go
index de8edd3..34f848a 100644
--- a/runtime/core/backend/log.go
+++ b/runtime/core/backend/log.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"context"
+	"fmt"
 	"log"
 )
 
@@ -17,7 +18,17 @@ const (
 
 // String representation for Priority enum
 func (p Priority) String() string {
-	return [...]string{"DEBUG", "INFO", "WARN", "ERROR"}[p]
+	switch p {
+	case DEBUG:
+		return "DEBUG"
+	case INFO:
+		return "INFO"
+	case WARN:
+		return "WARN"
+	case ERROR:
+		return "ERROR"
+	}
+	return fmt.Sprintf("Priority(%d)", int(p))
 }
 
 type LogOptions struct {
diff --git a/runtime/plugins/slogger/log.go b/runtime/plugins/slogger/log.go
index 46b8ff0..6185787 100644
--- a/runtime/plugins/slogger/log.go
+++ b/runtime/plugins/slogger/log.go
@@ -38,7 +38,16 @@ func (l *SLogger) Error(ctx context.Context, format string, args ...any) (contex
 // Implements backend.Logger
 func (l *SLogger) Logf(ctx context.Context, opts backend.LogOptions, format string, args ...any) (context.Context, error) {
 	msg := fmt.Sprintf(format, args...)
-	slog.Log(ctx, slog.Level(opts.Level), msg)
+	level := slog.LevelInfo
+	switch opts.Level {
+	case backend.DEBUG:
+		level = slog.LevelDebug
+	case backend.WARN:
+		level = slog.LevelWarn
+	case backend.ERROR:
+		level = slog.LevelError
+	}
+	slog.Log(ctx, level, msg)
 	return ctx, nil
 }
 
-- 
2.43.0


From 765f73d934ddb637653a0b02cfbac2fb6ba5cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 51/79] fix: service registry keeps an earlier default and
 builds its client once

---
 runtime/core/registry/registry.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/core/registry/registry.go b/runtime/core/registry/registry.go
index 8977373..9b46324 100644
--- a/runtime/core/registry/registry.go
+++ b/runtime/core/registry/registry.go
@@ -9,6 +9,7 @@ package registry
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/pkg/errors"
 	"golang.org/x/exp/slog"
@@ -22,6 +23,7 @@ type ServiceRegistry[T any] struct {
 	isBuilt          bool
 	built            T
 	buildError       error
+	mu               sync.Mutex
 }
 
 func NewServiceRegistry[T any](name string) *ServiceRegistry[T] {
@@ -33,12 +35,16 @@ func NewServiceRegistry[T any](name string) *ServiceRegistry[T] {
 }
 
 func (r *ServiceRegistry[T]) SetDefault(name string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.defaultBuildFunc = name
 }
 
 func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Context) (T, error)) {
 	slog.Info(fmt.Sprintf("ServiceRegistry \"%v\" added client \"%v\"", r.name, name))
-	if len(r.registered) == 0 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.defaultBuildFunc == "" {
 		r.defaultBuildFunc = name
 	}
 	r.registered[name] = build
@@ -48,6 +54,8 @@ func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Contex
 // then the client will be built.  The client and any build error is cached,
 // and will be returned by any subsequent calls to Get
 func (r *ServiceRegistry[T]) Get(ctx context.Context) (T, error) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	if r.isBuilt {
 		return r.built, r.buildError
 	}
-- 
2.43.0


From 1fa4eaeb6f03b2171d569975be8bf480e38542ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 52/79] fix: workloads reject negative proportions and
 throughputs

---
 runtime/core/workload/engine.go   | 3 +++
 runtime/core/workload/workload.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/core/workload/engine.go b/runtime/core/workload/engine.go
index b660689..1fab8b3 100644
--- a/runtime/core/workload/engine.go
+++ b/runtime/core/workload/engine.go
@@ -30,6 +30,9 @@ func NewEngine(outfile string, tput int64, duration string, w *Workload) (*Engin
 	if err != nil {
 		return nil, err
 	}
+	if tput <= 0 {
+		return nil, errors.New("Target throughput must be positive")
+	}
 	isValid := w.IsValid()
 	if !isValid {
 		return nil, errors.New("Workload is not valid")
diff --git a/runtime/core/workload/workload.go b/runtime/core/workload/workload.go
index 29ffc00..1fbcf6b 100644
--- a/runtime/core/workload/workload.go
+++ b/runtime/core/workload/workload.go
@@ -58,10 +58,13 @@ func (w *Workload) AddAPI(name string, fn RequestFunction, proportion int) error
 
 // IsValid checks if the configured workload is valid or not.
 // Validity Conditions:
-//   - The proportions of all APIs should sum to 100
+//   - The proportions of all APIs should sum to 100 and none can be negative
 func (w *Workload) IsValid() bool {
 	total := 0
 	for _, api := range w.ApiInfos {
+		if api.Proportion < 0 {
+			return false
+		}
 		total += api.Proportion
 	}
 	if total == 100 {
-- 
2.43.0


From d0476e56c00fa8c7681534e91779d1c494ae0874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 53/79] fix: concurrent gets of a namespace node build it once

---
 runtime/plugins/golang/namespace.go | 39 +++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 3115a79..38299a8 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -81,7 +81,8 @@ type NamespaceBuilder struct {
 type Namespace struct {
 	name       string
 	buildFuncs map[string]BuildFunc
-	built      map[string]any
+	built      map[string]*builtNode
+	mu         sync.Mutex // protects built
 
 	ctx    context.Context
 	cancel context.CancelFunc
@@ -90,6 +91,13 @@ type Namespace struct {
 	parent *Namespace
 }
 
+// A node that might have been built; concurrent calls to [Namespace.Get] build it only once
+type builtNode struct {
+	mu    sync.Mutex
+	built bool
+	node  any
+}
+
 type argNode struct {
 	name        string
 	description string
@@ -225,7 +233,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	n.name = b.name
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
-	n.built = make(map[string]any)
+	n.built = make(map[string]*builtNode)
 	n.ctx, n.cancel = context.WithCancel(ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -273,7 +281,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	n.parent = parent
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
-	n.built = make(map[string]any)
+	n.built = make(map[string]*builtNode)
 	n.ctx, n.cancel = context.WithCancel(parent.ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -355,9 +363,6 @@ func (b *NamespaceBuilder) checkRequired(parent *Namespace) error {
 
 // Reports whether the namespace has a definition for name
 func (n *Namespace) has(name string) bool {
-	if _, isBuilt := n.built[name]; isBuilt {
-		return true
-	}
 	if _, hasDef := n.buildFuncs[name]; hasDef {
 		return true
 	}
@@ -367,13 +372,27 @@ func (n *Namespace) has(name string) bool {
 	return false
 }
 
+func (n *Namespace) getBuiltNode(name string) *builtNode {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	node, exists := n.built[name]
+	if !exists {
+		node = &builtNode{}
+		n.built[name] = node
+	}
+	return node
+}
+
 // Gets a node from this namespace.  If the node hasn't been built yet,
 // it will be built.
 func (n *Namespace) Get(name string, receiver any) error {
-	if existing, exists := n.built[name]; exists {
-		return backend.CopyResult(existing, receiver)
-	}
 	if build, exists := n.buildFuncs[name]; exists {
+		existing := n.getBuiltNode(name)
+		existing.mu.Lock()
+		defer existing.mu.Unlock()
+		if existing.built {
+			return backend.CopyResult(existing.node, receiver)
+		}
 		built, err := build(n)
 		if err != nil {
 			slog.Error(fmt.Sprintf("%v error building %v", n.name, name))
@@ -386,7 +405,7 @@ func (n *Namespace) Get(name string, receiver any) error {
 				slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
 			}
 		}
-		n.built[name] = built
+		existing.node, existing.built = built, true
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-- 
2.43.0


From efefbba702bf83baab36c9133e35ff91fa71d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 54/79] fix: a namespace that cannot be built stops the nodes
 it started

---
 runtime/plugins/golang/namespace.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 38299a8..0d2c040 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -241,6 +241,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			n.cancel() // stops any nodes that are already running
 			return nil, err
 		}
 	}
@@ -289,6 +290,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			n.cancel() // stops any nodes that are already running
 			return nil, err
 		}
 	}
-- 
2.43.0


From b8498a5321836acf8c56e036fdcc7b01c747a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 55/79] fix: a namespace awaits the nodes of all its
 descendants

---
 runtime/plugins/golang/namespace.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 0d2c040..84ca095 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -411,9 +411,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-			n.wg.Add(1)
-			if n.parent != nil {
-				n.parent.wg.Add(1)
+			for ns := n; ns != nil; ns = ns.parent {
+				ns.wg.Add(1)
 			}
 			go func() {
 				err := runnable.Run(n.ctx)
@@ -423,9 +422,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 				} else {
 					slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
 				}
-				n.wg.Done()
-				if n.parent != nil {
-					n.parent.wg.Done()
+				for ns := n; ns != nil; ns = ns.parent {
+					ns.wg.Done()
 				}
 			}()
 		}
-- 
2.43.0


From 5ced8658413909a40135e946b71f4a36c18bd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 56/79] fix: $elemMatch matches only elements of arrays

---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index d65cfa7..e8469d8 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -293,7 +293,7 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return Broadcast(filter), err
+			return ElemMatch(filter), err
 		}
 	case "$size":
 	}
-- 
2.43.0


From ab612e2b1f2c62adbe0bd5effd05430b5e6e7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 57/79] fix: operators compare whole arrays too, not only their
 elements

---
 runtime/plugins/simplenosqldb/query/filter.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index a587012..bd32cc8 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -225,10 +225,8 @@ func (f *broadcast) Apply(item any) bool {
 				return true
 			}
 		}
-		return false
-	} else {
-		return f.next.Apply(item)
 	}
+	return f.next.Apply(item) // a condition can also hold for an array as a whole
 }
 
 func (f *equals) Apply(item any) bool {
-- 
2.43.0


From edda8c500f2253f1919297eca0e8db7580f9f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 58/79] fix: $exists: false does not make a filter ignore its
 other operators

---
 .../simplenosqldb/query/parsefilter.go        | 35 +++++--------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index e8469d8..240208f 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -171,11 +171,6 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 				return Lookup(e.Key, filter), err
 			}
 
-			// $exists: false is a special case
-			if filter, err := parseExistsOperators(e.Key, v); err != nil || filter != nil {
-				return filter, err
-			}
-
 			// We have regular value operators
 			return parseValueOperators(e.Key, v)
 		}
@@ -300,25 +295,6 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 	return nil, nil
 }
 
-// $exists: false is a special case that can also ignore all other operators
-// This only returns a filter for $exists: false; not $exists: true
-func parseExistsOperators(key string, d bson.D) (Filter, error) {
-	for _, e := range d {
-		if e.Key == "$exists" {
-			if v, isBool := e.Value.(bool); isBool {
-				if !v {
-					return Not(Lookup(key, Exists())), nil
-				} else {
-					return nil, nil
-				}
-			} else {
-				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
-			}
-		}
-	}
-	return nil, nil
-}
-
 /*
 Parses a value that has some operators in it
 */
@@ -326,8 +302,15 @@ func parseValueOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
 		if e.Key == "$exists" {
-			// Only $exists: true gets here
-			filters = append(filters, Lookup(key, Exists()))
+			exists, isBool := e.Value.(bool)
+			if !isBool {
+				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
+			}
+			if exists {
+				filters = append(filters, Lookup(key, Exists()))
+			} else {
+				filters = append(filters, Not(Lookup(key, Exists())))
+			}
 			continue
 		}
 		isNe := e.Key == "$ne"
-- 
2.43.0


From 0eea268aad02446e5d75c121b277e6208ad40333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 59/79] fix: $pull does not create the field that it is to
 remove elements from

---
 runtime/plugins/simplenosqldb/query/parseupdate.go | 2 +-
 runtime/plugins/simplenosqldb/query/update.go      | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 7541c3a..f957a1e 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -206,7 +206,7 @@ func parsePull(args any) ([]Update, error) {
 		if err != nil {
 			return nil, err
 		}
-		updates = append(updates, UpdatePath(e.Key, update))
+		updates = append(updates, updatePath(e.Key, update, false))
 	}
 	return updates, nil
 }
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index c63cb55..3f80287 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -110,12 +110,16 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 }
 
 func UpdatePath(selector string, update Update) Update {
+	return updatePath(selector, update, true)
+}
+
+func updatePath(selector string, update Update, createIfAbsent bool) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
 		if j, err := strconv.Atoi(splits[i]); err == nil && j >= 0 {
-			update = UpdateIndex(j, update, true)
+			update = UpdateIndex(j, update, createIfAbsent)
 		} else {
-			update = UpdateField(splits[i], update, true)
+			update = UpdateField(splits[i], update, createIfAbsent)
 			if i != 0 {
 				update = BroadcastUpdate(update) // broadcast in case the field is an array type
 			}
-- 
2.43.0


From 8286bf1ca19a543cf7bf41ce427f0bc5980cf4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 60/79] fix: $addToSet compares numbers by value, not by type

---
 runtime/plugins/simplenosqldb/query/update.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 3f80287..7ac826c 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -235,8 +235,9 @@ func (p *addtoset) Apply(itemRef any) error {
 	}
 
 	// Check if it exists
+	exists := Equals(v)
 	for i := range a {
-		if reflect.DeepEqual(v, a[i]) {
+		if exists.Apply(a[i]) {
 			return nil
 		}
 	}
-- 
2.43.0


From 5977f1fa726fa8d89522dfe682c42c1ea985549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 61/79] fix: create a generated module in the unused directory
 found for it

---
 plugins/golang/gogen/workspacebuilder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 3fc6cfc..4849252 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -79,16 +79,16 @@ func (workspace *WorkspaceBuilderImpl) CreateModule(moduleName string, moduleVer
 	}
 
 	// Create output directory
-	moduleDir := filepath.Join(workspace.WorkspaceDir, moduleShortName)
+	moduleDir := filepath.Join(workspace.WorkspaceDir, moduleSubDir)
 	err := ioutil.CheckDir(moduleDir, true)
 	if err != nil {
 		return "", blueprint.Errorf("cannot generate new module %s due to %s", moduleShortName, err.Error())
 	}
 
 	// Save the module
-	workspace.Modules[moduleShortName] = moduleName
-	workspace.ModuleDirs[moduleName] = moduleShortName
-	workspace.GeneratedModules[moduleShortName] = moduleName
+	workspace.Modules[moduleSubDir] = moduleName
+	workspace.ModuleDirs[moduleName] = moduleSubDir
+	workspace.GeneratedModules[moduleSubDir] = moduleName
 
 	// Create the go.mod file
 	modfileContents := fmt.Sprintf("module %v\n\ngo 1.25", moduleName)
-- 
2.43.0


From cf86ccfe6829d12546163430f196e497febc304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 62/79] fix: truncate generated files before writing them

---
 plugins/dockercompose/dockergen/template.go | 2 +-
 plugins/golang/gogen/template.go            | 2 +-
 plugins/grpc/grpccodegen/marshallgen.go     | 3 ++-
 plugins/grpc/grpccodegen/protogen.go        | 3 ++-
 plugins/kubernetes/kubetemplate/template.go | 2 +-
 plugins/linuxcontainer/linuxgen/template.go | 2 +-
 6 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/plugins/dockercompose/dockergen/template.go b/plugins/dockercompose/dockergen/template.go
index 679884a..33626a8 100644
--- a/plugins/dockercompose/dockergen/template.go
+++ b/plugins/dockercompose/dockergen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index 842e23c..7148443 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -44,7 +44,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 //
 // [gogen/template.go]: https://github.com/Blueprint-uServices/blueprint/tree/main/plugins/golang/gogen/template.go
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 1d3c0e4..1c22e75 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -98,10 +98,11 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	args := &marshallArgs{}
 	args.gRPCProtoBuilder = *b
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 3f73911..86272cc 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -181,10 +181,11 @@ func (b *gRPCProtoBuilder) WriteProtoFile(outputFilePath string) error {
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	return t.Execute(f, b)
 
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index dd2424f..29b7431 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -14,7 +14,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 650080d..5ce874c 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 023a6fa34cc661243b7b20b1740b8bd7a4c8e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:42 +0000
Subject: [PATCH 63/79] fix: add every local module of a service to the
 workspace, not just the first

---
 plugins/golang/helpers.go                | 5 +++--
 plugins/workflow/workflowspec/service.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/plugins/golang/helpers.go b/plugins/golang/helpers.go
index 56711e8..ff34c4c 100644
--- a/plugins/golang/helpers.go
+++ b/plugins/golang/helpers.go
@@ -101,8 +101,9 @@ func AddToWorkspace(builder WorkspaceBuilder, mods ...*goparser.ParsedModule) er
 	for _, mod := range mods {
 		if mod.IsLocal {
 			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
-				return err
+				if _, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir); err != nil {
+					return err
+				}
 			}
 		}
 	}
diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index f4b6342..56893e5 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -46,8 +46,9 @@ func (s *Service) AddToWorkspace(builder golang.WorkspaceBuilder) error {
 	for _, mod := range s.Modules() {
 		if mod.IsLocal {
 			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
-				return err
+				if _, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir); err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 4a70ea1c301ec6594376e5c028309dab14ff4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 64/79] fix: refuse a -port past 65535 instead of using another
 port

---
 plugins/cmdbuilder/cmdbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugins/cmdbuilder/cmdbuilder.go b/plugins/cmdbuilder/cmdbuilder.go
index 46818ef..faa0e4b 100644
--- a/plugins/cmdbuilder/cmdbuilder.go
+++ b/plugins/cmdbuilder/cmdbuilder.go
@@ -56,6 +56,7 @@ package cmdbuilder
 import (
 	"flag"
 	"fmt"
+	"math"
 	"os"
 	"sort"
 	"strings"
@@ -163,6 +164,11 @@ func (b *CmdBuilder) ParseArgs() {
 
 	flag.Parse()
 
+	if *port > math.MaxUint16 {
+		slog.Error(fmt.Sprintf("invalid port %v, expected at most %v", *port, math.MaxUint16))
+		os.Exit(1)
+	}
+
 	b.OutputDir = *output_dir
 	b.Quiet = *quiet
 	b.SpecName = *spec_name
-- 
2.43.0


From 92e899b2315193eb8f4a5c2edf9e755297756876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 65/79] fix: read every name of a struct's field declaration

---
 plugins/golang/goparser/parser.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 739adac..b89e402 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -571,20 +571,30 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 					f.Package.Structs[struc.Name] = struc
 
 					if t.Fields != nil {
-						for i, fieldDecl := range t.Fields.List {
+						addField := func(fieldDecl *ast.Field) *ParsedField {
 							field := &ParsedField{}
-							if fieldDecl.Names != nil {
-								field.Name = fieldDecl.Names[0].Name
+							field.Position = len(struc.FieldsList)
+							field.Struct = struc
+							field.Ast = fieldDecl
+							struc.FieldsList = append(struc.FieldsList, field)
+							return field
+						}
+						for _, fieldDecl := range t.Fields.List {
+							// A declaration can have several names, e.g. A, B int
+							for _, name := range fieldDecl.Names {
+								field := addField(fieldDecl)
+								field.Name = name.Name
 								struc.Fields[field.Name] = field
-							} else if struc.PromotedField == nil {
+							}
+							if len(fieldDecl.Names) > 0 {
+								continue
+							}
+							field := addField(fieldDecl)
+							if struc.PromotedField == nil {
 								struc.PromotedField = field
 							} else {
 								struc.AnonymousFields = append(struc.AnonymousFields, field)
 							}
-							field.Position = i
-							field.Struct = struc
-							field.Ast = fieldDecl
-							struc.FieldsList = append(struc.FieldsList, field)
 						}
 					}
 				}
-- 
2.43.0


From 4137703cb6deef251b8bd09ce7224fcb7e93e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 66/79] fix: methods of a type that is no struct do not end the
 reading of a package

---
 plugins/golang/goparser/parser.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index b89e402..19bdb23 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -675,10 +675,6 @@ func (f *ParsedFile) LoadFuncs() error {
 					{
 						receiverName = pointerReceiverType.Name
 					}
-				default:
-					{
-						return blueprint.Errorf("unable to parse receiver type of function %v", fun.Name)
-					}
 				}
 			}
 		case *ast.Ident:
@@ -688,12 +684,11 @@ func (f *ParsedFile) LoadFuncs() error {
 			}
 		}
 
-		// Associate the func with the receiver struct
-		struc, exists := f.Package.Structs[receiverName]
-		if !exists {
-			return blueprint.Errorf("function declared for receiver %v that does not exist in package", receiverName)
+		// Associate the func with the receiver struct.  Types that are not structs can
+		// have methods too; those aren't of interest, and neither are generic types.
+		if struc, exists := f.Package.Structs[receiverName]; exists {
+			struc.Methods[fun.Name] = fun
 		}
-		struc.Methods[fun.Name] = fun
 	}
 
 	return nil
-- 
2.43.0


From 45db06bccc41137ae0af115f2df16ff9eb0b86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 67/79] fix: a workflow package that does not exist is an error

---
 plugins/workflow/workflowspec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/workflow/workflowspec/spec.go b/plugins/workflow/workflowspec/spec.go
index 28d87c7..098a124 100644
--- a/plugins/workflow/workflowspec/spec.go
+++ b/plugins/workflow/workflowspec/spec.go
@@ -74,7 +74,7 @@ func (spec *WorkflowSpec) get(pkgName, name string, modInfo *goparser.ModuleInfo
 	// Find the package within the module
 	pkg, pkgExists := mod.Packages[pkgName]
 	if !pkgExists {
-		return nil, err
+		return nil, blueprint.Errorf("unable to find package %v in module %v of workflow spec", pkgName, modInfo.Path)
 	}
 
 	// Return either the interface or struct definition
-- 
2.43.0


From d21dea1174870f7828dcce43da74640a3a792d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:50 +0000
Subject: [PATCH 68/79] fix: do not choose a constructor that generated code
 cannot call

---
 plugins/workflow/workflowspec/service.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 56893e5..2d01153 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -2,7 +2,9 @@ package workflowspec
 
 import (
 	"fmt"
+	"go/ast"
 	"reflect"
+	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
@@ -242,8 +244,13 @@ func (spec *WorkflowSpec) findConstructorsOfStruct(struc *goparser.ParsedStruct)
 Currently Blueprint is strict about the method signatures of constructors:
   - the first argument must be context.Context
   - the final retval must be error
+  - it must be possible for generated code to call it
 */
 func validateConstructorSignature(f *goparser.ParsedFunc) error {
+	if !ast.IsExported(f.Name) || strings.HasSuffix(f.File.Name, "_test.go") {
+		return blueprint.Errorf("%v can not be called from outside of its package", f.Func)
+	}
+
 	if len(f.Returns) == 0 {
 		return blueprint.Errorf("%v has no return values", f.Func)
 	}
-- 
2.43.0


From 294ccb9aad92622fdc125baec2aee680dff5a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 69/79] fix: a declared type hides the builtin type of the same
 name

---
 plugins/golang/goparser/parser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 19bdb23..3068b79 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -377,21 +377,22 @@ An ident can be:
   - a generic type from a struct or func's type params
 */
 func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.TypeName {
-	if gocode.IsBasicType(name) {
-		return &gocode.BasicType{Name: name}
-	}
-
-	if name == "any" {
-		return &gocode.AnyType{}
+	if slices.Contains(typeParams, name) {
+		return &gocode.GenericTypeParam{ParamName: name}
 	}
 
+	// A type of the package can have the name of a builtin type
 	local, isLocalType := f.Package.DeclaredTypes[name]
 	if isLocalType {
 		return &local
 	}
 
-	if slices.Contains(typeParams, name) {
-		return &gocode.GenericTypeParam{ParamName: name}
+	if gocode.IsBasicType(name) {
+		return &gocode.BasicType{Name: name}
+	}
+
+	if name == "any" {
+		return &gocode.AnyType{}
 	}
 
 	if len(f.AnonymousImports) == 1 {
-- 
2.43.0


From 85420c14e9c0097dc70bce7bbfded8d25993946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 70/79] fix: comparing generic types that were read from source
 does not panic

---
 plugins/golang/gocode/typename.go | 3 +++
 plugins/golang/goparser/parser.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index bd352c6..f12ea7d 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -478,6 +478,9 @@ func (t *GenericType) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
+	if t.TypeParam == nil || t2.TypeParam == nil {
+		return false // TODO: matching of multiple type parameters not implemented yet
+	}
 	return t.BaseType.Equals(t2.BaseType) && t.TypeParam.Equals(t2.TypeParam)
 }
 
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 3068b79..3413824 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -454,7 +454,7 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 	case *ast.StructType:
 		return &gocode.StructType{}
 	case *ast.IndexExpr:
-		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
+		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...), TypeParam: f.ResolveType(e.Index, typeParams...)}
 	case *ast.IndexListExpr:
 		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
 	default:
-- 
2.43.0


From eef8bab311d61a66fdd61b3c9ac25da5e96ca383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 71/79] fix: do not choose a constructor that has type
 parameters

---
 plugins/workflow/workflowspec/service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 2d01153..1c4e666 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -251,6 +251,10 @@ func validateConstructorSignature(f *goparser.ParsedFunc) error {
 		return blueprint.Errorf("%v can not be called from outside of its package", f.Func)
 	}
 
+	if f.Ast.TypeParams != nil {
+		return blueprint.Errorf("%v has type parameters", f.Func)
+	}
+
 	if len(f.Returns) == 0 {
 		return blueprint.Errorf("%v has no return values", f.Func)
 	}
-- 
2.43.0


From dbbca47d9828e02afee23dc108c6fab0390e6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 72/79] fix: comparing a type that could not be resolved does
 not panic

---
 plugins/golang/gocode/typename.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index f12ea7d..27d3b3a 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -339,6 +339,11 @@ func (t *StructType) IsTypeName()       {}
 func (t *GenericType) IsTypeName()      {}
 func (t *GenericTypeParam) IsTypeName() {}
 
+// A type that could not be resolved (nil) does not equal any other type
+func equals(t1, t2 TypeName) bool {
+	return t1 != nil && t2 != nil && t1.Equals(t2)
+}
+
 func (t *BasicType) Equals(other TypeName) bool {
 	if t == nil || other == nil {
 		return false
@@ -369,7 +374,7 @@ func (t *Slice) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.SliceOf.Equals(t2.SliceOf)
+	return equals(t.SliceOf, t2.SliceOf)
 }
 
 func (t *Ellipsis) Equals(other TypeName) bool {
@@ -380,7 +385,7 @@ func (t *Ellipsis) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.EllipsisOf.Equals(t2.EllipsisOf)
+	return equals(t.EllipsisOf, t2.EllipsisOf)
 }
 
 func (t *Pointer) Equals(other TypeName) bool {
@@ -391,7 +396,7 @@ func (t *Pointer) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.PointerTo.Equals(t2.PointerTo)
+	return equals(t.PointerTo, t2.PointerTo)
 }
 
 func (t *Map) Equals(other TypeName) bool {
@@ -402,7 +407,7 @@ func (t *Map) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.KeyType.Equals(t2.KeyType) && t.ValueType.Equals(t2.ValueType)
+	return equals(t.KeyType, t2.KeyType) && equals(t.ValueType, t2.ValueType)
 }
 
 func (t *Chan) Equals(other TypeName) bool {
@@ -413,7 +418,7 @@ func (t *Chan) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.ChanOf.Equals(t2.ChanOf)
+	return equals(t.ChanOf, t2.ChanOf)
 }
 
 func (t *ReceiveChan) Equals(other TypeName) bool {
@@ -424,7 +429,7 @@ func (t *ReceiveChan) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.ReceiveType.Equals(t2.ReceiveType)
+	return equals(t.ReceiveType, t2.ReceiveType)
 }
 
 func (t *SendChan) Equals(other TypeName) bool {
@@ -435,7 +440,7 @@ func (t *SendChan) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.SendType.Equals(t2.SendType)
+	return equals(t.SendType, t2.SendType)
 }
 
 func (t *InterfaceType) Equals(other TypeName) bool {
@@ -478,10 +483,8 @@ func (t *GenericType) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	if t.TypeParam == nil || t2.TypeParam == nil {
-		return false // TODO: matching of multiple type parameters not implemented yet
-	}
-	return t.BaseType.Equals(t2.BaseType) && t.TypeParam.Equals(t2.TypeParam)
+	// TODO: matching of multiple type parameters not implemented yet
+	return equals(t.BaseType, t2.BaseType) && equals(t.TypeParam, t2.TypeParam)
 }
 
 func (t *GenericTypeParam) Equals(other TypeName) bool {
-- 
2.43.0


From edc2ac96124d1202f96562e86b9c1a702eb509ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 73/79] fix: uintptr is a basic type

---
 plugins/golang/gocode/typename.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index 27d3b3a..22e9030 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -41,7 +41,7 @@ func initBasics() {
 		"bool",
 		"string",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64",
+		"uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
 		"byte",
 		"rune",
 		"float32", "float64",
-- 
2.43.0


From dad81e983d03e7d989377be5c5e792a28a43d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 74/79] fix: adding a module by a directory that is not in
 clean form returns the module

---
 plugins/golang/goparser/moduleset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/golang/goparser/moduleset.go b/plugins/golang/goparser/moduleset.go
index 9f5f13a..507c630 100644
--- a/plugins/golang/goparser/moduleset.go
+++ b/plugins/golang/goparser/moduleset.go
@@ -53,7 +53,7 @@ func (set *ParsedModuleSet) AddModule(srcDir string) (*ParsedModule, error) {
 	if err := set.AddModules(srcDir); err != nil {
 		return nil, err
 	}
-	return set.ModuleDirs[srcDir], nil
+	return set.ModuleDirs[filepath.Clean(srcDir)], nil
 }
 
 // Avoids parsing the same srcDir multiple times.
-- 
2.43.0


From d9b44a03202ee224bef972c1f8333c67d0d3264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 75/79] fix: copy a module with tests to the directory that
 other copies of it have

---
 plugins/gotests/ir.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plugins/gotests/ir.go b/plugins/gotests/ir.go
index 171cb4b..25d9859 100644
--- a/plugins/gotests/ir.go
+++ b/plugins/gotests/ir.go
@@ -200,9 +200,10 @@ func (lib *testLibrary) GenerateArtifacts(workspaceDir string) error {
 }
 
 func copyModuleToOutputWorkspace(b golang.WorkspaceBuilder, mod *goparser.ParsedModule) (string, error) {
-	_, subdir := filepath.Split(mod.SrcDir)
 	if !b.Visited(mod.Name) {
-		slog.Info(fmt.Sprintf("Copying local module %v to workspace", subdir))
+		slog.Info(fmt.Sprintf("Copying local module %v to workspace", mod.ShortName))
 	}
-	return b.AddLocalModule(subdir, mod.SrcDir)
+	// Use the same name for the module's directory as [golang.AddToWorkspace] does, because
+	// the workspace might already contain the module
+	return b.AddLocalModule(mod.ShortName, mod.SrcDir)
 }
-- 
2.43.0


From 9243028702d79274397100170f49869bd57f950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 76/79] fix: reading a nil property does not panic

---
 blueprint/pkg/wiring/reflect.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blueprint/pkg/wiring/reflect.go b/blueprint/pkg/wiring/reflect.go
index 7b67f79..820eaac 100644
--- a/blueprint/pkg/wiring/reflect.go
+++ b/blueprint/pkg/wiring/reflect.go
@@ -27,6 +27,16 @@ func copyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is an untyped nil, which can be copied to anything that can be nil
+		switch dst_val.Kind() {
+		case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func:
+			dst_val.SetZero()
+			return nil
+		}
+		return blueprint.Errorf("unable to copy nil to %v", dst_val.Type())
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From 3aa3e00da9a4204bef9649c63cf7ff64364947c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:36 +0000
Subject: [PATCH 77/79] fix: a circular dependency is an error, not endless
 recursion

---
 blueprint/pkg/wiring/application.go |  1 +
 blueprint/pkg/wiring/namespace.go   | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/application.go b/blueprint/pkg/wiring/application.go
index 758738e..e8fc3ac 100644
--- a/blueprint/pkg/wiring/application.go
+++ b/blueprint/pkg/wiring/application.go
@@ -28,6 +28,7 @@ func BuildApplicationIR(spec WiringSpec, name string, nodesToInstantiate ...stri
 		Seen:            make(map[string]ir.IRNode),
 		Added:           make(map[string]any),
 		ChildNamespaces: make(map[string]Namespace),
+		building:        make(map[string]bool),
 	}
 
 	// If no nodes were specified, then instead we will instantiate all defined nodes
diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 3c22c6a..f09d8c7 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -106,7 +106,8 @@ type namespaceimpl struct {
 	Deferred        []func() error       // Deferred functions to execute
 	ChildNamespaces map[string]Namespace // Child namespaces
 
-	stack []*WiringDef // Used when building; the stack of wiring defs currently being built
+	stack    []*WiringDef    // Used when building; the stack of wiring defs currently being built
+	building map[string]bool // Used when building; the names of the nodes currently being built in this namespace
 }
 
 // NamespaceHandler is an interface intended for use by any Blueprint plugin that wants to
@@ -214,6 +215,13 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		namespace.Info("Building %s (alias %s) of type %s", def.Name, name, reflect.TypeOf(def.NodeType).String())
 	}
 
+	// A node that is needed to build itself would never finish building
+	if namespace.building[name] {
+		return namespace.Error("Circular dependency: %s is needed to build itself", name)
+	}
+	namespace.building[name] = true
+	defer delete(namespace.building, name)
+
 	// Build the node
 	node, err := def.Build(namespace)
 	if err != nil {
@@ -308,6 +316,7 @@ func (namespace *namespaceimpl) DeriveNamespace(name string, handler NamespaceHa
 		Seen:            make(map[string]ir.IRNode),
 		Added:           make(map[string]any),
 		ChildNamespaces: make(map[string]Namespace),
+		building:        make(map[string]bool),
 	}
 	namespace.ChildNamespaces[name] = child
 	namespace.Info("Created child namespace %v", name)
-- 
2.43.0


From cd257bc974d4460a724c1074c8e8d8aa65309958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 78/79] fix: $inc is an error when no int64 holds the sum

---
 runtime/plugins/simplenosqldb/query/update.go | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 7ac826c..9065eb5 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -334,9 +334,16 @@ func (i *incint) Apply(itemRef any) error {
 	case float32:
 		return backend.CopyResult(v+float32(i.amount), itemRef)
 	case int64:
-		return backend.CopyResult(v+i.amount, itemRef)
+		sum, err := i.addTo(v)
+		if err != nil {
+			return err
+		}
+		return backend.CopyResult(sum, itemRef)
 	case int32:
-		sum := int64(v) + i.amount
+		sum, err := i.addTo(int64(v))
+		if err != nil {
+			return err
+		}
 		if sum != int64(int32(sum)) {
 			return backend.CopyResult(sum, itemRef)
 		}
@@ -352,6 +359,15 @@ func (i *incint) Apply(itemRef any) error {
 	}
 }
 
+// Returns v plus the increment, or an error if no int64 holds it
+func (i *incint) addTo(v int64) (int64, error) {
+	sum := v + i.amount
+	if (sum < v) != (i.amount < 0) {
+		return 0, errors.Errorf("incint unable to increment %v by %v without overflow", v, i.amount)
+	}
+	return sum, nil
+}
+
 func (s *updatefield) Apply(itemRef any) error {
 	itemVal, err := backend.GetPointerValue(itemRef)
 	if err != nil {
-- 
2.43.0


From 1c7e0ec712423731b60614458afed22806ecc6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 79/79] fix: a workspace accepts build scripts below a relative
 directory and refuses those outside of it

---
 plugins/linuxcontainer/linuxgen/build.sh.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugins/linuxcontainer/linuxgen/build.sh.go b/plugins/linuxcontainer/linuxgen/build.sh.go
index fdacccc..35c1f5d 100644
--- a/plugins/linuxcontainer/linuxgen/build.sh.go
+++ b/plugins/linuxcontainer/linuxgen/build.sh.go
@@ -52,7 +52,14 @@ func (d *BuildScript) Add(filePath string) error {
 	if err != nil {
 		return blueprint.Errorf("invalid build script path %v", filePath)
 	}
-	pathInWorkspace, err := filepath.Rel(d.WorkspaceDir, filepath.Clean(filePath))
+	workspaceDir, err := filepath.Abs(d.WorkspaceDir)
+	if err != nil {
+		return blueprint.Errorf("invalid workspace directory %v", d.WorkspaceDir)
+	}
+	pathInWorkspace, err := filepath.Rel(workspaceDir, filePath)
+	if err == nil && !filepath.IsLocal(pathInWorkspace) {
+		err = blueprint.Errorf("%v is outside of the workspace", pathInWorkspace)
+	}
 	if err != nil {
 		return blueprint.Errorf("workspace build.sh only supports build scripts located within the workspace; got %v which does not reside in %v; error: %v", filePath, d.WorkspaceDir, err.Error())
 	}
-- 
2.43.0

