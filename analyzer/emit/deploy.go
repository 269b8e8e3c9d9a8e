package emit

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"verif/analyzer/core"
	. "verif/analyzer/peval"
)

const addrPkg = "blueprint/pkg/coreplugins/address"

// Deployed is what a deployment node emits.
type Deployed struct {
	Files  map[string]string // by path relative to the output directory
	Dirs   map[string]bool
	Failed string
	Unk    string
}

const DeployDir = "/out"

// Evaluate calls f on a fresh machine and collects the files it writes.
func (b *B) Evaluate(rev bool, f func(m *Machine) Value) (d *Deployed) {
	d = &Deployed{Files: map[string]string{}, Dirs: map[string]bool{}}
	b.reset()
	m := b.M
	m.Reverse = rev || b.Rev
	b.modfiles(m)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("PDEBUG") != "" {
				fmt.Println("evaluate:", r)
			}
			switch x := r.(type) {
			case Undecided:
				d.Unk = x.Msg
			case Panicked:
				d.Failed = "panics: " + x.Msg
			default:
				d.Unk = fmt.Sprint("cannot be evaluated: ", r)
			}
		}
		for p, f := range m.Files {
			rel := strings.TrimPrefix(p, DeployDir+"/")
			if strings.HasSuffix(p, "/") {
				d.Dirs[strings.TrimSuffix(rel, "/")] = true
			} else {
				d.Files[rel] = f.Data
				if strings.Contains(f.Data, Unknown) {
					d.Unk = "the content of " + rel + " is not known"
				}
			}
		}
	}()
	if r := f(m); r != nil {
		if t, ok := r.(Tuple); ok {
			r = t[len(t)-1]
		}
		if r != nil {
			d.Failed = m.Sprint(r)
		}
	}
	return
}

// embedded sets a field of the struct or of one it embeds.
func setField(s *Struct, name string, v Value) bool {
	if s.Set(name, v) {
		return true
	}
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if in, ok := s.F[i].(*Struct); ok && setField(in, name, v) {
				return true
			}
		}
	}
	return false
}

func getField(s *Struct, name string) (Value, bool) {
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.F[i], true
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if in, ok := s.F[i].(*Struct); ok {
				if v, ok := getField(in, name); ok {
					return v, true
				}
			}
		}
	}
	return nil, false
}

// Node makes a node of a type of /repo, fields given by name.
func (b *B) Node(pkg, name string, fields map[string]Value) Iface {
	n := b.named(pkg, name)
	s := Zero(n).(*Struct)
	var ks []string
	for k := range fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !setField(s, k, fields[k]) {
			panic(Undecided{Msg: "field " + k + " of " + pkg + "." + name + " not found"})
		}
	}
	return Iface{T: types.NewPointer(n), V: NewRef(s)}
}

// Get reads a field of a node.
func Get(n Iface, name string) Value {
	v, _ := getField(Obj(n.V), name)
	return v
}

// Put writes a field of a node.
func Put(n Iface, name string, v Value) bool { return setField(Obj(n.V), name, v) }

// Bind and Dial are the two configurations of an address.
func (b *B) Bind(addr string, preferred int64) Iface {
	return b.Node(addrPkg, "BindConfig", map[string]Value{"AddressName": addr, "Key": addr + ".bind_addr", "PreferredPort": preferred})
}

func (b *B) Dial(addr string) Iface {
	return b.Node(addrPkg, "DialConfig", map[string]Value{"AddressName": addr, "Key": addr + ".dial_addr"})
}

// Config is a configuration node.
func (b *B) Config(name string, optional bool, value string) Iface {
	ms := map[string]func(*Machine, []Value) Value{
		"Name": ret(name), "String": ret(name), "Optional": ret(optional), "HasValue": ret(value != ""), "Value": ret(value), "ImplementsIRConfig": ret(nil),
	}
	return Iface{V: &Stub{Name: name, Methods: ms, Is: isIface(ms)}}
}

func isIface(ms map[string]func(*Machine, []Value) Value) func(t types.Type) bool {
	return func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for i := 0; i < it.NumMethods(); i++ {
			if _, ok := ms[it.Method(i).Name()]; !ok {
				return false
			}
		}
		return true
	}
}

// Process is a schematic process node; artifacts and instance may be nil.
func (b *B) Process(name string, artifacts, instance func(t *CtrTarget) Value) Iface {
	ms := map[string]func(*Machine, []Value) Value{"Name": ret(name), "String": ret(name), "ImplementsLinuxProcess": ret(nil)}
	for n, f := range map[string]func(t *CtrTarget) Value{"AddProcessArtifacts": artifacts, "AddProcessInstance": instance} {
		if f == nil {
			continue
		}
		ms[n] = func(m *Machine, a []Value) Value {
			t, ok := a[len(a)-1].(Iface)
			if !ok {
				panic(Undecided{Msg: "the workspace given to a process is unknown"})
			}
			return f(&CtrTarget{m, t})
		}
	}
	return Iface{V: &Stub{Name: name, Methods: ms, Is: isIface(ms)}}
}

// Meta is a node that only describes something.
func (b *B) Meta(name string) Iface {
	ms := map[string]func(*Machine, []Value) Value{"Name": ret(name), "String": ret(name), "ImplementsIRMetadata": ret(nil)}
	return Iface{V: &Stub{Name: name, Methods: ms, Is: isIface(ms)}}
}

// Other is a node that is neither configuration nor anything else.
func (b *B) Other(name string) Iface {
	ms := map[string]func(*Machine, []Value) Value{"Name": ret(name), "String": ret(name)}
	return Iface{V: &Stub{Name: name, Methods: ms, Is: isIface(ms)}}
}

// CtrTarget is the workspace a schematic container declares itself to.
type CtrTarget struct {
	M *Machine
	V Iface
}

// Call calls a method of the workspace; the result is its error.
func (t *CtrTarget) Call(name string, args ...Value) Value {
	r, ok := t.M.Method(t.V.T, t.V.V, name, args...)
	if !ok {
		panic(Undecided{Msg: "the workspace has no method " + name})
	}
	if tp, ok := r.(Tuple); ok {
		return tp[len(tp)-1]
	}
	return r
}

// Container is a schematic container node.
func (b *B) Container(name string, f func(t *CtrTarget) Value) Iface {
	ms := map[string]func(*Machine, []Value) Value{
		"Name": ret(name), "String": ret(name), "ImplementsDockerContainer": ret(nil),
		"AddContainerInstance": func(m *Machine, a []Value) Value {
			t, ok := a[len(a)-1].(Iface)
			if !ok {
				panic(Undecided{Msg: "the workspace given to a container is unknown"})
			}
			return f(&CtrTarget{m, t})
		},
	}
	return Iface{V: &Stub{Name: name, Methods: ms, Is: isIface(ms)}}
}

// Strs is a string slice.
func Strs(s ...string) Value {
	var out Slice
	for _, x := range s {
		out = append(out, x)
	}
	return out
}

// Nodes is a slice of nodes.
func Nodes(ns ...Iface) Value {
	var out Slice
	for _, n := range ns {
		out = append(out, n)
	}
	return out
}

// Artifacts has a node generate its artifacts.
func (b *B) Artifacts(n Iface) func(m *Machine) Value {
	return func(m *Machine) Value {
		r, ok := m.Method(n.T, n.V, "GenerateArtifacts", DeployDir)
		if !ok {
			panic(Undecided{Msg: core.TypeName(n.T) + " has no GenerateArtifacts"})
		}
		return r
	}
}

// Fn calls a function of /repo.
func (b *B) Fn(pkg, name string, args ...Value) Value {
	sp := b.C.P.SSAPk[core.Mod+pkg]
	if sp == nil || sp.Func(name) == nil {
		panic(Undecided{Msg: "function " + pkg + "." + name + " not found"})
	}
	return b.M.Call(sp.Func(name), args)
}

// AsNode gives a pointer to a node of /repo its type.
func (b *B) AsNode(pkg, name string, v Value) Iface {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	return Iface{T: types.NewPointer(b.named(pkg, name)), V: v}
}
