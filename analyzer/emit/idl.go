package emit

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// The interface compilers (protoc, thrift) are outside the program; their documented output for
// the emitted interface description is written down here, so that the emitted marshalling code
// can be type-checked and followed.

type idlField struct{ typ, name string }

var (
	protoMsg    = regexp.MustCompile(`(?s)message\s+(\w+)\s*\{(.*?)\n\}`)
	protoField  = regexp.MustCompile(`^\s*(.+?)\s+(\w+)\s*=\s*(\d+)\s*;`)
	protoSvc    = regexp.MustCompile(`(?s)service\s+(\w+)\s*\{(.*?)\n\}`)
	protoRPC    = regexp.MustCompile(`rpc\s+(\w+)\s*\(\s*(\w+)\s*\)\s*returns\s*\(\s*(\w+)\s*\)`)
	thriftMsg   = regexp.MustCompile(`(?s)struct\s+(\w+)\s*\{(.*?)\n\}`)
	thriftField = regexp.MustCompile(`^\s*(\d+)\s*:\s*(.+?)\s+(\w+)\s*,?\s*$`)
	thriftRPC   = regexp.MustCompile(`(\w+)\s+(\w+)\s*\(\s*1\s*:\s*(\w+)\s+req\s*\)`)
)

func protoGo(t string, msgs map[string]bool) (string, error) {
	t = strings.TrimSpace(t)
	if r, ok := strings.CutPrefix(t, "repeated "); ok {
		if strings.HasPrefix(strings.TrimSpace(r), "map<") {
			return "", fmt.Errorf("repeated map")
		}
		g, err := protoGo(r, msgs)
		return "[]" + g, err
	}
	if strings.HasPrefix(t, "map<") && strings.HasSuffix(t, ">") {
		in := t[4 : len(t)-1]
		k, v, ok := strings.Cut(in, ",")
		if !ok {
			return "", fmt.Errorf("bad map %s", t)
		}
		kg, err := protoGo(k, msgs)
		if err != nil {
			return "", err
		}
		vg, err := protoGo(v, msgs)
		return "map[" + kg + "]" + vg, err
	}
	switch t {
	case "string", "bool", "int32", "int64", "uint32", "uint64":
		return t, nil
	case "sint32", "sfixed32":
		return "int32", nil
	case "sint64", "sfixed64":
		return "int64", nil
	case "fixed32":
		return "uint32", nil
	case "fixed64":
		return "uint64", nil
	case "float":
		return "float32", nil
	case "double":
		return "float64", nil
	case "bytes":
		return "[]byte", nil
	}
	if msgs[t] {
		return "*" + t, nil
	}
	return "", fmt.Errorf("%q is not a protobuf type", t)
}

func thriftGo(t string, msgs map[string]bool) (string, error) {
	t = strings.TrimSpace(t)
	if strings.HasPrefix(t, "list<") && strings.HasSuffix(t, ">") {
		g, err := thriftGo(t[5:len(t)-1], msgs)
		return "[]" + g, err
	}
	if strings.HasPrefix(t, "map<") && strings.HasSuffix(t, ">") {
		in := t[4 : len(t)-1]
		k, v, ok := strings.Cut(in, ",")
		if !ok {
			return "", fmt.Errorf("bad map %s", t)
		}
		kg, err := thriftGo(k, msgs)
		if err != nil {
			return "", err
		}
		vg, err := thriftGo(v, msgs)
		return "map[" + kg + "]" + vg, err
	}
	switch t {
	case "string", "bool":
		return t, nil
	case "byte", "i8":
		return "int8", nil
	case "i16":
		return "int16", nil
	case "i32":
		return "int32", nil
	case "i64":
		return "int64", nil
	case "double":
		return "float64", nil
	case "binary":
		return "[]byte", nil
	}
	if msgs[t] {
		return "*" + t, nil
	}
	return "", fmt.Errorf("%q is not a thrift type", t)
}

// protoStub writes the Go API protoc generates for a .proto file.
func protoStub(pkg, src string) (string, []string) {
	var errs []string
	msgs := map[string]bool{}
	ms := protoMsg.FindAllStringSubmatch(src, -1)
	for _, m := range ms {
		if msgs[m[1]] {
			errs = append(errs, "message "+m[1]+" is declared twice")
		}
		msgs[m[1]] = true
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"context\"\n\t\"google.golang.org/grpc\"\n)\n\n", pkg)
	for _, m := range ms {
		fmt.Fprintf(&b, "type %s struct {\n", m[1])
		nums := map[string]bool{}
		for _, l := range strings.Split(m[2], "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			f := protoField.FindStringSubmatch(l)
			if f == nil {
				errs = append(errs, "message "+m[1]+": cannot read field "+strings.TrimSpace(l))
				continue
			}
			if nums[f[3]] {
				errs = append(errs, "message "+m[1]+": field number "+f[3]+" used twice")
			}
			nums[f[3]] = true
			g, err := protoGo(f[1], msgs)
			if err != nil {
				errs = append(errs, "message "+m[1]+": "+err.Error())
				continue
			}
			fmt.Fprintf(&b, "\t%s %s\n", strings.Title(f[2]), g)
		}
		b.WriteString("}\n\n")
	}
	for _, s := range protoSvc.FindAllStringSubmatch(src, -1) {
		n := s[1]
		var cl, sv, un strings.Builder
		rpcs := protoRPC.FindAllStringSubmatch(s[2], -1)
		for _, r := range rpcs {
			if !msgs[r[2]] || !msgs[r[3]] {
				errs = append(errs, "rpc "+r[1]+" uses an undeclared message")
				continue
			}
			fmt.Fprintf(&cl, "\t%s(ctx context.Context, in *%s, opts ...grpc.CallOption) (*%s, error)\n", r[1], r[2], r[3])
			fmt.Fprintf(&sv, "\t%s(context.Context, *%s) (*%s, error)\n", r[1], r[2], r[3])
			fmt.Fprintf(&un, "func (Unimplemented%sServer) %s(context.Context, *%s) (*%s, error) { return nil, nil }\n", n, r[1], r[2], r[3])
		}
		fmt.Fprintf(&b, "type %sClient interface {\n%s}\n\nfunc New%sClient(cc grpc.ClientConnInterface) %sClient { return nil }\n\n", n, cl.String(), n, n)
		fmt.Fprintf(&b, "type %sServer interface {\n%s\tmustEmbedUnimplemented%sServer()\n}\n\ntype Unimplemented%sServer struct{}\n\nfunc (Unimplemented%sServer) mustEmbedUnimplemented%sServer() {}\n%s\n", n, sv.String(), n, n, n, n, un.String())
		fmt.Fprintf(&b, "func Register%sServer(s grpc.ServiceRegistrar, srv %sServer) {}\n", n, n)
	}
	sort.Strings(errs)
	return b.String(), errs
}

// thriftStub writes the Go API the thrift compiler generates for a .thrift file.
func thriftStub(pkg, src string) (string, []string) {
	var errs []string
	msgs := map[string]bool{}
	ms := thriftMsg.FindAllStringSubmatch(src, -1)
	for _, m := range ms {
		if msgs[m[1]] {
			errs = append(errs, "struct "+m[1]+" is declared twice")
		}
		msgs[m[1]] = true
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"context\"\n\t\"github.com/apache/thrift/lib/go/thrift\"\n)\n\n", pkg)
	for _, m := range ms {
		fmt.Fprintf(&b, "type %s struct {\n", m[1])
		nums := map[string]bool{}
		for _, l := range strings.Split(m[2], "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			f := thriftField.FindStringSubmatch(l)
			if f == nil {
				errs = append(errs, "struct "+m[1]+": cannot read field "+strings.TrimSpace(l))
				continue
			}
			if nums[f[1]] {
				errs = append(errs, "struct "+m[1]+": field number "+f[1]+" used twice")
			}
			nums[f[1]] = true
			g, err := thriftGo(f[2], msgs)
			if err != nil {
				errs = append(errs, "struct "+m[1]+": "+err.Error())
				continue
			}
			fmt.Fprintf(&b, "\t%s %s\n", thriftPublic(f[3]), g)
		}
		b.WriteString("}\n\n")
		fmt.Fprintf(&b, "func New%s() *%s { return &%s{} }\n\n", m[1], m[1], m[1])
	}
	for _, s := range protoSvc.FindAllStringSubmatch(src, -1) {
		n := s[1]
		var cl, sv strings.Builder
		for _, r := range thriftRPC.FindAllStringSubmatch(s[2], -1) {
			if !msgs[r[1]] || !msgs[r[3]] {
				errs = append(errs, "method "+r[2]+" uses an undeclared struct")
				continue
			}
			fn := strings.Title(r[2])
			if strings.HasPrefix(fn, "New") {
				fn += "_"
			}
			fmt.Fprintf(&sv, "\t%s(ctx context.Context, req *%s) (*%s, error)\n", fn, r[3], r[1])
			fmt.Fprintf(&cl, "func (p *%sClient) %s(ctx context.Context, req *%s) (*%s, error) { return nil, nil }\n", n, fn, r[3], r[1])
		}
		fmt.Fprintf(&b, "type %s interface {\n%s}\n\ntype %sClient struct{ c thrift.TClient }\n\nfunc New%sClient(c thrift.TClient) *%sClient { return &%sClient{c} }\n\n%s\n", n, sv.String(), n, n, n, n, cl.String())
		fmt.Fprintf(&b, "type %sProcessor struct{ thrift.TProcessor }\n\nfunc New%sProcessor(handler %s) *%sProcessor { return &%sProcessor{} }\n", n, n, n, n, n)
	}
	sort.Strings(errs)
	return b.String(), errs
}

// the thrift compiler's Go generator capitalises these words when they are the first word of a field name
var thriftInitialisms = map[string]bool{}

func init() {
	for _, w := range strings.Fields("ACL API ASCII CPU CSS DNS EOF GUID HTML HTTP HTTPS ID IP JSON LHS QPS RAM RHS RPC SLA SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL UTF8 VM XML XMPP XSRF XSS") {
		thriftInitialisms[w] = true
	}
}

func thriftPublic(n string) string {
	if up := strings.ToUpper(n); thriftInitialisms[up] {
		return up
	}
	return strings.Title(n)
}
