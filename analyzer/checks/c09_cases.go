package checks

import (
	"strings"

	"verif/analyzer/emit"
)

var (
	shop  = &emit.Mod{Path: "m.org/shop", Version: "", Dir: "/src/shop", Local: true, How: "main"}
	shop2 = &emit.Mod{Path: "m.org/shop2", Version: "", Dir: "/src/shop2", Local: true, How: "replaced"}
	lib   = &emit.Mod{Path: "m.org/lib", Version: "v1.2.3", Dir: "/cache/m.org/lib@v1.2.3"}
	sub   = &emit.Mod{Path: "m.org/shop/nested", Version: "", Dir: "/src/nested", Local: true}
)

var flowLibs = map[string]string{
	"/cache/m.org/lib@v1.2.3/lib.go": "package lib\n\ntype Root struct{ N int }\n",
	"/cache/m.org/lib@v1.2.3/kinds/kinds.go": `package kinds

type Kind struct{ Name string }
type Level int64
type Pair struct { A, B Kind }
`,
	"/cache/m.org/lib@v1.2.3/go-odd/odd.go": "package odd\n\ntype Kind struct{ N int }\n",
	"/cache/m.org/lib@v1.2.3/other/kinds.go": `package other

type Kind struct{ Other int }
type Level string
`,
}

func with(files map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range flowLibs {
		out[k] = v
	}
	for k, v := range files {
		out[k] = v
	}
	return out
}

func one(what string, limit bool, ask string, srcs ...string) *flowCase {
	fs := map[string]string{}
	for i, s := range srcs {
		name := "a.go"
		if i > 0 {
			name = string(rune('a'+i)) + ".go"
		}
		if s, cut := strings.CutPrefix(s, "//test\n"); cut {
			fs["/src/shop/svc/"+string(rune('a'+i))+"_test.go"] = s
			continue
		}
		fs["/src/shop/svc/"+name] = s
	}
	fc := &flowCase{what: what, files: with(fs), mods: []*emit.Mod{shop, lib}, limit: limit}
	for _, a := range strings.Fields(ask) {
		fc.ask = append(fc.ask, "m.org/shop/svc."+a)
	}
	return fc
}

// flowCases are the schematic workflows.
func flowCases() []*flowCase {
	cases := []*flowCase{{
		what: "a workflow of several modules",
		mods: []*emit.Mod{shop, shop2, lib, sub},
		files: with(map[string]string{
			"/src/shop/doc.go": "// Package shop sells.\npackage shop\n\ntype Price int64\n\nconst Free Price = 0\n\nvar Default, _ = Free, 1\n",
			"/src/shop/model/user.go": `package model

import "m.org/lib"

type User struct {
	ID   int64
	Name string
	Tags []string
	Root lib.Root
	Next *User
}

type (
	Order struct { Items map[string]Item }
	Item  struct { Count int }
	Status string
)
`,
			"/src/shop/user/user.go": `package user

import (
	"context"

	kinds "m.org/lib/kinds"
	"m.org/shop"
	"m.org/shop/model"
)

// UserService has operations of all kinds.
type UserService interface {
	Get(ctx context.Context, id int64) (model.User, error)
	Put(ctx context.Context, a, b string, u *model.User, opts ...string) error
	All(context.Context, map[string][]model.User, []*kinds.Kind, kinds.Level) (n int, more bool, err error)
	Local(ctx context.Context, r Role, m map[Role]*Entry) ([]Entry, error)
	Dyn(ctx context.Context, x any, y interface{}) (any, error)
	Blank(ctx context.Context, _ string, _ int, name bool) error
	Bytes(ctx context.Context, b []byte, r rune, f float32, u uint16) ([]byte, error)
	Deep(ctx context.Context, p **kinds.Pair, m map[string]map[int][]*Entry, s [][]string) (*[]shop.Price, error)
	Chans(ctx context.Context, c chan int, s chan<- model.User, r <-chan []bool) error
}

type Role string
`,
			"/src/shop/user/impl.go": `package user

import (
	"context"
	k "m.org/lib/kinds"
	kinds "m.org/lib/other"
	. "m.org/shop/model"
	sh "m.org/shop"
)

type Entry struct {
	Kind  kinds.Kind
	Level k.Level
	Role  Role
	user  *User
}

type userImpl struct {
	entries map[Role]*Entry
	last    User
}

func NewUserService(ctx context.Context, parent UserService, size int, names []string) (UserService, error) {
	return &userImpl{}, nil
}

func (u *userImpl) Get(ctx context.Context, id int64) (User, error) { return User{}, nil }
func (u *userImpl) Put(ctx context.Context, x string, y string, v *User, opts ...string) error { return nil }
func (u *userImpl) All(ctx context.Context, m map[string][]User, ks []*k.Kind, l k.Level) (int, bool, error) { return 0, false, nil }
func (*userImpl) Deep(_ context.Context, p **k.Pair, m map[string]map[int][]*Entry, s [][]string) (*[]sh.Price, error) { return nil, nil }
`,
			"/src/shop/user/more.go": `package user

import (
	"context"
	"m.org/lib/other"
	"m.org/shop/model"
)

func (u userImpl) Local(ctx context.Context, r Role, m map[Role]*Entry) ([]Entry, error) { return nil, nil }
func (u *userImpl) Dyn(ctx context.Context, x any, y interface{}) (any, error) { return nil, nil }
func (u *userImpl) Blank(context.Context, string, int, bool) error { return nil }
func (u *userImpl) Bytes(ctx context.Context, b []byte, r rune, f float32, n uint16) ([]byte, error) { return b, nil }
func (u *userImpl) Chans(ctx context.Context, c chan int, s chan<- model.User, r <-chan []bool) error { return nil }
func (u *userImpl) helper(a, b int, c other.Level) (sum int, rest other.Kind) { return a + b, rest }

// NewOther would make something else.
func NewOther(ctx context.Context) (*Entry, error) { return nil, nil }
func NewWithout(ctx context.Context) UserService { return nil }
func NewNoContext(parent UserService) (UserService, error) { return parent, nil }
func NewThree(ctx context.Context) (UserService, error, int) { return nil, nil, 0 }
func NewNothing(ctx context.Context) { }
func NewCode(ctx context.Context) (UserService, int) { return nil, 0 }
func NewMany(ctx context.Context) (UserService, int, error) { return nil, 0, nil }
func NewTurned(ctx context.Context) (error, UserService) { return nil, nil }
func NewPointed(ctx context.Context) (*UserService, error) { return nil, nil }
func NewList(ctx context.Context) ([]UserService, error) { return nil, nil }
func NewLast(parent UserService, ctx context.Context) (UserService, error) { return nil, nil }
func init() {}
`,
			"/src/shop2/user/user.go": `package user

import (
	"context"
	"m.org/shop/user"
)

// the name of an interface of another module
type UserService interface {
	Get(ctx context.Context, id string) (user.Entry, error)
}

type Impl struct { inner user.UserService }

func (i *Impl) Get(ctx context.Context, id string) (user.Entry, error) { return user.Entry{}, nil }

func New(ctx context.Context, inner user.UserService) (*Impl, error) { return &Impl{inner}, nil }
`,
			"/src/nested/user/user.go": `package user

import "context"

type Thing interface {
	Do(ctx context.Context) error
}

type thing struct{}

func (thing) Do(ctx context.Context) error { return nil }

func NewThing(ctx context.Context) (Thing, error) { return thing{}, nil }
`,
		}),
		ask: []string{"m.org/shop/user.UserService", "m.org/shop2/user.UserService", "m.org/shop2/user.Impl", "m.org/shop/nested/user.Thing",
			"m.org/shop/user.Nothing", "m.org/shop/user.Entry", "m.org/shop/user.Role", "m.org/shop/user.userImpl", "m.org/shop/missing.Thing", "m.org/none.Thing", "m.org/shop.Price"},
	}}
	ctor := "func NewS(ctx context.Context) (S, error) { return nil, nil }\n"
	svc := func(decl string) string {
		return "package svc\n\nimport \"context\"\n\n" + decl
	}
	// what is no service
	for _, x := range [][2]string{
		{"an operation without a context", "type S interface { Good(ctx context.Context) error; Bad(n int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc (s) Bad(n int) error { return nil }\n" + ctor},
		{"an operation without parameters", "type S interface { Good(ctx context.Context) error; Bad() error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc (s) Bad() error { return nil }\n" + ctor},
		{"an operation whose context is not first", "type S interface { Bad(n int, ctx context.Context) error }\ntype s struct{}\nfunc (s) Bad(n int, ctx context.Context) error { return nil }\n" + ctor},
		{"an operation without results", "type S interface { Good(ctx context.Context) error; Bad(ctx context.Context) }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc (s) Bad(ctx context.Context) { }\n" + ctor},
		{"an operation without an error", "type S interface { Bad(ctx context.Context) int }\ntype s struct{}\nfunc (s) Bad(ctx context.Context) int { return 0 }\n" + ctor},
		{"an operation whose error is not last", "type S interface { Bad(ctx context.Context) (error, int) }\ntype s struct{}\nfunc (s) Bad(ctx context.Context) (error, int) { return nil, 0 }\n" + ctor},
		{"a pointer to a context", "type S interface { Bad(ctx *context.Context) error }\ntype s struct{}\nfunc (s) Bad(ctx *context.Context) error { return nil }\n" + ctor},
		{"another Context", "type Context struct{}\ntype S interface { Bad(ctx Context) error }\ntype s struct{}\nfunc (s) Bad(ctx Context) error { return nil }\n" + ctor},
		{"another thing of package context", "type S interface { Bad(ctx context.CancelFunc) error }\ntype s struct{}\nfunc (s) Bad(ctx context.CancelFunc) error { return nil }\n" + ctor},
		{"no constructor", "type S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc NewS() (S, error) { return nil, nil }\n"},
		{"a constructor of another interface", "type T interface { Good(ctx context.Context) error }\ntype S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc NewT(ctx context.Context) (T, error) { return s{}, nil }\n"},
		{"no struct", "type S interface { Good(ctx context.Context) error }\n" + ctor},
		{"a struct that lacks an operation", "type S interface { Good(ctx context.Context) error; More(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n" + ctor},
		{"a struct with another parameter", "type S interface { Good(ctx context.Context, n int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, n int64) error { return nil }\n" + ctor},
		{"a struct with one parameter more", "type S interface { Good(ctx context.Context, n int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, n, m int) error { return nil }\n" + ctor},
		{"a struct with parameters in another order", "type S interface { Good(ctx context.Context, n int, m string) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, m string, n int) error { return nil }\n" + ctor},
		{"a struct with a pointer for a value", "type A struct{}\ntype S interface { Good(ctx context.Context, a A) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, a *A) error { return nil }\n" + ctor},
		{"a struct with a list for variadic parameters", "type S interface { Good(ctx context.Context, a ...int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, a []int) error { return nil }\n" + ctor},
		{"a struct with another result", "type S interface { Good(ctx context.Context) (int, error) }\ntype s struct{}\nfunc (s) Good(ctx context.Context) (int32, error) { return 0, nil }\n" + ctor},
		{"a struct with another map", "type S interface { Good(ctx context.Context, m map[string]int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, m map[int]string) error { return nil }\n" + ctor},
		{"a struct with another channel", "type S interface { Good(ctx context.Context, c chan<- int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, c <-chan int) error { return nil }\n" + ctor},
		{"a struct whose result lacks", "type S interface { Good(ctx context.Context) (int, error) }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n" + ctor},
	} {
		cases = append(cases, one("a service with "+x[0], false, "S s T", svc(x[1])))
	}
	cases = append(cases,
		one("a service with types of one name from two packages", false, "S", "package svc\n\nimport (\n\t\"context\"\n\t\"m.org/lib/kinds\"\n)\n\ntype S interface { Good(ctx context.Context, k kinds.Kind) error }\n"+ctor,
			"package svc\n\nimport (\n\t\"context\"\n\tkinds \"m.org/lib/other\"\n)\n\ntype s struct{}\nfunc (s) Good(ctx context.Context, k kinds.Kind) error { return nil }\n"),
		one("a struct that is a service", false, "Impl impl2 S", svc("type S interface { Good(ctx context.Context) error }\ntype T interface { Good(ctx context.Context) error; Not() int }\ntype Impl struct{}\nfunc (*Impl) Good(ctx context.Context) error { return nil }\nfunc (*Impl) Not() int { return 0 }\nfunc NewImpl(ctx context.Context, n int) (*Impl, error) { return nil, nil }\nfunc NewValue(ctx context.Context, n int) (Impl, error) { return Impl{}, nil }\ntype impl2 struct{}\nfunc (*impl2) Good(ctx context.Context) error { return nil }\n")),
		one("a struct whose constructors do not fit", false, "Impl", svc("type S interface { Good(ctx context.Context) error }\ntype Impl struct{}\nfunc (*Impl) Good(ctx context.Context) error { return nil }\nfunc NewValue(ctx context.Context, n int) (Impl, error) { return Impl{}, nil }\nfunc NewPP(ctx context.Context) (**Impl, error) { return nil, nil }\nfunc NewIface(ctx context.Context) (S, error) { return nil, nil }\nfunc NewOnly(ctx context.Context) *Impl { return nil }\n")),
		one("several constructors and implementations", false, "S", svc("type S interface { Good(ctx context.Context) error }\ntype b struct{}\ntype a struct{}\ntype z struct{}\nfunc (a) Good(ctx context.Context) error { return nil }\nfunc (*b) Good(ctx context.Context) error { return nil }\nfunc NewB(ctx context.Context) (S, error) { return nil, nil }\nfunc NewA(ctx context.Context) (S, error) { return nil, nil }\n")),
		one("several interfaces of a struct", false, "Impl", svc("type S2 interface { Good(ctx context.Context) error }\ntype S1 interface { Good(ctx context.Context) error }\ntype S0 interface { Good(n int) error }\ntype Impl struct{}\nfunc (*Impl) Good(ctx context.Context) error { return nil }\nfunc New(ctx context.Context) (*Impl, error) { return nil, nil }\n")),
		one("methods before their struct", false, "S", svc(ctor+"func (s) Good(ctx context.Context) error { return nil }\n"), svc("type s struct{}\ntype S interface { Good(ctx context.Context) error }\n")),
		one("the struct in the first file", false, "S", svc("type s struct{}\ntype S interface { Good(ctx context.Context) error }\n"), svc(ctor+"func (s) Good(ctx context.Context) error { return nil }\n")),
		one("constants, variables and labels next to a service", false, "S", svc("const A, B = 1, 2\nvar X, Y int\nvar _ S = s{}\ntype s struct{}\ntype S interface { Good(ctx context.Context) error }\n"+ctor+"func (s) Good(ctx context.Context) error { return nil }\n")),
		// methods of types that are no structs
		one("methods of a type that is no struct", false, "S", svc("var _ context.Context\ntype K int\nfunc (k K) String() string { return \"\" }\nfunc (k *K) Set(n int) { }\n"), svc("type S interface { Good(ctx context.Context, k K) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, k K) error { return nil }\n"+ctor)),
		one("methods of a type that is no struct, in the last file", false, "S", svc("type S interface { Good(ctx context.Context, k K) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, k K) error { return nil }\n"+ctor), svc("var _ context.Context\ntype K map[string]int\nfunc (k K) Len() int { return 0 }\n")),
		// tests are not part of the program
		one("a constructor in a test", false, "S", svc("type S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n"+ctor), "//test\n"+svc("func NewFake(ctx context.Context) (S, error) { return nil, nil }\n")),
		one("a test of a package", false, "S", svc("type S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n"+ctor), "//test\npackage svc_test\n\nimport \"m.org/shop/svc\"\n\ntype s struct { x svc.S }\n"),
		one("a constructor that is not exported", false, "S", svc("type S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc newS(ctx context.Context) (S, error) { return nil, nil }\n")),
		// limits
		one("an array as a parameter", true, "S", svc("type S interface { Good(ctx context.Context, a [4]int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, a [4]int) error { return nil }\n"+ctor)),
		one("an array and a list", true, "S", svc("type S interface { Good(ctx context.Context, a [4]int) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, a []int) error { return nil }\n"+ctor)),
		one("an array in a struct", true, "", svc("type E struct { A [4]int }\nvar _ context.Context\n")),
		one("a function as a parameter", true, "S", svc("type S interface { Good(ctx context.Context, f func(int) string) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, f func(int) string) error { return nil }\n"+ctor)),
		one("a function of another type", true, "S", svc("type S interface { Good(ctx context.Context, f func(int) string) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, f func()) error { return nil }\n"+ctor)),
		one("a literal struct as a parameter", true, "S", svc("type S interface { Good(ctx context.Context, f struct{ A int }) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, f struct{ A int }) error { return nil }\n"+ctor)),
		one("a literal interface as a parameter", true, "S", svc("type S interface { Good(ctx context.Context, f interface{ Do() }) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, f interface{ Do() }) error { return nil }\n"+ctor)),
		one("a generic type as a parameter", true, "S", svc("type G[T any] struct { X T }\ntype S interface { Good(ctx context.Context, f G[int]) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, f G[int]) error { return nil }\n"+ctor)),
		one("a generic type of another instance", true, "S", svc("type G[T any] struct { X T }\ntype S interface { Good(ctx context.Context, f G[int]) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, f G[string]) error { return nil }\n"+ctor)),
		one("an interface that embeds another", true, "S", svc("type B interface { Base(ctx context.Context) error }\ntype S interface { B; Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc (s) Base(ctx context.Context) error { return nil }\n"+ctor)),
		one("an interface that embeds another that is not implemented", true, "S", svc("type B interface { Base(ctx context.Context) error }\ntype S interface { B; Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n"+ctor)),
		one("an operation that comes with an embedded struct", true, "S", svc("type S interface { Good(ctx context.Context) error }\ntype base struct{}\nfunc (base) Good(ctx context.Context) error { return nil }\ntype s struct { base; n int }\n"+ctor)),
		one("another name for a type", true, "S", svc("type E struct{}\ntype F = E\ntype S interface { Good(ctx context.Context, e E, f F) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, e F, f F) error { return nil }\n"+ctor)),
		one("another name for context.Context", true, "S", svc("type C = context.Context\ntype S interface { Good(ctx C) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n"+ctor)),
		one("a generic constructor", true, "S", svc("type S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc NewAny[T any](ctx context.Context) (S, error) { return nil, nil }\n")),
		one("a generic function", true, "S", svc("func Same[T any](x T) T { return x }\ntype S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n"+ctor)),
		one("a generic struct with methods", true, "S", svc("type G[T any] struct { x T }\nfunc (g *G[T]) Get() T { return g.x }\ntype S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n"+ctor)),
		one("a type with the name of a basic type", true, "S", svc("type string struct{}\ntype S interface { Good(ctx context.Context, x string) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, x string) error { return nil }\n"+ctor)),
		one("a type with the name error", true, "S", svc("type error interface{ Code() int }\ntype S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\n"+ctor)),
		one("a type called any", true, "S", svc("type any struct{}\ntype S interface { Good(ctx context.Context, x any) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, x any) error { return nil }\n"+ctor)),
		one("types in parentheses", true, "S", svc("type S interface { Good(ctx context.Context, x (int), y *(string)) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, x int, y *string) error { return nil }\n"+ctor)),
		one("names that share a field's type", true, "", svc("type E struct { A, B int; C string }\nvar _ context.Context\n")),
		one("embedded fields", true, "", svc("type A struct{}\ntype B struct{}\ntype E struct { A; *B; C string }\nvar _ context.Context\n")),
		one("a package whose name is not the end of its path", true, "S", "package svc\n\nimport (\n\t\"context\"\n\t\"m.org/lib/go-odd\"\n)\n\ntype S interface { Good(ctx context.Context, k odd.Kind) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, k odd.Kind) error { return nil }\n"+ctor),
		one("a list of a package whose name is not the end of its path", true, "S", "package svc\n\nimport (\n\t\"context\"\n\t\"m.org/lib/go-odd\"\n)\n\ntype S interface { Good(ctx context.Context, k []odd.Kind, m map[string]odd.Kind) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, k []odd.Kind, m map[string]odd.Kind) error { return nil }\n"+ctor),
		one("a result of a package whose name is not the end of its path", true, "S", "package svc\n\nimport (\n\t\"context\"\n\t\"m.org/lib/go-odd\"\n)\n\ntype S interface { Good(ctx context.Context) (odd.Kind, error) }\ntype s struct{}\nfunc (s) Good(ctx context.Context) (odd.Kind, error) { return odd.Kind{}, nil }\n"+ctor),
		one("a field of a package whose name is not the end of its path", true, "", "package svc\n\nimport (\n\t\"m.org/lib/go-odd\"\n)\n\ntype E struct { K *odd.Kind }\n"),
		one("two packages imported with a dot", true, "S", "package svc\n\nimport (\n\t\"context\"\n\t. \"m.org/lib/kinds\"\n\t. \"m.org/lib\"\n)\n\ntype S interface { Good(ctx context.Context, k Kind, r Root) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context, k Kind, r Root) error { return nil }\n"+ctor),
		one("a variadic constructor", true, "S", svc("type S interface { Good(ctx context.Context) error }\ntype s struct{}\nfunc (s) Good(ctx context.Context) error { return nil }\nfunc NewS(ctx context.Context, more ...string) (S, error) { return nil, nil }\n")),
	)
	return cases
}
