package emit

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"

	"verif/analyzer/core"
	. "verif/analyzer/peval"
)

// The schematic service: every method stands for a shape of method a user can declare
// (no arguments; several arguments and results of one type; every kind of type the RPC
// generators accept).
const SamplePath = "sample.org/leaf/workflow/leaf"

const sampleSrc = `package leaf

import "context"

type Sub struct {
	Key string
	N   int64
	Ok  bool
}

type Rec struct {
	ID     int64
	Name   string
	Score  float64
	Flag   bool
	Tags   []string
	Inner  Sub
	Ref    *Sub
	Subs   []Sub
	ByName map[string]Sub
	Counts map[string]int64
}

type LeafService interface {
	Ping(ctx context.Context) error
	Echo(ctx context.Context, first string, second string) (string, string, error)
	Fetch(ctx context.Context, id int64, name string) (Rec, error)
	Store(ctx context.Context, rec Rec, recs []Rec, index map[string]Rec, counts map[string]int64, names []string, ptr *Rec, flag bool, small int, score float64) (Rec, []Rec, map[string]Rec, map[string]int64, []string, *Rec, bool, int, float64, error)
}
`

type Sample struct {
	Src   string
	Path  string
	Pkg   *types.Package
	File  *ast.File
	Info  *types.Info
	Iface *types.Interface
	Name  string
	Base  string
	Label string
}

// Shape is a service interface of its own, with the packages its types come from.
type Shape struct {
	Label string
	Path  string // package of the interface
	Name  string
	Src   string
	Other map[string]string // further packages, by path
	Group string            // report the shape as one construct of this name
}

// Shapes vary what a user can write in a service interface beyond the schematic service: every
// basic type, nested containers, types of other packages (two of them with one name, and some
// named like packages the generators import), unnamed parameters.
func Shapes() []Shape {
	return []Shape{
		{Label: "basic types", Path: "sample.org/basics/svc", Name: "BasicService", Src: `package svc

import "context"

type Row struct {
	A  int8
	B  int16
	C  int32
	D  int64
	E  int
	F  uint8
	G  uint16
	H  uint32
	I  uint64
	J  uint
	K  float32
	L  float64
	M  string
	N  bool
	Bs []byte
	Fs []float32
	Mp map[int32]bool
}

type BasicService interface {
	Signed(ctx context.Context, a int8, b int16, c int32, d int64, e int) (int8, int16, int32, int64, int, error)
	Unsigned(ctx context.Context, a uint8, b uint16, c uint32, d uint64, e uint) (uint8, uint16, uint32, uint64, uint, error)
	Other(ctx context.Context, a float32, b float64, c string, d bool, e []byte) (float32, float64, string, bool, []byte, error)
	Rows(ctx context.Context, row Row, rows []Row) (Row, []Row, error)
	Lists(ctx context.Context, a []int64, b []bool, c []float64, d map[string]int64, e map[int64]string) ([]int64, []bool, error)
}
`},
		{Label: "nested containers", Path: "sample.org/nested/svc", Name: "NestedService", Src: `package svc

import "context"

type Leaf struct {
	Name string
}

type Node struct {
	Leaf  *Leaf
	Kids  []*Leaf
	Named map[string]*Leaf
	Lists map[string][]string
	Maps  map[string]map[string]int64
	Grid  [][]int64
	Deep  []Mid
}

type Mid struct {
	Leafs []Leaf
}

type NestedService interface {
	Ptrs(ctx context.Context, kids []*Leaf, named map[string]*Leaf) ([]*Leaf, map[string]*Leaf, error)
	Lists(ctx context.Context, lists map[string][]Leaf, grid [][]string) ([][]string, error)
	Tree(ctx context.Context, node Node, nodes []Node) (Node, []Node, error)
}
`},
		{Label: "types of other packages", Path: "sample.org/users/workflow/users", Name: "UserService", Src: `package users

import (
	"context"

	"sample.org/users/common/errors"
	other "sample.org/users/model/v2/time"
	"sample.org/users/workflow/time"
)

type UserService interface {
	Find(ctx context.Context, at time.Stamp, id errors.Code) (other.Stamp, error)
	All(ctx context.Context, list []time.Stamp, byName map[string]other.Stamp) ([]other.Stamp, map[string]*time.Stamp, error)
}
`, Other: map[string]string{
			"sample.org/users/common/errors": `package errors

type Code struct {
	N int64
}
`,
			"sample.org/users/model/v2/time": `package time

type Stamp struct {
	V string
}
`,
			"sample.org/users/workflow/time": `package time

type Stamp struct {
	U int64
}
`,
		}},
		{Label: "records of packages with one name", Path: "sample.org/twins/workflow/shop", Name: "ShopService", Src: `package shop

import (
	"context"

	"sample.org/twins/front/model"
	other "sample.org/twins/store/model"
)

type Basket struct {
	Kept  model.Offer
	Stock other.Stock
}

type ShopService interface {
	Offer(ctx context.Context, what model.Offer) (model.Offer, error)
	Stock(ctx context.Context, of other.Stock) (other.Stock, error)
	Both(ctx context.Context, list []Basket) (map[string]other.Stock, error)
}
`, Other: map[string]string{
			"sample.org/twins/front/model": `package model

type Offer struct {
	Price int64
}
`,
			"sample.org/twins/store/model": `package model

type Stock struct {
	Left int64
}
`,
		}},
		{Label: "unnamed parameters", Path: "sample.org/plain/svc", Name: "PlainService", Src: `package svc

import "context"

type PlainService interface {
	One(context.Context, string, int64) (string, error)
	Two(ctx context.Context, a, b string) (error)
	Three(context.Context) (a string, b int64, err error)
}
`},
		{Label: "one method", Path: "sample.org/lone/svc", Name: "LoneService", Src: `package svc

import "context"

type LoneService interface {
	Only(ctx context.Context, key string) (string, error)
}
`},
		{Label: "methods named like generated code", Path: "sample.org/newer/svc", Name: "NewerService", Src: `package svc

import "context"

type Item struct {
	Name string
}

type NewerService interface {
	NewItem(ctx context.Context, name string) (Item, error)
	New(ctx context.Context, item Item) error
	GetItem(ctx context.Context, name string) (Item, error)
	Run2(ctx context.Context, items []Item) (int64, error)
}
`},
		{Label: "parameters named like what templates use", Group: "parameter names", Path: "sample.org/names/svc", Name: "NameService", Src: `package svc

import "context"

type NameService interface {
	One(ctx context.Context, client string, handler string, err string) (string, error)
	Two(ctx context.Context, service string, name string, url string) (string, error)
	Three(ctx context.Context, request string, response string, resp string, req string) (string, error)
	Four(ctx context.Context, time int64, errors int64, rand string, json string) (string, error)
	Five(ctx context.Context, span string, trace string, timeout int64, i int64) (string, error)
	Six(c context.Context, args string, vals string, ret0 string, retry string) (string, error)
}
`},
	}
}

const orderSrc = `package order

import "context"

type Rec struct {
	Customer string
	Items    []Item
}

type Item struct {
	Sku   string
	Count int64
}

type OrderService interface {
	Ping(ctx context.Context) error
	Place(ctx context.Context, rec Rec, note string) (Item, error)
}
`

// Order is a second service that may run next to the schematic one.
func (b *B) Order() *Sample {
	if b.order == nil {
		b.order = b.loadSample("sample.org/order/workflow/order", orderSrc, "OrderService")
	}
	return b.order
}

// Another evaluates nodes of another name and configuration.
func (b *B) Another() {
	b.inst, b.Alt = "leaf_y", true
}

// UseOrder makes the second service the one that generators are evaluated on.
func (b *B) UseOrder() {
	b.Sample = b.Order()
	b.inst = "other_x"
}

// Use makes the shape the service that generators are evaluated on.
func (b *B) Use(sh Shape) {
	b.SamplePkgs = map[string]*types.Package{}
	var ps []string
	for p := range sh.Other {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		f, err := parser.ParseFile(b.C.P.Fset, p+"/sample.go", sh.Other[p], 0)
		if err != nil {
			panic(err)
		}
		conf := types.Config{Importer: b}
		pkg, err := conf.Check(p, b.C.P.Fset, []*ast.File{f}, nil)
		if err != nil {
			panic(err)
		}
		b.SamplePkgs[p] = pkg
	}
	b.Sample = b.loadSample(sh.Path, sh.Src, sh.Name)
	b.Sample.Label = sh.Label
}

func (b *B) loadSample(path, src, name string) *Sample {
	f, err := parser.ParseFile(b.C.P.Fset, "sample.go", src, 0)
	if err != nil {
		panic(err)
	}
	info := newInfo()
	conf := types.Config{Importer: b}
	pkg, err := conf.Check(path, b.C.P.Fset, []*ast.File{f}, info)
	if err != nil {
		panic(err)
	}
	if b.SamplePkgs == nil {
		b.SamplePkgs = map[string]*types.Package{}
	}
	b.SamplePkgs[path] = pkg
	s := &Sample{Src: src, Path: path, Pkg: pkg, File: f, Info: info, Name: name, Base: name}
	s.Iface = pkg.Scope().Lookup(name).Type().Underlying().(*types.Interface)
	return s
}

func newInfo() *types.Info {
	return &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
}

// B holds the evaluator and what it needs to build schematic objects.
type B struct {
	others     map[string]bool // names of schematic nodes beside the one that is generated
	C          *core.Ctx
	M          *Machine
	exports    map[string]string
	impCach    map[string]*types.Package
	order      *Sample
	inst       string                  // name of the node that is evaluated
	Exts       map[string]*types.Named // generators that extend the interface they offer, by package
	Alt        bool                    // give nodes another configuration
	Rev        bool                    // iterate over maps the other way round
	SamplePkgs map[string]*types.Package
	Sample     *Sample
	Ran        []Ran                   // commands that were run
	RunFails   bool                    // commands fail
	parsed     map[*Value]*types.Named // described interfaces that are real ones
	targs      map[*types.TypeParam]types.Type
	asked      []*types.Named // implementations nodes asked for
}

// named finds a type of /repo; its absence makes the emission undecided.
func (b *B) named(pkg, name string) *types.Named {
	n := b.C.NamedType(pkg, name)
	if n == nil {
		panic(Undecided{Msg: "type " + pkg + "." + name + " not found"})
	}
	return n
}

// Ptr builds a pointer to a struct of a type of /repo with some fields set.
func (b *B) Ptr(pkg, name string, fields map[string]Value) *Ref {
	n := b.named(pkg, name)
	s := Zero(n).(*Struct)
	for k, v := range fields {
		if !s.Set(k, v) {
			panic(Undecided{Msg: "field " + k + " of " + pkg + "." + name + " not found"})
		}
	}
	return NewRef(s)
}

// I wraps a pointer value as an interface value.
func (b *B) I(pkg, name string, r *Ref) Iface {
	return Iface{T: types.NewPointer(b.named(pkg, name)), V: r}
}

const gocode = "plugins/golang/gocode"

// TypeName renders a Go type as the compiler's own description of types.
func (b *B) TypeName(t types.Type) Value {
	mk := func(name string, f map[string]Value) Value { return b.I(gocode, name, b.Ptr(gocode, name, f)) }
	switch u := types.Unalias(t).(type) {
	case *types.Basic:
		return mk("BasicType", map[string]Value{"Name": u.Name()})
	case *types.Named:
		if u.Obj().Pkg() == nil {
			return mk("BasicType", map[string]Value{"Name": u.Obj().Name()})
		}
		return mk("UserType", map[string]Value{"Package": u.Obj().Pkg().Path(), "Name": u.Obj().Name()})
	case *types.Pointer:
		return mk("Pointer", map[string]Value{"PointerTo": b.TypeName(u.Elem())})
	case *types.Slice:
		return mk("Slice", map[string]Value{"SliceOf": b.TypeName(u.Elem())})
	case *types.Map:
		return mk("Map", map[string]Value{"KeyType": b.TypeName(u.Key()), "ValueType": b.TypeName(u.Elem())})
	}
	panic(Undecided{Msg: "sample type " + t.String()})
}

func (b *B) variable(name string, t types.Type) Value {
	v := Zero(b.named(gocode, "Variable")).(*Struct)
	v.Set("Name", name)
	v.Set("Type", b.TypeName(t))
	return v
}

// Func describes a method without its context argument and error result, as the parser does.
func (b *B) Func(name string, sig *types.Signature) *Struct {
	f := Zero(b.named(gocode, "Func")).(*Struct)
	f.Set("Name", name)
	var as, rs Slice
	for i := 1; i < sig.Params().Len(); i++ {
		n := sig.Params().At(i).Name()
		if n == "" || n == "_" {
			// the parser names arguments that have no name; checks/g02 looks at that
			n = fmt.Sprintf("arg%d", i)
		}
		as = append(as, b.variable(n, sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len()-1; i++ {
		rs = append(rs, b.variable("", sig.Results().At(i).Type()))
	}
	if as != nil {
		f.Set("Arguments", as)
	}
	if rs != nil {
		f.Set("Returns", rs)
	}
	return f
}

// ServiceInterface describes the sample service.
func (b *B) ServiceInterface(s *Sample) Value {
	ut := Zero(b.named(gocode, "UserType")).(*Struct)
	ut.Set("Package", s.Path)
	ut.Set("Name", s.Name)
	mp := NewMap()
	for i := 0; i < s.Iface.NumMethods(); i++ {
		m := s.Iface.Method(i)
		mp.Set(m.Name(), b.Func(m.Name(), m.Type().(*types.Signature)))
	}
	r := b.Ptr(gocode, "ServiceInterface", map[string]Value{"UserType": ut, "BaseName": s.Base, "Methods": mp})
	return b.I(gocode, "ServiceInterface", r)
}

// External names an interface of the runtime that a node's peer offers.
func (b *B) External(pkg, name string) Value {
	ut := Zero(b.named(gocode, "UserType")).(*Struct)
	ut.Set("Package", pkg)
	ut.Set("Name", name)
	r := b.Ptr(gocode, "ServiceInterface", map[string]Value{"UserType": ut, "BaseName": name, "Methods": NewMap()})
	return b.I(gocode, "ServiceInterface", r)
}

var _ = token.NoPos
