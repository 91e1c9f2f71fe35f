package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a hash-consed value number. Two SSA values with the same Term are
// equal in every execution described by the abstract path they occur on.
type Op uint8

const (
	OConst     Op = iota // C (nil: the nil value)
	OSym                 // an unknown; Name is unique
	OLin                 // Args[0] + Off, mathematically exact
	OBin                 // Args[0] Tok Args[1]
	OUn                  // Tok Args[0]
	OConv                // value-changing conversion of Args[0] to Typ
	OLen                 // length of Args[0]
	OCap                 // capacity
	OAlloc               // address of an allocation instance (also maps, chans)
	OGlobal              // address of a package variable
	OFieldAddr           // address of field Off of *Args[0]
	OIndexAddr           // address of element Args[1] of array at Args[0] (or of OData)
	OData                // backing store of unknown slice Args[0]
	OField               // field Off of struct value Args[0]
	OIndex               // element Args[1] of array/string/slice content Args[0]
	OSlice               // slice value: base, off, len, cap
	OIface               // interface value of dynamic type Typ holding Args[0]
	OFunc                // function value Obj
	OClosure             // closure of Obj with Args bindings
	OStruct              // struct value of type Typ with Args fields
	OArray               // array value of type Typ with Args elements
	OZero                // zero value of struct/array type Typ
	OTuple
	OAppend // content of append(Args[0], Args[1]...)
	OPure   // pure function Name of Args
)

type Term struct {
	ID   int
	Op   Op
	Typ  types.Type
	Args []*Term
	C    constant.Value
	Off  int64
	Tok  token.Token
	Name string
	Obj  any
	Uniq int // order of creation of a fresh symbol

	NonNil bool   // symbol known to be non-nil
	Org    *Event // event that produced an opaque symbol, if any
	By     *Event // for content symbols: the foreign call that may have written it
	Src    *Term  // for content symbols: the memory root they stand for
	lo, hi int64  // intrinsic numeric range (hasRange)
	ranged bool
}

type terms struct {
	tab  map[string]*Term
	n    int
	uniq int
}

var T = &terms{tab: map[string]*Term{}}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	return types.TypeString(t, nil)
}

func (ts *terms) mk(t Term, key string) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.Op)))
	b.WriteByte('|')
	b.WriteString(key)
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if x, ok := ts.tab[k]; ok {
		return x
	}
	ts.n++
	n := t
	n.ID = ts.n
	ts.tab[k] = &n
	return &n
}

func constKey(c constant.Value) string {
	if c == nil {
		return "nil"
	}
	switch c.Kind() {
	case constant.Int:
		return "i:" + c.ExactString()
	case constant.String:
		return "s:" + c.ExactString()
	case constant.Bool:
		return "b:" + c.ExactString()
	}
	return fmt.Sprintf("k%d:%s", c.Kind(), c.ExactString())
}

func mkConst(c constant.Value, t types.Type) *Term {
	if c != nil && isFloat(t) {
		c = constant.ToFloat(c)
		return T.mk(Term{Op: OConst, C: c, Typ: t}, "f:"+c.ExactString())
	}
	if c != nil && isInteger(t) {
		c = constant.ToInt(c)
	}
	return T.mk(Term{Op: OConst, C: c, Typ: t}, constKey(c))
}

func mkInt(v int64, t types.Type) *Term {
	if t == nil {
		t = types.Typ[types.Int]
	}
	return mkConst(constant.MakeInt64(v), t)
}
func mkBool(v bool) *Term { return mkConst(constant.MakeBool(v), types.Typ[types.Bool]) }
func mkNil(t types.Type) *Term {
	return T.mk(Term{Op: OConst, Typ: t}, "nil")
}
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }

func freshSym(name string, t types.Type) *Term {
	T.uniq++
	return T.mk(Term{Op: OSym, Typ: t, Uniq: T.uniq, Name: fmt.Sprintf("%s#%d", name, T.uniq)}, fmt.Sprintf("%s#%d", name, T.uniq))
}

func freshAlloc(name string, t types.Type, obj any) *Term {
	T.uniq++
	n := fmt.Sprintf("%s#%d", name, T.uniq)
	return T.mk(Term{Op: OAlloc, Typ: t, Name: n, Obj: obj, NonNil: true}, n)
}

// mkGlobal returns the address of a package variable; Typ is the variable's type.
func mkGlobal(g *ssa.Global) *Term {
	return T.mk(Term{Op: OGlobal, Typ: g.Type().Underlying().(*types.Pointer).Elem(), Obj: g, Name: g.Pkg.Pkg.Path() + "." + g.Name(), NonNil: true}, g.Pkg.Pkg.Path()+"."+g.Name())
}

func mkFieldAddr(base *Term, i int, t types.Type) *Term {
	return T.mk(Term{Op: OFieldAddr, Args: []*Term{base}, Off: int64(i), Typ: t, NonNil: true}, strconv.Itoa(i))
}
func mkIndexAddr(base, idx *Term, t types.Type) *Term {
	return T.mk(Term{Op: OIndexAddr, Args: []*Term{base, idx}, Typ: t, NonNil: true}, "")
}
func mkData(s *Term, t types.Type) *Term {
	return T.mk(Term{Op: OData, Args: []*Term{s}, Typ: t, NonNil: true}, "")
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0, t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.ToFloat(constant.MakeInt64(0)), t)
		}
		return mkNil(t)
	case *types.Struct, *types.Array:
		return T.mk(Term{Op: OZero, Typ: t}, typeKey(t))
	case *types.Tuple:
		var a []*Term
		for i := 0; i < u.Len(); i++ {
			a = append(a, zeroTerm(u.At(i).Type()))
		}
		return mkTuple(a)
	}
	return mkNil(t)
}

func mkTuple(a []*Term) *Term { return T.mk(Term{Op: OTuple, Args: a}, "") }

func mkStruct(t types.Type, fields []*Term) *Term {
	return T.mk(Term{Op: OStruct, Typ: t, Args: fields}, typeKey(t))
}
func mkArray(t types.Type, el []*Term) *Term {
	return T.mk(Term{Op: OArray, Typ: t, Args: el}, typeKey(t))
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkField(x *Term, i int, t types.Type) *Term {
	switch x.Op {
	case OStruct:
		if i < len(x.Args) {
			return x.Args[i]
		}
	case OZero:
		return zeroTerm(t)
	}
	return T.mk(Term{Op: OField, Args: []*Term{x}, Off: int64(i), Typ: t}, strconv.Itoa(i))
}

// expand turns a struct value into an explicit OStruct.
func expand(x *Term, t types.Type) *Term {
	if x.Op == OStruct {
		return x
	}
	s := structOf(t)
	var f []*Term
	for i := 0; i < s.NumFields(); i++ {
		f = append(f, mkField(x, i, s.Field(i).Type()))
	}
	return mkStruct(t, f)
}

const maxArr = 64

func expandArr(x *Term, t types.Type) *Term {
	a := t.Underlying().(*types.Array)
	if x.Op == OArray {
		return x
	}
	if a.Len() > maxArr {
		return nil
	}
	var f []*Term
	for i := int64(0); i < a.Len(); i++ {
		f = append(f, mkIndex(x, mkInt(i, nil), a.Elem()))
	}
	return mkArray(t, f)
}

func mkIndex(x, i *Term, t types.Type) *Term {
	if v, ok := i.intConst(); ok {
		switch x.Op {
		case OArray:
			if v >= 0 && v < int64(len(x.Args)) {
				return x.Args[v]
			}
		case OZero:
			return zeroTerm(t)
		case OConst:
			if x.C != nil && x.C.Kind() == constant.String {
				s := constant.StringVal(x.C)
				if v >= 0 && v < int64(len(s)) {
					return mkInt(int64(s[v]), t)
				}
			}
		}
	}
	if x.Op == OZero {
		return zeroTerm(t)
	}
	return T.mk(Term{Op: OIndex, Args: []*Term{x, i}, Typ: t}, "")
}

func mkSlice(base, off, ln, cp *Term, t types.Type) *Term {
	return T.mk(Term{Op: OSlice, Args: []*Term{base, off, ln, cp}, Typ: t, NonNil: true}, "")
}

func mkIface(dyn types.Type, x *Term) *Term {
	return T.mk(Term{Op: OIface, Typ: dyn, Args: []*Term{x}, NonNil: true}, typeKey(dyn))
}

func mkFunc(f *ssa.Function) *Term {
	return T.mk(Term{Op: OFunc, Obj: f, Typ: f.Signature, NonNil: true}, fmt.Sprintf("%p", f))
}
func mkClosure(f *ssa.Function, b []*Term) *Term {
	return T.mk(Term{Op: OClosure, Obj: f, Args: b, Typ: f.Signature, NonNil: true}, fmt.Sprintf("%p", f))
}
func mkPure(name string, t types.Type, args ...*Term) *Term {
	return T.mk(Term{Op: OPure, Name: name, Typ: t, Args: args}, name+"/"+typeKey(t))
}

func mkLin(base *Term, off int64, t types.Type) *Term {
	if base == nil {
		return mkInt(off, t)
	}
	if base.Op == OLin {
		off += base.Off
		base = base.Args[0]
	}
	if v, ok := base.intConst(); ok {
		return mkInt(v+off, t)
	}
	if off == 0 {
		return base
	}
	return T.mk(Term{Op: OLin, Args: []*Term{base}, Off: off, Typ: t}, strconv.FormatInt(off, 10))
}

func (t *Term) intConst() (int64, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) boolConst() (bool, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) strConst() (string, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) isNil() bool { return t.Op == OConst && t.C == nil }

// lin decomposes an integer term into base + offset (base nil: constant).
func (t *Term) lin() (*Term, int64) {
	if v, ok := t.intConst(); ok {
		return nil, v
	}
	if t.Op == OLin {
		return t.Args[0], t.Off
	}
	return t, 0
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

const (
	inf  = int64(1) << 62
	ninf = -inf
)

// typeRange is the range of values of an integer type, saturated at +-inf.
func typeRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ninf, inf
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1
	}
	return ninf, inf
}

// intRange is the intrinsic range of an integer term.
func (t *Term) intRange() (int64, int64) {
	if v, ok := t.intConst(); ok {
		return v, v
	}
	if t.Op == OLin {
		l, h := t.Args[0].intRange()
		return satAdd(l, t.Off), satAdd(h, t.Off)
	}
	lo, hi := ninf, inf
	if t.Typ != nil {
		lo, hi = typeRange(t.Typ)
	}
	if t.Op == OLen || t.Op == OCap {
		lo, hi = 0, inf-1024
	}
	if t.ranged {
		if t.lo > lo {
			lo = t.lo
		}
		if t.hi < hi {
			hi = t.hi
		}
	}
	return lo, hi
}

func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	if a <= ninf || b <= ninf {
		return ninf
	}
	s := a + b
	if s >= inf {
		return inf
	}
	if s <= ninf {
		return ninf
	}
	return s
}

func (t *Term) fn() *ssa.Function {
	f, _ := t.Obj.(*ssa.Function)
	return f
}

// root and path of an address term.
func (t *Term) root() *Term {
	for t.Op == OFieldAddr || t.Op == OIndexAddr {
		t = t.Args[0]
	}
	return t
}

func (t *Term) globalRoot() *ssa.Global {
	r := t.root()
	if r.Op == OGlobal {
		return r.Obj.(*ssa.Global)
	}
	return nil
}

// walk visits t and its arguments (not provenance links).
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			w(a)
		}
	}
	w(t)
}

func (t *Term) contains(p func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if p(x) {
			found = true
		}
		return !found
	})
	return found
}

var opNames = map[token.Token]string{}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].str(d + 1) }
	switch t.Op {
	case OConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case OSym:
		return t.Name
	case OLin:
		return fmt.Sprintf("(%s%+d)", a(0), t.Off)
	case OBin:
		return fmt.Sprintf("(%s %s %s)", a(0), t.Tok, a(1))
	case OUn:
		return fmt.Sprintf("%s%s", t.Tok, a(0))
	case OConv:
		return fmt.Sprintf("%s(%s)", shortType(t.Typ), a(0))
	case OLen:
		return fmt.Sprintf("len(%s)", a(0))
	case OCap:
		return fmt.Sprintf("cap(%s)", a(0))
	case OAlloc:
		return "&" + t.Name
	case OGlobal:
		return "&" + t.Obj.(*ssa.Global).Name()
	case OFieldAddr:
		return fmt.Sprintf("%s.%s", a(0), fieldName(t.Args[0].elemTyp(), int(t.Off)))
	case OIndexAddr:
		return fmt.Sprintf("%s[%s]", a(0), a(1))
	case OData:
		return fmt.Sprintf("data(%s)", a(0))
	case OField:
		return fmt.Sprintf("%s.%s", a(0), fieldName(t.Args[0].Typ, int(t.Off)))
	case OIndex:
		return fmt.Sprintf("%s[%s]", a(0), a(1))
	case OSlice:
		return fmt.Sprintf("%s[%s:+%s]", a(0), a(1), a(2))
	case OIface:
		return fmt.Sprintf("iface(%s)", a(0))
	case OFunc:
		return t.fn().Name()
	case OClosure:
		return "closure " + t.fn().Name()
	case OZero:
		return shortType(t.Typ) + "{}"
	}
	var s []string
	for i := range t.Args {
		s = append(s, a(i))
	}
	n := map[Op]string{OStruct: "", OArray: "array", OTuple: "", OAppend: "append", OPure: t.Name}[t.Op]
	if t.Op == OStruct {
		n = shortType(t.Typ)
	}
	return n + "{" + strings.Join(s, ", ") + "}"
}

// elemTyp is the type of the value an address points to.
func (t *Term) elemTyp() types.Type {
	switch t.Op {
	case OFieldAddr, OIndexAddr, OAlloc, OGlobal, OData:
		return t.Typ // addresses store their element type
	}
	if t.Typ != nil {
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return t.Typ
}

func fieldName(t types.Type, i int) string {
	if s := structOf(t); s != nil && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// occupies: values of the type take up memory, so that two of them differ in
// address.
func occupies(t types.Type) bool {
	return t != nil && types.SizesFor("gc", "amd64").Sizeof(t) > 0
}
