package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- values on their way between the unit and the RPC ----

// A valuePath is a value at the place where it leaves the part of the program
// it was computed in.
type valuePath struct {
	name string
	pos  token.Pos
	st   *State // path
	k    *Facts // what is known there
	t    *Term
	typ  types.Type
	x    *Root
}

// leaves lists the numbers and texts a value is made of.
func leaves(in *Interp, st *State, name string, t *Term, typ types.Type, d int, f func(name string, t *Term, typ types.Type)) {
	if d > 4 || t == nil {
		return
	}
	if s := structOf(typ); s != nil {
		if typ.String() == "time.Time" {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if p, ok := typ.(*types.Named); ok && p.Obj().Pkg() != nil && strings.HasSuffix(p.Obj().Pkg().Path(), "rpc/comfo") && !protoField(s, i) {
				continue
			}
			leaves(in, st, name+"."+s.Field(i).Name(), mkField(t, i, s.Field(i).Type()), s.Field(i).Type(), d+1, f)
		}
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		f(name, t, typ)
	case *types.Pointer:
		if !t.isNil() && structOf(u.Elem()) != nil && t.Op != OSym && t.Op != OField {
			leaves(in, st, name, in.load(st, t, u.Elem()), u.Elem(), d+1, f)
		}
	case *types.Slice:
		c, off, n := in.viewOf(st, t)
		if v, ok := n.intConst(); ok && v <= 64 {
			for i := int64(0); i < v; i++ {
				leaves(in, st, fmt.Sprintf("%s[%d]", name, i), readIdx(st.k, c, addInt(st.k, off, mkInt(i, nil)), u.Elem()), u.Elem(), d+1, f)
			}
		} else if c != nil {
			leaves(in, st, name+"[i]", mkIndex(c, freshSym("i", types.Typ[types.Int]), u.Elem()), u.Elem(), d+1, f)
		}
	}
}

// values collects the values handed from one part of the program to the next:
// fields of successful library results and of values decoded, payload bytes,
// arguments of library calls and fields of RPC answers.
func (A *Analysis) values(r *Rep) (vs []valuePath) {
	P := A.P
	for _, x := range r.use(A.getters()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			v, t := x.resultStruct(o, 0)
			st := o.St.clone()
			st.k = k
			leaves(x.In, st, x.Fn.Name()+": "+libStruct(P, x.Fn.Signature.Results().At(0).Type()), v, t, 0, func(n string, t *Term, typ types.Type) {
				vs = append(vs, valuePath{n, x.Fn.Pos(), st, k, t, typ, x})
			})
		}
	}
	for _, x := range r.use(A.libOther()...) {
		s := x.Fn.Signature
		if s.Recv() == nil || x.Fn.Name() != "UnmarshalBinary" || x.errIdx() != 0 || len(x.Params) != 2 {
			continue
		}
		pt, ok := s.Recv().Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			st := o.St.clone()
			st.k = k
			leaves(x.In, st, "decoder of "+shortType(pt.Elem()), x.In.load(st, x.Params[0], pt.Elem()), pt.Elem(), 0, func(n string, t *Term, typ types.Type) {
				vs = append(vs, valuePath{n, x.Fn.Pos(), st, k, t, typ, x})
			})
		}
	}
	// encoders: the bytes they return; the last one of a packet is its checksum
	for _, x := range r.use(A.libOther()...) {
		s := x.Fn.Signature
		ei := x.errIdx()
		if !strings.HasPrefix(x.Fn.Name(), "Marshal") || ei < 1 {
			continue
		}
		if s.Recv() != nil {
			n, ok := s.Recv().Type().(*types.Named)
			if !ok || !n.Obj().Exported() {
				continue // reached from the exported functions only
			}
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			st := o.St.clone()
			st.k = k
			t, typ := x.ret(o, 0), s.Results().At(0).Type()
			name := "result of " + x.Fn.Name()
			if s.Recv() != nil {
				name = "result of (" + shortType(s.Recv().Type()) + ")." + x.Fn.Name()
			}
			add := func(n string, t *Term, typ types.Type) {
				vs = append(vs, valuePath{n, x.Fn.Pos(), st, k, t, typ, x})
			}
			sl, ok := typ.Underlying().(*types.Slice)
			if !ok {
				leaves(x.In, st, name, t, typ, 0, add)
				continue
			}
			c, off, n := x.In.viewOf(st, t)
			lo, hi := k.z.rng(n)
			if lo != hi {
				lo--
			}
			if s.Recv() == nil && P.packetArg(x.Params) != nil {
				lo = min(lo, 3) // payload and checksum are decided by C10 and C33
			}
			for i := int64(0); i < lo && i < 16; i++ {
				leaves(x.In, st, fmt.Sprintf("%s[%d]", name, i), readIdx(k, c, addInt(k, off, mkInt(i, nil)), sl.Elem()), sl.Elem(), 0, add)
			}
		}
	}
	for _, x := range r.use(A.libRoots()...) {
		seen := map[*Event]bool{}
		for _, st := range x.ends() {
			for _, e := range st.events() {
				if seen[e] || e.Kind != EvCall || e.Callee == nil || !P.isExchange(e.Callee) {
					continue
				}
				seen[e] = true
				at := st.clone()
				at.ev, at.k = e, e.Snap
				_, _, n := P.payloadOf(e)
				if n == nil {
					continue
				}
				_, hi := e.Snap.z.rng(n)
				for i := int64(0); i < hi && i < 300; i++ {
					vs = append(vs, valuePath{fmt.Sprintf("payload byte %d of %s", i, x.Fn.Name()), e.Pos, at, e.Snap, P.payloadByte(e.Snap, e, i), types.Typ[types.Byte], x})
				}
			}
		}
	}
	for _, x := range r.use(A.srvRoots()...) {
		seen := map[*Event]bool{}
		for _, st := range x.ends() {
			for _, e := range st.events() {
				if seen[e] || e.Kind != EvCall || e.Callee == nil || !P.libBoundary(e.Callee) {
					continue
				}
				seen[e] = true
				at := st.clone()
				at.ev, at.k = e, e.Snap
				ps := e.Callee.Params
				args := e.Args
				if e.Recv != nil {
					args = append([]*Term{e.Recv}, args...)
				}
				for i, a := range args {
					if i >= len(ps) || isConnType(ps[i].Type()) {
						continue
					}
					leaves(x.In, at, e.Callee.Name()+" argument "+ps[i].Name(), a, ps[i].Type(), 0, func(n string, t *Term, typ types.Type) {
						vs = append(vs, valuePath{n, e.Pos, at, e.Snap, t, typ, x})
					})
				}
			}
		}
	}
	for _, x := range r.use(A.handlerRoots()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			st := o.St.clone()
			st.k = k
			t := x.Fn.Signature.Results().At(0).Type()
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			v := x.ret(o, 0)
			if v.isNil() {
				continue
			}
			leaves(x.In, st, x.Fn.Name()+" answer", x.In.load(st, v, p.Elem()), p.Elem(), 0, func(n string, t *Term, typ types.Type) {
				vs = append(vs, valuePath{n, x.Fn.Pos(), st, k, t, typ, x})
			})
		}
	}
	return vs
}

// ---- numbers ----

// floatRange: bounds of a float established by comparisons on the path.
func floatRange(k *Facts, x *Term) (lo, hi float64) {
	lo, hi = -1e300, 1e300
	if iv, ok := intView(x); ok {
		l, h := k.z.rng(iv)
		if l > ninf {
			lo = float64(l)
		}
		if h < inf {
			hi = float64(h)
		}
		return
	}
	if x.Op == OConst && x.C != nil {
		v, _ := constant.Float64Val(x.C)
		return v, v
	}
	c := func(t *Term) (float64, bool) {
		if t.Op == OConst && t.C != nil && (t.C.Kind() == constant.Float || t.C.Kind() == constant.Int) {
			v, _ := constant.Float64Val(t.C)
			return v, true
		}
		return 0, false
	}
	if x.Op == OBin && len(x.Args) == 2 && isFloat(x.Typ) {
		l1, h1 := floatRange(k, x.Args[0])
		l2, h2 := floatRange(k, x.Args[1])
		if l1 > -1e299 && h1 < 1e299 && l2 > -1e299 && h2 < 1e299 {
			switch x.Tok {
			case token.ADD:
				lo, hi = l1+l2, h1+h2
			case token.SUB:
				lo, hi = l1-h2, h1-l2
			case token.MUL:
				lo, hi = min(l1*l2, l1*h2, h1*l2, h1*h2), max(l1*l2, l1*h2, h1*l2, h1*h2)
			case token.QUO:
				if l2 > 0 || h2 < 0 {
					lo, hi = min(l1/l2, l1/h2, h1/l2, h1/h2), max(l1/l2, l1/h2, h1/l2, h1/h2)
				}
			}
		}
	}
	if x.Op == OConv && len(x.Args) == 1 {
		if isFloat(x.Args[0].Typ) {
			l, h := floatRange(k, x.Args[0])
			lo, hi = max(lo, l), min(hi, h)
		} else if isInteger(x.Args[0].Typ) {
			l, h := k.z.rng(x.Args[0])
			lo, hi = max(lo, float64(l)), min(hi, float64(h))
		}
	}
	if x.Op == OPure && len(x.Args) == 1 {
		switch x.Name {
		case "math.Round", "math.Floor", "math.Ceil", "math.Trunc":
			l, h := floatRange(k, x.Args[0])
			lo, hi = max(lo, l-1), min(hi, h+1)
		}
	}
	for _, f := range k.f {
		t := f.t
		if t.Op != OBin || len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		for i := 0; i < 2; i++ {
			if t.Tok != token.LSS && t.Tok != token.LEQ && t.Tok != token.EQL {
				break
			}
			if a == x {
				if v, ok := c(b); ok {
					switch {
					case t.Tok == token.EQL && f.v:
						lo, hi = max(lo, v), min(hi, v)
					case t.Tok == token.EQL:
					case (i == 0) == f.v: // x < v, or not v < x
						hi = min(hi, v)
					default:
						lo = max(lo, v)
					}
				}
			}
			a, b = b, a
		}
	}
	return
}

// fits: the type can hold all values of the range.
func fits(lo, hi int64, t types.Type) bool {
	tl, th := typeRange(t)
	return lo >= tl && hi <= th
}

// wraps finds a place in a number's computation where its value may change by
// wrapping, or its high bits may be cut off.
func wraps(k *Facts, t *Term, evs []*Event) string {
	why := ""
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] || why != "" {
			return
		}
		seen[t] = true
		if b, off := t.lin(); b != nil {
			for _, e := range evs {
				wb, w := e.Val.lin()
				eb, ex := e.Recv.lin()
				if wb != b || eb != b || w == ex || off == 0 {
					continue // off == 0: the very value the computation started from
				}
				d := w - ex
				if d < 0 {
					d = -d
				}
				// is it the wrapped or the exact value that is used?
				a, c := off-w, off-ex
				if a < 0 {
					a = -a
				}
				if c < 0 {
					c = -c
				}
				if a < c && a < d/2 {
					why = "wraps around: " + e.Recv.String() + " does not fit"
					return
				}
			}
		}
		switch t.Op {
		case OLin:
			for _, a := range t.Args {
				visit(a)
			}
		case OConv:
			x := t.Args[0]
			switch {
			case isInteger(t.Typ) && isInteger(x.Typ):
				lo, hi := k.z.rng(x)
				if !fits(lo, hi, t.Typ) {
					why = fmt.Sprintf("%s may not fit %s (%s)", x, shortType(t.Typ), rngStr(lo, hi))
					return
				}
			case isInteger(t.Typ) && x.Typ != nil && isFloat(x.Typ):
				lo, hi := floatRange(k, x)
				tl, th := typeRange(t.Typ)
				if f, _ := formOf(k, x); f != nil {
					if a, b, ok := f.rng(k); ok {
						l, _ := a.Float64()
						h, _ := b.Float64()
						lo, hi = max(lo, l), min(hi, h)
					}
				}
				if lo <= float64(tl)-1 || hi >= float64(th)+1 {
					why = fmt.Sprintf("%s may not fit %s", x, shortType(t.Typ))
					return
				}
			}
			visit(x)
		case OBin:
			if len(t.Args) != 2 {
				return
			}
			a, b := t.Args[0], t.Args[1]
			if t.Typ != nil && isInteger(t.Typ) {
				l1, h1 := k.z.rng(a)
				l2, h2 := k.z.rng(b)
				bad := false
				switch t.Tok {
				case token.ADD:
					bad = !wide(t.Typ) && !fits(l1+l2, h1+h2, t.Typ) || wide(t.Typ) && isUnsigned(t.Typ) && (l1 < 0 || l2 < 0)
				case token.SUB:
					bad = !wide(t.Typ) && !fits(l1-h2, h1-l2, t.Typ) && !k.z.leq(b, a, 0) || isUnsigned(t.Typ) && wide(t.Typ) && !k.z.leq(b, a, 0)
				case token.MUL:
					l, h := mulRange(l1, h1, l2, h2)
					bad = !wide(t.Typ) && !fits(l, h, t.Typ)
				case token.SHL:
					bad = true
					if n, ok := b.intConst(); ok && n < 40 {
						l, h := mulRange(l1, h1, 1<<uint(n), 1<<uint(n))
						bad = !fits(l, h, t.Typ)
					}
				case token.AND:
					if v, ok := a.intConst(); ok {
						bad = isMask(v) && h2 > v
					}
					if v, ok := b.intConst(); ok {
						bad = isMask(v) && h1 > v
					}
				case token.REM:
					if l2 > 0 && h1 >= l2 {
						bad = true
					}
				}
				if bad {
					why = fmt.Sprintf("%s may not fit %s", t, shortType(t.Typ))
					return
				}
			}
			visit(a)
			visit(b)
		case OPure:
			if t.Typ == nil || !isInteger(t.Typ) && !isFloat(t.Typ) {
				return
			}
			for _, a := range t.Args {
				visit(a)
			}
		default:
			if iv, ok := intView(t); ok && iv != t {
				visit(iv)
			}
		}
	}
	visit(t)
	return why
}

func rngStr(lo, hi int64) string {
	f := func(v int64) string {
		if v <= ninf {
			return "-inf"
		}
		if v >= inf {
			return "inf"
		}
		return itoa(v)
	}
	return f(lo) + ".." + f(hi)
}

var debugValues = os.Getenv("COMFO_VALUES") != ""

func checkC26(A *Analysis, r *Rep) {
	r.rule("no-wrap", "on every path the number is computed without an integer operation or conversion whose exact result may lie outside the type it is given")
	for _, v := range A.values(r) {
		if !isInteger(v.typ) && !isFloat(v.typ) {
			continue
		}
		var evs []*Event
		for _, e := range v.st.events() {
			if e.Kind == EvWrap {
				evs = append(evs, e)
			}
		}
		why := wraps(v.k, v.t, evs)
		if debugValues {
			fmt.Println(v.name, v.t, why)
		}
		r.check("no-wrap", v.name, v.pos, why == "", v.st, "%s", why)
	}
	r.atLeast("no-wrap", 100)
}

// ---- texts ----

// copied: the struct type and field, or the variable, a text was copied from.
type copied struct {
	typ   types.Type
	field int
	addr  *Term
}

type textCheck struct {
	A    *Analysis
	need map[string]copied
}

var keepsUTF8 = map[string]bool{
	"strings.TrimSpace": true, "strings.TrimRight": true, "strings.TrimLeft": true, "strings.Trim": true, "strings.TrimFunc": true,
	"strings.TrimRightFunc": true, "strings.TrimLeftFunc": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.Clone": true,
	"strings.ReplaceAll": true, "strings.Replace": true, "strings.Repeat": true, "strings.Title": true,
}

var makesUTF8 = map[string]bool{
	"(time.Duration).String": true, "strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true,
	"strconv.FormatFloat": true, "strconv.FormatBool": true, "strconv.Quote": true, "strconv.QuoteToASCII": true,
	"encoding/hex.EncodeToString": true, "strings.ToTitle": true, "strings.Map": true, "(time.Time).String": true,
	"strings.ToValidUTF8": true,
}

// valid: the text is valid UTF-8 whatever the unit sends; texts copied from
// elsewhere are noted in need.
func (c *textCheck) valid(k *Facts, t *Term, d int) string {
	t = strip(t)
	if t == nil || d > 8 {
		return "its origin is not known"
	}
	if s, ok := t.strConst(); ok {
		if utf8.ValidString(s) {
			return ""
		}
		return "it is not valid UTF-8"
	}
	if t.Op == OZero {
		return ""
	}
	if validFact(k, t) {
		return ""
	}
	name := ""
	var args []*Term
	var cont *Term
	var self []*Term
	switch {
	case t.Op == OPure:
		name, args = t.Name, t.Args
		if name == "concat" {
			for _, a := range args {
				if why := c.valid(k, a, d+1); why != "" {
					return why
				}
			}
			return ""
		}
		if name == "rune2str" || name == "runes2str" {
			return ""
		}
		if name == "substr" {
			if v, ok := args[1].intConst(); ok && v == 0 && wholeStr(t) {
				return c.valid(k, args[0], d+1)
			}
			return "it is cut out of a text and may begin or end within a character"
		}
		if name == "bytes2str" {
			return "it is made of arbitrary bytes"
		}
	case t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall:
		name, args, cont = t.Org.Name, t.Org.Args, t.Org.Cont
		if t.Org.Recv != nil {
			self = []*Term{t.Org.Recv}
		}
	case t.Op == OConv && isString(t.Typ):
		if sl, ok := t.Args[0].Typ.Underlying().(*types.Slice); ok && sl.Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
			return ""
		}
		return c.valid(k, t.Args[0], d+1)
	}
	switch {
	case makesUTF8[name]:
		for _, a := range args[min(1, len(args)):] {
			if a.Typ != nil && isString(a.Typ) || a.Op == OConst && a.C != nil && a.C.Kind() == constant.String {
				if why := c.valid(k, a, d+1); why != "" {
					return why
				}
			}
		}
		return ""
	case keepsUTF8[name]:
		for _, a := range args {
			if _, isStr := a.strConst(); !isStr && (a.Typ == nil || !isString(a.Typ)) {
				continue
			}
			if why := c.valid(k, a, d+1); why != "" {
				return why
			}
		}
		return ""
	case strings.HasPrefix(name, "fmt.Sprint"):
		// formatted parts
		bad := ""
		for _, a := range append(append([]*Term{}, self...), args...) {
			if _, ok := a.strConst(); ok {
				if why := c.valid(k, a, d+1); why != "" {
					bad = why
				}
			}
		}
		if cont != nil {
			cont.walk(func(x *Term) bool {
				if bad != "" {
					return false
				}
				if x.Op == OIface {
					y := strip(x)
					if y.Typ != nil && isString(y.Typ) {
						bad = c.valid(k, y, d+1)
						return false
					}
					if isNumeric(x.Typ) || isTime(x.Typ) || x.Typ.String() == "time.Duration" {
						return false
					}
					bad = "it is formatted from a " + shortType(x.Typ)
					return false
				}
				return true
			})
		}
		return bad
	case name == "(time.Time).Format" || name == "(time.Time).AppendFormat":
		return c.valid(k, args[len(args)-1], d+1)
	case strings.HasSuffix(name, ").String") && strings.Contains(name, "rpc/comfo."):
		return "" // names of enum values
	}
	// copied from a field or variable
	if t.Op == OField {
		b := t.Args[0]
		bt := b.Typ
		s := structOf(bt)
		if s == nil {
			return "its origin is not known: " + t.String()
		}
		if p := b.Src; p != nil && p.Op == OSym && strings.Contains(typOf(p).String(), "rpc/comfo.") {
			return "" // part of a decoded request
		}
		if n := libStruct(c.A.P, bt); n != "" {
			c.need[n+"."+s.Field(int(t.Off)).Name()] = copied{typ: bt, field: int(t.Off)}
			return ""
		}
		if root := baseSrc(t); root != nil {
			c.need["variable "+t.String()] = copied{addr: addrOfCopy(t)}
			return ""
		}
	}
	if t.Op == OSym && t.Src != nil {
		c.need["variable "+t.Src.String()] = copied{addr: t.Src}
		return ""
	}
	return "its origin is not known to be valid UTF-8: " + t.String()
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
}

func baseSrc(t *Term) *Term {
	for t.Op == OField {
		t = t.Args[0]
	}
	return t.Src
}

func addrOfCopy(t *Term) *Term {
	if t.Op == OField {
		a := addrOfCopy(t.Args[0])
		if a == nil {
			return nil
		}
		return mkFieldAddr(a, int(t.Off), t.Typ)
	}
	return t.Src
}

func validFact(k *Facts, t *Term) bool {
	for _, f := range k.f {
		if f.v && f.t.Op == OPure && (f.t.Name == "unicode/utf8.ValidString") && f.t.Args[0] == t {
			return true
		}
		if f.v && f.t.Op == OPure && f.t.Name == "unicode/utf8.Valid" && t.Op == OPure && t.Name == "bytes2str" {
			if f.t.Args[len(f.t.Args)-1].contains(func(x *Term) bool { return x == t.Args[0] }) {
				return true
			}
		}
	}
	return false
}

func checkC25(A *Analysis, r *Rep) {
	r.rule("answer-text", "every text in an RPC answer is valid UTF-8: made so on the path, or copied from a field or variable that is")
	r.rule("source-text", "whatever the unit's reply or other source, the field or variable texts in answers are copied from is given only valid UTF-8")
	c := &textCheck{A: A, need: map[string]copied{}}
	vs := A.values(r)
	for _, v := range vs {
		if isString(v.typ) && strings.Contains(v.name, " answer.") {
			why := c.valid(v.k, v.t, 0)
			r.check("answer-text", v.name, v.pos, why == "", v.st, "%s", why)
		}
	}
	done := map[string]bool{}
	for round := 0; round < 6; round++ {
		var todo []string
		for n := range c.need {
			if !done[n] {
				todo = append(todo, n)
			}
		}
		if len(todo) == 0 {
			break
		}
		for _, n := range todo {
			done[n] = true
			w := c.need[n]
			if w.addr == nil {
				for _, v := range vs {
					if isString(v.typ) && (strings.HasSuffix(v.name, ": "+n) || strings.HasSuffix(v.name, "decoder of "+pkgless(n, v.name))) {
						why := c.valid(v.k, v.t, 0)
						r.check("source-text", v.name, v.pos, why == "", v.st, "%s", why)
					}
				}
				continue
			}
			for _, x := range append(r.use(A.srvRoots()...), r.use(A.handlerRoots()...)...) {
				x.eachEvent(func(e *Event) {
					if e.Kind != EvStore || e.Val == nil {
						return
					}
					v := e.Val
					if e.Addr != w.addr {
						v = below(e.Addr, w.addr, e.Val)
						if v == nil {
							return
						}
					}
					why := c.valid(e.Snap, v, 0)
					r.check("source-text", n+" in "+fnOf(e), e.Pos, why == "", &State{ev: e, k: e.Snap}, "%s", why)
				})
			}
		}
	}
	r.atLeast("answer-text", 4)
	r.atLeast("source-text", 1)
}

func pkgless(n, in string) string {
	i := strings.Index(in, "decoder of ")
	if i < 0 {
		return n
	}
	s := in[i+len("decoder of "):]
	if j := strings.Index(s, "."); j >= 0 && strings.Count(s, ".") > 1 {
		return s[:j+1] + n
	}
	return n
}

// below: the part of a stored value that ends up at an address within it.
func below(at, a, v *Term) *Term {
	var path []*Term
	for x := a; x != nil && x.Op == OFieldAddr; x = x.Args[0] {
		path = append(path, x)
		if x.Args[0] == at {
			for i := len(path) - 1; i >= 0; i-- {
				v = mkField(v, int(path[i].Off), path[i].Typ)
			}
			return v
		}
	}
	return nil
}

var _ *ssa.Function
