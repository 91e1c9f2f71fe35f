package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"
)

// ---- what a value depends on ----

// deps collects which bytes of a buffer a term is computed from. other is a
// leaf that is not part of the buffer.
type deps struct {
	set   map[int64]bool
	other *Term
}

// bufferOf: the term is the contents of the buffer.
func bufferOf(t *Term, buf *Term) bool {
	return t == buf || t.Src != nil && t.Src == buf.Src && buf.Src != nil
}

func depsOf(k *Facts, t, buf *Term) *deps {
	d := &deps{set: map[int64]bool{}}
	seen := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] || d.other != nil {
			return
		}
		seen[x] = true
		switch x.Op {
		case OIndex:
			if bufferOf(x.Args[0], buf) {
				if v, ok := constOf(k, x.Args[1]); ok {
					d.set[v] = true
					return
				}
				d.other = x
				return
			}
		case OLen, OCap:
			if _, ok := constOf(k, x); ok {
				return
			}
			d.other = x
			return
		case OPure:
			if (x.Name == "bytes2str" || x.Name == "view" || x.Name == "sum") && len(x.Args) == 3 && bufferOf(x.Args[0], buf) {
				off, ok1 := constOf(k, x.Args[1])
				n, ok2 := constOf(k, x.Args[2])
				if x.Name == "sum" {
					n -= off
				}
				if ok1 && ok2 && n <= 4096 {
					for i := int64(0); i < n; i++ {
						d.set[off+i] = true
					}
					return
				}
				d.other = x
				return
			}
		case OSym:
			d.other = x
			return
		case OField:
			if s := x; s.Args[0].Op == OSym {
				d.other = x
				return
			}
		case OAlloc, OGlobal:
			d.other = x
			return
		case OConst, OFunc, OZero:
			return
		}
		for _, a := range x.Args {
			w(a)
		}
	}
	w(t)
	return d
}

func (d *deps) subset(b map[int64]bool) bool {
	if d.other != nil {
		return false
	}
	for i := range d.set {
		if !b[i] {
			return false
		}
	}
	return true
}

func idxList(m map[int64]bool) string {
	var l []int
	for i := range m {
		l = append(l, int(i))
	}
	sort.Ints(l)
	return strings.Trim(fmt.Sprint(l), "[]")
}

// linBytes writes an integer term as an exact linear sum; false if it cannot.
func linBytes(k *Facts, t *Term, f int64, m map[*Term]int64, c *int64) bool {
	if v, ok := t.intConst(); ok {
		*c += f * v
		return true
	}
	switch t.Op {
	case OLin:
		*c += f * t.Off
		return linBytes(k, t.Args[0], f, m, c)
	case OPure:
		if t.Name == "be" {
			for i, a := range t.Args {
				if !linBytes(k, a, f<<(8*uint(len(t.Args)-1-i)), m, c) {
					return false
				}
			}
			return true
		}
	case OConv:
		lo, hi := typeRange(t.Typ)
		l, h := k.z.rng(t.Args[0])
		if isInteger(t.Typ) && l >= lo && h <= hi {
			return linBytes(k, t.Args[0], f, m, c)
		}
	case OBin:
		switch t.Tok {
		case token.ADD:
			return linBytes(k, t.Args[0], f, m, c) && linBytes(k, t.Args[1], f, m, c)
		case token.OR, token.XOR:
			if bits(k, t.Args[0])&bits(k, t.Args[1]) == 0 {
				return linBytes(k, t.Args[0], f, m, c) && linBytes(k, t.Args[1], f, m, c)
			}
		case token.SHL:
			if v, ok := t.Args[1].intConst(); ok && v >= 0 && v < 32 {
				// no bits lost
				if _, hi := k.z.rng(t.Args[0]); t.Typ != nil {
					_, th := typeRange(t.Typ)
					if hi < 1<<31 && hi<<uint(v) <= th {
						return linBytes(k, t.Args[0], f<<uint(v), m, c)
					}
				}
			}
		case token.MUL:
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].intConst(); ok && v >= 0 && v < 1<<31 {
					_, hi := k.z.rng(t.Args[1-i])
					if t.Typ != nil {
						_, th := typeRange(t.Typ)
						if hi < 1<<31 && hi*v <= th {
							return linBytes(k, t.Args[1-i], f*v, m, c)
						}
					}
				}
			}
		}
	}
	m[t] += f
	return true
}

// bits: a mask of the bits that may be set in a non-negative term.
func bits(k *Facts, t *Term) int64 {
	if v, ok := t.intConst(); ok && v >= 0 {
		return v
	}
	switch {
	case t.Op == OBin && t.Tok == token.SHL:
		if v, ok := t.Args[1].intConst(); ok && v >= 0 && v < 40 {
			if b := bits(k, t.Args[0]); b >= 0 && b < 1<<20 {
				return b << uint(v)
			}
		}
	case t.Op == OBin && t.Tok == token.MUL:
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[i].intConst(); ok && v > 0 && v < 1<<30 && v&(v-1) == 0 {
				if b := bits(k, t.Args[1-i]); b >= 0 && b < 1<<20 {
					return b * v
				}
			}
		}
	case t.Op == OBin && (t.Tok == token.OR || t.Tok == token.XOR):
		return bits(k, t.Args[0]) | bits(k, t.Args[1])
	case t.Op == OPure && t.Name == "be":
		r := int64(0)
		for i, a := range t.Args {
			r |= bits(k, a) << (8 * uint(len(t.Args)-1-i))
		}
		return r
	}
	lo, hi := k.z.rng(t)
	if lo < 0 || hi >= 1<<40 {
		return -1
	}
	b := int64(1)
	for b <= hi {
		b <<= 1
	}
	return b - 1
}

// ---- the protocol ----

type layout struct {
	n      int64
	fields map[string][]int64
}

func span(a, b int64) []int64 {
	var r []int64
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return r
}

// layouts: payload length and position of each field, as assigned by the
// Zehnder ComfoAir serial protocol. Only fields listed here exist on the wire.
var layouts = map[string]layout{
	"BootInfo": {13, map[string][]int64{"MajorVersion": {0}, "MinorVersion": {1}, "BetaVersion": {2}, "DeviceName": span(3, 12)}},
	"Temps": {9, map[string][]int64{"Comfort": {0}, "OutsideAir": {1}, "SupplyAir": {2}, "InsideAir": {3}, "ExhaustAir": {4},
		"GeoHeat": {6}, "Reheating": {7}, "KitchenHood": {8}}},
	"Bypass": {7, map[string][]int64{"Factor": {2}, "Level": {3}, "Correction": {4}, "SummerMode": {6}}},
	"Hours": {20, map[string][]int64{"FanAway": {0, 1, 2}, "FanLow": {3, 4, 5}, "FanMid": {6, 7, 8}, "FanHigh": {17, 18, 19},
		"FrostProtect": {9, 10}, "Reheating": {11, 12}, "BypassOpen": {13, 14}, "Filter": {15, 16}}},
	"Fans": {6, map[string][]int64{"InPercent": {0}, "OutPercent": {1}, "InSpeed": {2, 3}, "OutSpeed": {4, 5}}},
	"FanProfiles": {14, map[string][]int64{"OutAway": {0}, "OutLow": {1}, "OutMid": {2}, "InAway": {3}, "InLow": {4}, "InMid": {5},
		"CurrentOut": {6}, "CurrentIn": {7}, "CurrentMode": {8}, "InFanActive": {9}, "OutHigh": {10}, "InHigh": {11}}},
	"Errors": {17, map[string][]int64{"Filter": {8}}},
}

// converted fields: not the plain number in their bytes.
var converted = map[string]bool{"Fans.InSpeed": true, "Fans.OutSpeed": true}

// request codes of the getters, by the protocol.
var getterCode = map[string]int64{
	"GetFans": 0x0B, "GetBootloader": 0x67, "GetFirmware": 0x69, "GetFanProfiles": 0xCD,
	"GetTemperatures": 0xD1, "GetErrors": 0xD9, "GetHours": 0xDD, "GetBypass": 0xDF,
}

func libStruct(P *Program, t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != P.Lib.Pkg || structOf(t) == nil {
		return ""
	}
	return n.Obj().Name()
}

// getters: library calls that return decoded data.
func (A *Analysis) getters() []*Root {
	var r []*Root
	for _, x := range A.libRoots() {
		res := x.Fn.Signature.Results()
		if res.Len() == 2 && isErrorType(res.At(1).Type()) && libStruct(A.P, res.At(0).Type()) != "" {
			r = append(r, x)
		}
	}
	return r
}

// failure gives the facts of a path when its error result is not nil.
func (r *Root) failure(o *Outcome) *Facts {
	i := r.errIdx()
	if o.Kind != KRet || i < 0 {
		return nil
	}
	e := r.ret(o, i)
	if e.isNil() || knownNil(o.St.k, e) {
		return nil
	}
	k := o.St.k.clone()
	if !k.nonNil(e) && !k.assume(isNilCond(e), false) {
		return nil
	}
	return k
}

// resultStruct: the struct value of a result, through a pointer if need be.
func (x *Root) resultStruct(o *Outcome, i int) (*Term, types.Type) {
	v := x.ret(o, i)
	t := x.Fn.Signature.Results().At(i).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v.isNil() {
			return v, p.Elem()
		}
		return x.In.load(o.St, v, p.Elem()), p.Elem()
	}
	return v, t
}

func isZeroVal(k *Facts, v *Term, t types.Type) bool {
	if v.isNil() || v.Op == OZero || v == zeroTerm(t) {
		return true
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if !isZeroVal(k, mkField(v, i, s.Field(i).Type()), s.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	if isBoolT(v) {
		return knownFalse(k, v)
	}
	if isInteger(t) {
		return isByteConst(k, v, 0)
	}
	return false
}

// replyBuf: contents and length of the reply of an exchange.
func (x *Root) replyBuf(st *State, e *Event) (c, n *Term) {
	d := x.In.P.pfield(e.result(0), "Data")
	if d == nil {
		return nil, nil
	}
	c, off, n := x.In.viewOf(st, d)
	if v, ok := off.intConst(); !ok || v != 0 {
		return nil, nil
	}
	return c, n
}

func checkC07(A *Analysis, r *Rep) {
	P := A.P
	r.rule("own-request", "a getter that succeeds has carried out exactly one exchange: its own request code, no payload, expecting data")
	r.rule("codes-distinct", "no two getters share a request code")
	r.rule("decodes-its-own-reply", "every field returned with a nil error is computed from the reply of that exchange alone")
	r.rule("right-decoder", "the value returned is decoded with the layout of the getter's own type (payload length accepted)")
	r.rule("zero-with-error", "with an error the zero value is returned")
	codes := map[int64]string{}
	for _, x := range r.use(A.getters()...) {
		name := x.Fn.Name()
		tn := libStruct(P, x.Fn.Signature.Results().At(0).Type())
		succ := 0
		for i := range x.Outs {
			o := &x.Outs[i]
			if k := x.failure(o); k != nil {
				v, t := x.resultStruct(o, 0)
				r.check("zero-with-error", name, x.Fn.Pos(), isZeroVal(k, v, t), o.St, "returns data together with an error: %v", v)
			}
			k := x.success(o)
			if k == nil {
				continue
			}
			succ++
			ex := P.exchangeCalls(o.St)
			if !r.check("own-request", name+": one exchange", x.Fn.Pos(), len(ex) == 1, o.St, "%d exchanges", len(ex)) {
				continue
			}
			req := P.packetArg(ex[0].Args)
			if req == nil {
				r.undecided(name, "request not found")
				continue
			}
			cmd, okc := constOf(k, P.pfield(req, "Command"))
			want, known := getterCode[name]
			r.check("own-request", name+": code", ex[0].Pos, okc && (!known || cmd == want), o.St, "sends request code %v, the protocol assigns %#x", P.pfield(req, "Command"), want)
			if okc {
				if other, dup := codes[cmd]; dup && other != name {
					r.check("codes-distinct", name, ex[0].Pos, false, o.St, "sends the same request code %#x as %s", cmd, other)
				} else {
					codes[cmd] = name
					r.check("codes-distinct", name, ex[0].Pos, true, o.St, "")
				}
			}
			r.check("own-request", name+": expects data", ex[0].Pos, knownTrue(k, P.pfield(req, "Expect")), o.St, "the request does not expect data, so nothing is read from the unit")
			_, _, ln := x.In.viewOf(o.St.clone(), P.pfield(req, "Data"))
			r.check("own-request", name+": no payload", ex[0].Pos, isByteConst(k, ln, 0), o.St, "the request carries a payload")
			r.check("decodes-its-own-reply", name+": after the exchange", ex[0].Pos, knownNil(k, ex[0].errTerm()), o.St, "data is returned although the exchange may have failed")
			st := o.St.clone()
			c, n := x.replyBuf(st, ex[0])
			if c == nil {
				r.undecided(name, "reply payload not found")
				continue
			}
			if l, ok := layouts[tn]; ok {
				r.check("right-decoder", name, x.Fn.Pos(), isByteConst(k, n, l.n), o.St, "succeeds on a payload that is not proven to be %d bytes long, the length of a %s reply", l.n, tn)
			}
			v, t := x.resultStruct(o, 0)
			s := structOf(t)
			any := false
			for j := 0; j < s.NumFields(); j++ {
				f := mkField(v, j, s.Field(j).Type())
				d := depsOf(k, f, c)
				r.check("decodes-its-own-reply", name+"."+s.Field(j).Name(), x.Fn.Pos(), d.other == nil, o.St, "the field depends on something other than the reply: %v", d.other)
				any = any || len(d.set) > 0
			}
			_ = any
		}
		r.check("own-request", name+" can succeed", x.Fn.Pos(), succ > 0, nil, "no path of the getter succeeds")
	}
	have := map[string]bool{}
	for _, x := range A.getters() {
		have[x.Fn.Name()] = true
	}
	for n := range getterCode {
		r.check("own-request", n+" exists", 0, have[n], nil, "getter not found")
	}
	r.atLeast("codes-distinct", len(getterCode))
	r.borrow("C04", checkC04, "reply-code")
}

// fieldOnPaths is the value of a field on each accepting path.
type fieldPath struct {
	k   *Facts
	v   *Term
	buf *Term
	st  *State
}

// determined checks that a field is a function of exactly the given bytes.
func determined(ps []fieldPath, want map[int64]bool) (bool, string) {
	used := map[int64]bool{}
	for _, p := range ps {
		d := depsOf(p.k, p.v, p.buf)
		if d.other != nil {
			return false, fmt.Sprintf("depends on %v, which is not part of the payload", d.other)
		}
		if !d.subset(want) {
			return false, fmt.Sprintf("is computed from payload bytes %s instead of %s", idxList(d.set), idxList(want))
		}
		for i := range d.set {
			used[i] = true
		}
	}
	// the conditions on these bytes that paths are told apart by
	var conds []*Term
	condBytes := map[*Term]map[int64]bool{}
	for _, p := range ps {
		for _, f := range p.k.f {
			if condBytes[f.t] != nil {
				continue
			}
			if d := depsOf(p.k, f.t, p.buf); d.subset(want) {
				condBytes[f.t] = d.set
				if d.set == nil {
					condBytes[f.t] = map[int64]bool{}
				}
				conds = append(conds, f.t)
			}
		}
	}
	// paths with the same value and the same answers need not be compared
	type class struct {
		v   *Term
		ans []byte
	}
	var classes []class
	seen := map[string]bool{}
	for _, p := range ps {
		ans := make([]byte, len(conds))
		for i, c := range conds {
			if v, known := p.k.known(c); known {
				ans[i] = 1
				if v {
					ans[i] = 2
				}
			}
		}
		key := fmt.Sprintf("%p %s", p.v, ans)
		if !seen[key] {
			seen[key] = true
			classes = append(classes, class{p.v, ans})
		}
	}
	for i, p := range classes {
		for _, q := range classes[:i] {
			if p.v == q.v {
				continue
			}
			ok := false
			for n, c := range conds {
				if p.ans[n] != 0 && q.ans[n] != 0 && p.ans[n] != q.ans[n] {
					ok = true
					for b := range condBytes[c] {
						used[b] = true
					}
				}
			}
			if !ok {
				return false, fmt.Sprintf("takes different values (%v, %v) for the same payload bytes %s", p.v, q.v, idxList(want))
			}
		}
	}
	for b := range want {
		if !used[b] {
			return false, fmt.Sprintf("does not depend on payload byte %d", b)
		}
	}
	return true, ""
}

// valueOf checks the numeric value of a plain field.
func plainValue(p fieldPath, want []int64, t types.Type) (bool, string) {
	bt := types.Typ[types.Byte]
	switch {
	case isBoolT(p.v) || isBoolType(t):
		b := readIdx(p.k, p.buf, mkInt(want[0], nil), bt)
		is := p.k.cmp(token.EQL, b, mkInt(1, nil), bt)
		if knownTrue(p.k, p.v) && knownTrue(p.k, is) || knownFalse(p.k, p.v) && knownFalse(p.k, is) || p.v == is {
			return true, ""
		}
		return false, fmt.Sprintf("is %v, not whether byte %d is 1", p.v, want[0])
	case isInteger(t):
		m, c := map[*Term]int64{}, int64(0)
		if !linBytes(p.k, p.v, 1, m, &c) {
			return false, "is not a linear function of its bytes"
		}
		for i, b := range want {
			x := readIdx(p.k, p.buf, mkInt(b, nil), bt)
			if v, ok := constOf(p.k, x); ok {
				c -= v << (8 * uint(len(want)-1-i))
				for y := range m {
					if y == x {
						c += v * m[y]
						delete(m, y)
					}
				}
				continue
			}
			m[x] -= 1 << (8 * uint(len(want)-1-i))
			if m[x] == 0 {
				delete(m, x)
			}
		}
		if len(m) != 0 || c != 0 {
			return false, fmt.Sprintf("is %v, not the big-endian number in bytes %v", p.v, want)
		}
	}
	return true, ""
}

// refusable: no payload the protocol allows is refused on a path.
func refusable(k *Facts, tn string, l layout, c, n *Term) (bool, string) {
	k = k.clone()
	if !k.assume(k.cmp(token.EQL, n, mkInt(l.n, nil), types.Typ[types.Int]), true) {
		return true, ""
	}
	why := fmt.Sprintf("a payload of %d bytes may be refused", l.n)
	if tn != "Fans" {
		return false, why
	}
	// periods of 29 and more give speeds that fit
	bt := types.Typ[types.Byte]
	is := map[*Term]bool{}
	for _, f := range []string{"InSpeed", "OutSpeed"} {
		at := l.fields[f]
		hi, lo := readIdx(k, c, mkInt(at[0], nil), bt), readIdx(k, c, mkInt(at[1], nil), bt)
		for _, t := range numbersIn(k) {
			m, d := map[*Term]int64{}, int64(0)
			if linBytes(k, t, 1, m, &d) && d == 0 && len(m) == 2 && m[hi] == 256 && m[lo] == 1 {
				is[t] = true
				if !k.assume(k.cmp(token.LSS, t, mkInt(29, nil), types.Typ[types.Int]), false) {
					return true, ""
				}
			}
		}
	}
	for _, t := range numbersIn(k) {
		if t.Op == OBin && t.Tok == token.QUO {
			if v, ok := t.Args[0].intConst(); ok && v > 0 {
				if lo, _ := k.z.rng(t.Args[1]); lo > 0 && !k.assume(k.cmp(token.LSS, mkInt(v/lo, nil), t, types.Typ[types.Int]), false) {
					return true, ""
				}
			}
		}
	}
	if k.z.bot {
		return true, ""
	}
	return false, why + " although both fan speeds fit"
}

// numbersIn lists the integer terms in what is known on a path.
func numbersIn(k *Facts) (l []*Term) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			w(a)
		}
		if t.Typ != nil && isInteger(t.Typ) {
			l = append(l, t)
		}
	}
	for _, f := range k.f {
		w(f.t)
	}
	for _, c := range append(append([]dcon{}, k.z.cons...), k.z.neqs...) {
		w(c.a)
		w(c.b)
	}
	return
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// blank: characters that count as blank space around a text.
const blank = " \t\n\v\f\r"

func onlyBlank(s string) bool {
	for _, c := range s {
		if !unicode.IsSpace(c) && c != 0 {
			return false
		}
	}
	return true
}

// textKept follows the steps by which a text is made of the payload, from
// the last one, through library functions whose effect is known. A step that
// is not known ends it: nothing is said about texts made in other ways.
func textKept(t *Term) string {
	for {
		t = strip(t)
		if t == nil {
			return ""
		}
		name, args := "", []*Term(nil)
		switch {
		case t.Op == OPure:
			name, args = t.Name, t.Args
		case t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall:
			name, args = t.Org.Name, t.Org.Args
		case t.Op == OConv && isString(t.Typ):
			name, args = "bytes2str", t.Args
		}
		set, isConst := "", false
		if len(args) > 1 {
			set, isConst = args[1].strConst()
		}
		short := strings.TrimPrefix(strings.TrimPrefix(name, "strings."), "bytes.")
		if short == name && name != "bytes2str" && name != "concat" && name != "substr" {
			return ""
		}
		switch short {
		case "bytes2str":
			if isString(args[0].Typ) {
				t = args[0]
				continue
			}
			return ""
		case "TrimSpace", "ToValidUTF8", "Clone":
		case "Trim", "TrimLeft", "TrimRight":
			if !isConst {
				return ""
			}
			if !onlyBlank(set) {
				return fmt.Sprintf("%s removes characters of %q, which are not all blank space", name, set)
			}
		case "TrimPrefix", "TrimSuffix":
			if isConst && !onlyBlank(set) {
				return fmt.Sprintf("%s removes %q, which is not blank space", name, set)
			}
			return ""
		case "Replace", "ReplaceAll":
			if isConst && strings.Trim(set, "\x00") != "" {
				return fmt.Sprintf("%s replaces %q within the text", name, set)
			}
			return ""
		case "ToLower", "ToUpper", "Title", "ToTitle", "Repeat":
			return name + " changes the text"
		case "concat":
			for _, a := range args {
				if s, ok := a.strConst(); ok && s != "" {
					return fmt.Sprintf("%q is added to the text", s)
				}
			}
			return ""
		default:
			return ""
		}
		if len(args) == 0 {
			return ""
		}
		t = args[0]
	}
}

func checkC08(A *Analysis, r *Rep) {
	P := A.P
	r.rule("one-length", "a reply is accepted only with the one payload length of its type")
	r.rule("determined-by-its-bytes", "every exported field is a function of exactly the bytes the protocol assigns to it")
	r.rule("plain-value", "whole-number fields are the big-endian number in their bytes; flags are set exactly when their byte is 1")
	r.rule("fields-known", "every exported field of a reply has a place in the payload")
	r.rule("accepted", "a reply of the right length is refused only if it holds a fan period that gives no speed, or none that fits")
	r.rule("text-kept", "a text field is its bytes with nothing but the blank space around them removed and nothing but invalid UTF-8 replaced")
	r.rule("nothing-filled-in", "a decoder that reports an error leaves the value as it was")
	check := func(name, tn string, pos token.Pos, in map[string][]fieldPath, t types.Type) {
		l := layouts[tn]
		s := structOf(t)
		for j := 0; j < s.NumFields(); j++ {
			f := s.Field(j)
			if !f.Exported() {
				continue
			}
			want, ok := l.fields[f.Name()]
			r.check("fields-known", tn+"."+f.Name(), f.Pos(), ok, nil, "the protocol has no such field in this reply")
			if !ok {
				continue
			}
			w := map[int64]bool{}
			for _, b := range want {
				w[b] = true
			}
			ps := in[f.Name()]
			good, why := determined(ps, w)
			var st *State
			if len(ps) > 0 {
				st = ps[0].st
			}
			r.check("determined-by-its-bytes", name+": "+tn+"."+f.Name(), pos, good, st, "%s", why)
			if isString(f.Type()) {
				for _, p := range ps {
					why := textKept(p.v)
					r.check("text-kept", name+": "+tn+"."+f.Name(), pos, why == "", p.st, "%s", why)
				}
			}
			if converted[tn+"."+f.Name()] || isFloat(f.Type()) || isString(f.Type()) {
				continue
			}
			for _, p := range ps {
				good, why := plainValue(p, want, f.Type())
				r.check("plain-value", name+": "+tn+"."+f.Name(), pos, good, p.st, "%s", why)
			}
		}
		for f := range l.fields {
			if fieldOf(zeroTerm(t), t, f) == nil {
				r.check("fields-known", tn+"."+f, pos, false, nil, "the reply type has no field %s", f)
			}
		}
	}
	seen := map[string]bool{}
	for _, x := range r.use(A.getters()...) {
		tn := libStruct(P, x.Fn.Signature.Results().At(0).Type())
		l, ok := layouts[tn]
		if !ok {
			r.undecided(x.Fn.Name(), "no layout known for "+tn)
			continue
		}
		seen[tn] = true
		in := map[string][]fieldPath{}
		var typ types.Type
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			ex := P.exchangeCalls(o.St)
			if len(ex) != 1 {
				r.check("determined-by-its-bytes", x.Fn.Name(), x.Fn.Pos(), false, o.St, "success after %d exchanges", len(ex))
				continue
			}
			st := o.St.clone()
			st.k = k
			c, n := x.replyBuf(st, ex[0])
			if c == nil {
				r.undecided(x.Fn.Name(), "reply payload not found")
				continue
			}
			r.check("one-length", x.Fn.Name(), x.Fn.Pos(), isByteConst(k, n, l.n), o.St, "a payload that is not proven to be %d bytes long is accepted", l.n)
			v, t := x.resultStruct(o, 0)
			typ = t
			for j := 0; j < structOf(t).NumFields(); j++ {
				f := structOf(t).Field(j)
				in[f.Name()] = append(in[f.Name()], fieldPath{k, mkField(v, j, f.Type()), c, st})
			}
		}
		if typ == nil {
			r.undecided(x.Fn.Name(), "no accepting path")
			continue
		}
		check(x.Fn.Name(), tn, x.Fn.Pos(), in, typ)
	}
	// the decoders themselves
	dec := 0
	for _, x := range r.use(A.libOther()...) {
		s := x.Fn.Signature
		if s.Recv() == nil || x.Fn.Name() != "UnmarshalBinary" || x.errIdx() != 0 || len(x.Params) != 2 {
			continue
		}
		tn := libStruct(P, s.Recv().Type())
		l, ok := layouts[tn]
		if !ok {
			continue
		}
		dec++
		t := s.Recv().Type().Underlying().(*types.Pointer).Elem()
		in := map[string][]fieldPath{}
		for i := range x.Outs {
			o := &x.Outs[i]
			st := o.St.clone()
			if x.failure(o) != nil {
				stored := false
				now := x.In.load(st, x.Params[0], t)
				was := x.In.content(newState(), x.Params[0])
				for j := 0; j < structOf(t).NumFields(); j++ {
					ft := structOf(t).Field(j).Type()
					v := mkField(now, j, ft)
					if v != mkField(was, j, ft) && !isZeroVal(st.k, v, ft) {
						stored = true
					}
				}
				if k := x.failure(o); k != nil {
					st2 := o.St.clone()
					st2.k = k
					c, off, n := x.In.viewOf(st2, x.Params[1])
					if v, okc := off.intConst(); okc && v == 0 && c != nil {
						ok, why := refusable(st2.k, tn, l, c, n)
						r.check("accepted", "decoder of "+tn, x.Fn.Pos(), ok, o.St, "%s", why)
					} else {
						r.undecided("decoder of "+tn, "payload not found")
					}
				}
				r.check("nothing-filled-in", "decoder of "+tn, x.Fn.Pos(), !stored, o.St, "fields are filled in although an error is returned")
			}
			k := x.success(o)
			if k == nil {
				continue
			}
			st.k = k
			c, off, n := x.In.viewOf(st, x.Params[1])
			if v, ok := off.intConst(); !ok || v != 0 {
				r.undecided("decoder of "+tn, "payload not found")
				continue
			}
			r.check("one-length", "decoder of "+tn, x.Fn.Pos(), isByteConst(k, n, l.n), o.St, "a payload that is not proven to be %d bytes long is accepted", l.n)
			v := x.In.load(st, x.Params[0], t)
			for j := 0; j < structOf(t).NumFields(); j++ {
				f := structOf(t).Field(j)
				in[f.Name()] = append(in[f.Name()], fieldPath{k, mkField(v, j, f.Type()), c, st})
			}
		}
		check("decoder of "+tn, tn, x.Fn.Pos(), in, t)
	}
	for tn := range layouts {
		r.check("fields-known", tn, 0, seen[tn], nil, "no getter returns a %s", tn)
	}
	r.atLeast("one-length", 15)
	r.atLeast("accepted", 7)
	r.atLeast("determined-by-its-bytes", 80)
	r.atLeast("nothing-filled-in", 7)
}
