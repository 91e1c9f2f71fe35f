package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// A stepForm is a number as scale*floor(sum+c)+off, without the floor if it is
// exact: the domain in which unit conversions are compared. With over set, it
// is off+scale*floor(over/(sum+c)).
type stepForm struct {
	sum        map[*Term]*big.Rat
	c          *big.Rat
	floor      bool
	scale, off *big.Rat
	over       *big.Rat
	of         *Term // the term that is the sum, if there is one
}

func rat(n, d int64) *big.Rat { return big.NewRat(n, d) }

func newForm(c *big.Rat) *stepForm {
	return &stepForm{sum: map[*Term]*big.Rat{}, c: c, scale: rat(1, 1), off: rat(0, 1)}
}

func (f *stepForm) isConst() bool { return len(f.sum) == 0 && f.over == nil }
func (f *stepForm) value() *big.Rat {
	v := new(big.Rat).Set(f.c)
	if f.floor {
		v = floorRat(v)
	}
	return v.Add(v.Mul(v, f.scale), f.off)
}

func floorRat(v *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(v.Num(), v.Denom(), m) // Euclidean: floors for positive denominators
	return new(big.Rat).SetInt(q)
}

func (f *stepForm) clone() *stepForm {
	g := &stepForm{sum: map[*Term]*big.Rat{}, c: f.c, floor: f.floor, scale: f.scale, off: f.off, over: f.over, of: f.of}
	for t, c := range f.sum {
		g.sum[t] = c
	}
	return g
}

// integral: every value of the form is a whole number.
func (f *stepForm) integral() bool {
	if !f.off.IsInt() || !f.scale.IsInt() {
		return false
	}
	if f.floor {
		return true
	}
	if f.over != nil || !f.c.IsInt() {
		return false
	}
	for _, c := range f.sum {
		if !c.IsInt() {
			return false
		}
	}
	return true
}

// rng bounds the value of the form.
func (f *stepForm) rng(k *Facts) (lo, hi *big.Rat, ok bool) {
	lo, hi = new(big.Rat).Set(f.c), new(big.Rat).Set(f.c)
	for t, c := range f.sum {
		a, b := k.z.rng(t)
		if a <= ninf || b >= inf {
			return nil, nil, false
		}
		x, y := new(big.Rat).Mul(c, rat(a, 1)), new(big.Rat).Mul(c, rat(b, 1))
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	if f.of != nil {
		if a, b := k.z.rng(f.of); a > ninf && b < inf {
			if r := rat(a, 1); r.Cmp(lo) > 0 {
				lo = r
			}
			if r := rat(b, 1); r.Cmp(hi) < 0 {
				hi = r
			}
		}
	}
	if f.over != nil {
		if lo.Sign() <= 0 || f.over.Sign() < 0 {
			// whole divisors that are known not to be 0
			if lo.Sign() < 0 || f.over.Sign() < 0 {
				return nil, nil, false
			}
			lo = rat(1, 1)
		}
		lo, hi = new(big.Rat).Quo(f.over, hi), new(big.Rat).Quo(f.over, lo)
	}
	if f.floor {
		lo, hi = floorRat(lo), floorRat(hi)
	}
	lo.Mul(lo, f.scale)
	hi.Mul(hi, f.scale)
	if lo.Cmp(hi) > 0 {
		lo, hi = hi, lo
	}
	return lo.Add(lo, f.off), hi.Add(hi, f.off), true
}

func (f *stepForm) add(c *big.Rat) *stepForm {
	g := f.clone()
	if g.over == nil && !g.floor {
		g.c = new(big.Rat).Add(g.c, c)
		g.of = nil
	} else {
		g.off = new(big.Rat).Add(g.off, c)
	}
	return g
}

func (f *stepForm) mul(c *big.Rat) *stepForm {
	if c.Sign() == 0 {
		return newForm(rat(0, 1))
	}
	g := f.clone()
	if g.over == nil && !g.floor {
		g.c = new(big.Rat).Mul(g.c, c)
		g.of = nil
		for t, x := range g.sum {
			g.sum[t] = new(big.Rat).Mul(x, c)
		}
	} else {
		g.scale = new(big.Rat).Mul(g.scale, c)
		g.off = new(big.Rat).Mul(g.off, c)
	}
	return g
}

// down rounds down.
func (f *stepForm) down() *stepForm {
	if f.integral() {
		return f
	}
	if !f.floor && f.scale.Cmp(rat(1, 1)) == 0 && f.off.IsInt() {
		g := f.clone()
		g.floor = true
		return g
	}
	return nil
}

// normal: one representation per function.
func (f *stepForm) normal() *stepForm {
	g := f.clone()
	if g.floor && g.over == nil {
		// the sum is a multiple of 1/m, and what is below 1/m in c never matters
		m := big.NewInt(1)
		for _, c := range g.sum {
			x := new(big.Int).GCD(nil, nil, m, c.Denom())
			m = new(big.Int).Div(new(big.Int).Mul(m, c.Denom()), x)
		}
		rm := new(big.Rat).SetInt(m)
		cut := func(c *big.Rat) *big.Rat {
			return new(big.Rat).Quo(floorRat(new(big.Rat).Mul(c, rm)), rm)
		}
		g.c = cut(g.c)
		if g.scale.Sign() < 0 {
			// -floor(u) is floor(-u+(m-1)/m)
			g.scale = new(big.Rat).Neg(g.scale)
			g.c = new(big.Rat).Sub(new(big.Rat).Sub(rat(1, 1), new(big.Rat).Inv(rm)), g.c)
			for t, c := range g.sum {
				g.sum[t] = new(big.Rat).Neg(c)
			}
		}
		d := floorRat(g.c)
		g.c = new(big.Rat).Sub(g.c, d)
		g.off = new(big.Rat).Add(g.off, new(big.Rat).Mul(d, g.scale))
		whole := true
		for _, c := range g.sum {
			whole = whole && c.IsInt()
		}
		if whole { // the fraction in c never matters
			g.c, g.floor = rat(0, 1), false
		}
	}
	if !g.floor && g.over == nil {
		h := newForm(new(big.Rat).Add(new(big.Rat).Mul(g.c, g.scale), g.off))
		for t, c := range g.sum {
			h.sum[t] = new(big.Rat).Mul(c, g.scale)
		}
		g = h
	}
	for t, c := range g.sum {
		if c.Sign() == 0 {
			delete(g.sum, t)
		}
	}
	return g
}

func (f *stepForm) String() string {
	f = f.normal()
	var l []string
	for t, c := range f.sum {
		if c.Cmp(rat(1, 1)) == 0 {
			l = append(l, t.String())
		} else {
			l = append(l, c.RatString()+"*"+t.String())
		}
	}
	sort.Strings(l)
	if f.c.Sign() != 0 || len(l) == 0 {
		l = append(l, f.c.RatString())
	}
	s := strings.Join(l, "+")
	if f.over != nil {
		s = f.over.RatString() + "/(" + s + ")"
	}
	if f.floor {
		s = "floor(" + s + ")"
	}
	if f.scale.Cmp(rat(1, 1)) != 0 {
		s = f.scale.RatString() + "*" + s
	}
	if f.off.Sign() != 0 {
		s += "+" + f.off.RatString()
	}
	return s
}

func sameForm(a, b *stepForm) bool {
	a, b = a.normal(), b.normal()
	if a.isConst() && b.isConst() {
		return a.value().Cmp(b.value()) == 0
	}
	if len(a.sum) != len(b.sum) || a.c.Cmp(b.c) != 0 || a.floor != b.floor || a.scale.Cmp(b.scale) != 0 || a.off.Cmp(b.off) != 0 {
		return false
	}
	if (a.over == nil) != (b.over == nil) || a.over != nil && a.over.Cmp(b.over) != 0 {
		return false
	}
	for t, c := range a.sum {
		if d := b.sum[t]; d == nil || d.Cmp(c) != 0 {
			return false
		}
	}
	return true
}

// formOf writes a number in the domain; nil and a reason if it cannot.
func formOf(k *Facts, t *Term) (*stepForm, string) {
	f, why := formOf1(k, t)
	if f != nil && t.Op == OBin && t.Typ != nil && isInteger(t.Typ) {
		l, h := typeRange(t.Typ)
		if lo, hi, ok := f.rng(k); !ok || lo.Cmp(rat(l, 1)) < 0 || hi.Cmp(new(big.Rat).SetInt64(h)) > 0 {
			return nil, fmt.Sprintf("%v may wrap around", t)
		}
	}
	return f, why
}

func formOf1(k *Facts, t *Term) (*stepForm, string) {
	if t.Op == OConst && t.C != nil {
		if r, ok := new(big.Rat).SetString(constant.ToFloat(t.C).ExactString()); ok {
			return newForm(r), ""
		}
	}
	if v, ok := constOf(k, t); ok && isInteger(typOr(t)) {
		return newForm(rat(v, 1)), ""
	}
	two := func() (a, b *stepForm, why string) {
		if a, why = formOf(k, t.Args[0]); a == nil {
			return
		}
		b, why = formOf(k, t.Args[1])
		return
	}
	flt := t.Typ != nil && isFloat(t.Typ)
	switch t.Op {
	case OLin:
		a, why := formOf(k, t.Args[0])
		if a == nil {
			return nil, why
		}
		return a.add(rat(t.Off, 1)), ""
	case OPure:
		switch {
		case t.Name == "be":
			m, c := map[*Term]int64{}, int64(0)
			if !linBytes(k, t, 1, m, &c) {
				return nil, fmt.Sprintf("%v is not understood", t)
			}
			f := newForm(rat(c, 1))
			for x, n := range m {
				if n != 0 {
					f.sum[x] = rat(n, 1)
				}
			}
			f.of = t
			return f, ""
		case strings.HasSuffix(t.Name, "math.Floor") || strings.HasSuffix(t.Name, "math.Trunc"):
			a, why := formOf(k, t.Args[0])
			if a == nil {
				return nil, why
			}
			if strings.HasSuffix(t.Name, "Trunc") {
				if lo, _, ok := a.rng(k); !ok || lo.Sign() < 0 {
					return nil, fmt.Sprintf("%v rounds towards zero and may be negative", t)
				}
			}
			if g := a.down(); g != nil {
				return g, ""
			}
		case strings.HasSuffix(t.Name, "math.Round"):
			a, why := formOf(k, t.Args[0])
			if a == nil {
				return nil, why
			}
			if lo, _, ok := a.rng(k); ok && lo.Sign() >= 0 {
				if a.integral() {
					return a, ""
				}
				if g := a.add(rat(1, 2)).down(); g != nil {
					return g, ""
				}
			}
		}
	case OConv:
		a, why := formOf(k, t.Args[0])
		if a == nil {
			return nil, why
		}
		lo, hi, ok := a.rng(k)
		if !ok {
			return nil, fmt.Sprintf("the range of %v is unknown", t.Args[0])
		}
		if isFloat(t.Typ) {
			// exact as long as all digits fit
			bits := int64(1) << 53
			if b, okb := t.Typ.Underlying().(*types.Basic); okb && b.Kind() == types.Float32 {
				bits = 1 << 24
			}
			if !dyadic(a, bits, lo, hi) {
				return nil, fmt.Sprintf("%v may be rounded", t)
			}
			return a, ""
		}
		if !a.integral() {
			if lo.Sign() < 0 {
				return nil, fmt.Sprintf("%v rounds towards zero and may be negative", t)
			}
			g := a.down()
			if g == nil {
				return nil, fmt.Sprintf("%v is not understood", t)
			}
			a = g
			lo, hi = floorRat(lo), floorRat(hi)
		}
		l, h := typeRange(t.Typ)
		if lo.Cmp(rat(l, 1)) < 0 || hi.Cmp(new(big.Rat).SetInt64(h)) > 0 {
			// the facts of the path may know better
			zl, zh := k.z.rng(t.Args[0])
			if !isInteger(typOr(t.Args[0])) || zl < l || zh > h {
				return nil, fmt.Sprintf("%v may not fit %s", t.Args[0], shortType(t.Typ))
			}
		}
		return a, ""
	case OUn:
		if t.Tok == token.SUB {
			a, why := formOf(k, t.Args[0])
			if a == nil {
				return nil, why
			}
			return a.mul(rat(-1, 1)), ""
		}
	case OBin:
		a, b, why := two()
		if a == nil || b == nil {
			return nil, why
		}
		switch t.Tok {
		case token.ADD, token.SUB:
			if t.Tok == token.SUB {
				b = b.mul(rat(-1, 1))
			}
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() {
				return a.add(b.value()), ""
			}
			if a.over == nil && b.over == nil && !a.floor && !b.floor {
				g := a.clone()
				g.of = nil
				g.c = new(big.Rat).Add(g.c, b.c)
				for x, c := range b.sum {
					if g.sum[x] == nil {
						g.sum[x] = rat(0, 1)
					}
					g.sum[x] = new(big.Rat).Add(g.sum[x], c)
				}
				return g, ""
			}
		case token.OR, token.XOR:
			if bits(k, t.Args[0])&bits(k, t.Args[1]) == 0 {
				m, c := map[*Term]int64{}, int64(0)
				if linBytes(k, t, 1, m, &c) {
					f := newForm(rat(c, 1))
					for x, n := range m {
						if x == t {
							return nil, fmt.Sprintf("%v is not understood", t)
						}
						f.sum[x] = rat(n, 1)
					}
					f.of = t
					return f, ""
				}
			}
		case token.MUL:
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() {
				return a.mul(b.value()), ""
			}
		case token.SHL:
			if b.isConst() && b.value().IsInt() && b.value().Sign() >= 0 && b.value().Num().Int64() < 40 {
				return a.mul(rat(1<<uint(b.value().Num().Int64()), 1)), ""
			}
		case token.SHR, token.QUO:
			if !b.isConst() {
				// constant over a sum
				if a.isConst() && b.over == nil && !b.floor && t.Tok == token.QUO {
					g := b.clone()
					g.over = a.value()
					if flt {
						return g, "" // rounding is judged by how it is rounded to a whole number
					}
					if lo, _, ok := b.rng(k); ok && lo.Sign() >= 0 && g.over.Sign() >= 0 {
						g.floor = true
						return g, ""
					}
				}
				break
			}
			d := b.value()
			if t.Tok == token.SHR {
				if !d.IsInt() || d.Sign() < 0 || d.Num().Int64() > 40 {
					break
				}
				d = rat(1<<uint(d.Num().Int64()), 1)
			} else if !flt {
				if lo, _, ok := a.rng(k); !ok || lo.Sign() < 0 || d.Sign() <= 0 {
					return nil, fmt.Sprintf("%v rounds towards zero and may be negative", t)
				}
			}
			if d.Sign() == 0 {
				break
			}
			if flt {
				if d.Num().IsInt64() && d.IsInt() && d.Num().Int64()&(d.Num().Int64()-1) != 0 {
					return nil, fmt.Sprintf("%v may be rounded", t)
				}
				return a.mul(new(big.Rat).Inv(d)), ""
			}
			if !a.integral() {
				break
			}
			if a.over == nil && a.floor && a.scale.Cmp(rat(1, 1)) == 0 {
				// floor((floor(u)+n)/d) is floor((u+n)/d)
				g := a.clone()
				g.c, g.of = new(big.Rat).Add(g.c, g.off), nil
				g.off = rat(0, 1)
				g.floor = false
				g = g.mul(new(big.Rat).Inv(d))
				g.floor = true
				return g, ""
			}
			if a.over != nil && a.floor && a.scale.Cmp(rat(1, 1)) == 0 && a.off.Sign() == 0 {
				g := a.clone()
				g.over = new(big.Rat).Quo(g.over, d)
				return g, ""
			}
			if g := a.mul(new(big.Rat).Inv(d)); !a.floor && a.over == nil {
				if h := g.down(); h != nil {
					return h, ""
				}
			} else if g.integral() {
				return g, ""
			}
		case token.AND_NOT:
			if b.isConst() && b.value().IsInt() && a.integral() && a.over == nil && !a.floor {
				n := b.value().Num().Int64() + 1
				if lo, _, ok := a.rng(k); ok && lo.Sign() >= 0 && n > 0 && n&(n-1) == 0 {
					g := a.mul(rat(1, n)).down()
					if g != nil {
						return g.mul(rat(n, 1)), ""
					}
				}
			}
		}
		return nil, fmt.Sprintf("%v is not understood", t)
	}
	if isInteger(typOr(t)) && (t.Op == OIndex || t.Op == OSym || t.Op == OField) {
		f := newForm(rat(0, 1))
		f.sum[t] = rat(1, 1)
		return f, ""
	}
	return nil, fmt.Sprintf("%v is not understood", t)
}

func typOr(t *Term) types.Type {
	if t.Typ == nil {
		return types.Typ[types.Int]
	}
	return t.Typ
}

// dyadic: values of the form are multiples of a power of two and have at most
// the given number of steps between their bounds, so no digit is lost.
func dyadic(f *stepForm, steps int64, lo, hi *big.Rat) bool {
	if f.over != nil && !f.floor {
		return steps >= 1<<53 // see formOf: the quotient is only rounded to whole numbers
	}
	den := int64(1)
	see := func(r *big.Rat) bool {
		if !r.Denom().IsInt64() {
			return false
		}
		d := r.Denom().Int64()
		if d&(d-1) != 0 || d > 1<<20 {
			return false
		}
		if d > den {
			den = d
		}
		return true
	}
	if !see(f.off) || !see(f.scale) {
		return false
	}
	if !f.floor {
		if !see(f.c) {
			return false
		}
		for _, c := range f.sum {
			if !see(c) {
				return false
			}
		}
	}
	lim := rat(steps, den)
	return new(big.Rat).Abs(lo).Cmp(lim) <= 0 && new(big.Rat).Abs(hi).Cmp(lim) <= 0
}

func init() {
	checks["C34"] = propCheck{checkC34, "Every temperature and fan speed that a getter or decoder returns is written as scale*floor(linear form of payload bytes)+offset, or constant over a linear form, and compared with the protocol's formula in normal form; likewise the byte sent for a comfort temperature, which is composed with the decoding formula. The terms are those of every accepting path of the library."}
}

func checkC34(A *Analysis, r *Rep) {
	P := A.P
	bt := types.Typ[types.Byte]
	r.rule("temperature", "every decoded temperature is its payload byte divided by two, rounded down, minus 20")
	r.rule("fan-speed", "every decoded fan speed is 1875000 divided by its 16-bit period, rounded down")
	r.rule("set-and-read", "the byte sent for a comfort temperature is decoded to that temperature")
	judge := func(name, tn string, pos token.Pos, p fieldPath, f string) {
		l, ok := layouts[tn].fields[f]
		if !ok {
			return
		}
		rule, want := "temperature", newForm(rat(0, 1))
		at := func(i int64) *stepForm {
			x, _ := formOf(p.k, readIdx(p.k, p.buf, mkInt(i, nil), bt))
			return x
		}
		b := at(l[0])
		if tn == "Fans" {
			rule = "fan-speed"
			c := at(l[1])
			if b == nil || c == nil {
				r.undecided(name+"."+f, "payload bytes not found")
				return
			}
			want = b.mul(rat(256, 1))
			want.c = new(big.Rat).Add(want.c, c.c)
			for t, n := range c.sum {
				want.sum[t] = n
			}
			want.of = nil
			want.over, want.floor = rat(1875000, 1), true
			if len(want.sum) == 0 {
				if want.c.Sign() == 0 {
					return
				}
				want = newForm(floorRat(new(big.Rat).Quo(want.over, want.c)))
			}
		} else {
			if b == nil {
				r.undecided(name+"."+f, "payload byte not found")
				return
			}
			want = b.mul(rat(1, 2))
			want.floor, want.off = true, rat(-20, 1)
		}
		got, why := formOf(p.k, p.v)
		if got == nil {
			r.check(rule, name+"."+f, pos, false, p.st, "%s is %v: %s", f, p.v, why)
			return
		}
		r.check(rule, name+"."+f, pos, sameForm(got, want), p.st, "%s is %s, it should be %s", f, got, want)
	}
	fields := func(tn string) []string {
		if tn == "Fans" {
			return []string{"InSpeed", "OutSpeed"}
		}
		var l []string
		for f := range layouts["Temps"].fields {
			l = append(l, f)
		}
		sort.Strings(l)
		return l
	}
	for _, x := range r.use(A.getters()...) {
		tn := libStruct(P, x.Fn.Signature.Results().At(0).Type())
		if tn != "Temps" && tn != "Fans" {
			continue
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			ex := P.exchangeCalls(o.St)
			if k == nil || len(ex) != 1 {
				continue
			}
			st := o.St.clone()
			st.k = k
			c, _ := x.replyBuf(st, ex[0])
			if c == nil {
				r.undecided(x.Fn.Name(), "reply payload not found")
				continue
			}
			v, t := x.resultStruct(o, 0)
			for _, f := range fields(tn) {
				fv := fieldOf(v, t, f)
				if fv == nil {
					r.undecided(x.Fn.Name(), "the reply has no field "+f)
					continue
				}
				judge(x.Fn.Name(), tn, x.Fn.Pos(), fieldPath{k, fv, c, st}, f)
			}
		}
	}
	for _, x := range r.use(A.libOther()...) {
		s := x.Fn.Signature
		if s.Recv() == nil || x.Fn.Name() != "UnmarshalBinary" || x.errIdx() != 0 || len(x.Params) != 2 {
			continue
		}
		tn := libStruct(P, s.Recv().Type())
		if tn != "Temps" && tn != "Fans" {
			continue
		}
		t := s.Recv().Type().Underlying().(*types.Pointer).Elem()
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			st := o.St.clone()
			st.k = k
			c, off, _ := x.In.viewOf(st, x.Params[1])
			if v, ok := off.intConst(); !ok || v != 0 {
				r.undecided("decoder of "+tn, "payload not found")
				continue
			}
			v := x.In.load(st, x.Params[0], t)
			for _, f := range fields(tn) {
				if fv := fieldOf(v, t, f); fv != nil {
					judge("decoder of "+tn, tn, x.Fn.Pos(), fieldPath{k, fv, c, st}, f)
				}
			}
		}
	}
	x := A.libFn("SetComfort")
	if x == nil || len(r.use(x)) == 0 || len(byteParams(x.Fn)) != 1 {
		r.undecided("SetComfort", "library call not found")
	} else {
		p := x.Params[byteParams(x.Fn)[0]]
		for i := range x.Outs {
			o := &x.Outs[i]
			for _, e := range P.exchangeCalls(o.St) {
				b := P.payloadByte(e.Snap, e, 0)
				if b == nil {
					r.check("set-and-read", "SetComfort", e.Pos, false, o.St, "the command has no payload")
					continue
				}
				got, why := formOf(e.Snap, b)
				if got == nil {
					r.check("set-and-read", "SetComfort", e.Pos, false, o.St, "the byte sent is %v: %s", b, why)
					continue
				}
				want, _ := formOf(e.Snap, p)
				back := got.mul(rat(1, 2)).down()
				if back != nil {
					back = back.add(rat(-20, 1))
				}
				r.check("set-and-read", "SetComfort", e.Pos, back != nil && want != nil && sameForm(back, want), o.St, "the byte sent, %s, is not decoded to the temperature %v", got, p)
			}
		}
	}
	r.atLeast("temperature", 16)
	r.atLeast("fan-speed", 4)
	r.atLeast("set-and-read", 1)
}
