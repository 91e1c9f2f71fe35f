package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Where a split function ends a reply.
//
// The data are what has arrived of a reply: 00, command, length N, N payload
// bytes of which 07 is sent twice, checksum, 07 0F and whatever follows, cut
// anywhere. The same induction as for the escaping functions: the first bytes
// are followed from the start; once a payload byte is behind all positions
// referred to, variables become P (start of the payload bytes still looked at)
// or K (their number before P) plus an offset, and from every such state each
// next byte, or the end of the data, must lead to one known already, to
// (0, nil, nil) if data end before the reply does, or else to the reply
// without its end sequence and the position behind it.
//
// clin here: n + p*P + k*K + l*len(data) + c*N + q*Q, where Q is the position
// at which a search in the data (bytes.Index) began.

const (
	phPayload = 3 // before it: number of header bytes read
	phEsc     = 4
	phEnd     = 5
	phRest    = 6
)

// forkFull is raised where it matters whether the payload is complete.
type forkFull struct{}

func (c *codec) extendFrame(s *cstate) []*cstate {
	e := s.clone()
	e.ended = true
	r := []*cstate{e}
	next := func(b ...cbyte) *cstate {
		n := s.clone()
		n.ahead = append(n.ahead, b...)
		r = append(r, n)
		return n
	}
	free := func() cbyte {
		c.sym++
		return cbyte{v: c.sym, free: true}
	}
	esc := cbyte{con: true, v: escByte}
	switch {
	case s.phase < phPayload:
		b := free()
		switch s.phase {
		case 0:
			b = cbyte{con: true}
		case 2:
			b.isN = true
		}
		n := next(b)
		n.hdr = append(n.hdr, b)
		n.phase++
	case s.phase == phPayload:
		if s.full != 1 {
			for _, t := range [][]cbyte{{esc, esc}, nil} {
				if t == nil {
					c.sym++
					t = []cbyte{{v: c.sym}}
				}
				n := next(t...)
				n.bounds = append(n.bounds, len(n.ahead))
				n.full = 0
			}
			n := next(esc) // cut within an escaped byte
			n.ended, n.full = true, 2
		}
		if s.full != 2 {
			n := next(free())
			n.phase, n.full, n.fend = phEsc, 1, len(n.ahead)
		}
	case s.phase == phEsc:
		next(esc).phase = phEnd
	case s.phase == phEnd:
		next(cbyte{con: true, v: 0x0F}).phase = phRest
	default:
		next(free())
	}
	return r
}

// frameNorm: N is known once the payload is complete.
func (c *codec) frameNorm(s *cstate, a clin) clin {
	if s.start {
		a.p, a.k = 0, 0
	}
	if s.full == 1 && a.c != 0 {
		if !s.start {
			a.k += a.c
		}
		a.n += a.c * int64(len(s.bounds))
		a.c = 0
	}
	if s.ended && a.l != 0 {
		if !s.start {
			a.p += a.l
		}
		a.n += a.l * int64(len(s.ahead))
		a.l = 0
	}
	return a
}

// frameLess: whether d < 0.
func (c *codec) frameLess(s *cstate, d clin) (bool, bool) {
	d = c.frameNorm(s, d)
	if d.isConst() {
		return d.n < 0, true
	}
	if d.q != 0 {
		return false, false
	}
	// len(data) - P is at least what is known
	if d.l != 0 && d.c == 0 && d.k == 0 && (s.start || d.p == -d.l) {
		m := d.n + d.l*int64(len(s.ahead))
		if d.l < 0 && m < 0 {
			return true, true
		}
		if d.l > 0 && m >= 0 {
			return false, true
		}
		if d.l == 1 || d.l == -1 {
			panic(needInput{})
		}
		return false, false
	}
	// payload bytes read against their number
	if d.c != 0 && d.l == 0 && d.p == 0 && (s.start || d.k == -d.c) && s.phase >= phPayload {
		t := int64(len(s.bounds))
		if s.full == 2 {
			t++
		}
		m := d.n + d.c*t // N - K is at least t
		if d.c < 0 && m < 0 {
			return true, true
		}
		if d.c > 0 && m >= 0 {
			return false, true
		}
		if s.full == 0 {
			panic(forkFull{})
		}
		if !s.ended {
			panic(needInput{})
		}
		return false, false
	}
	// P is at least 3 and K not negative
	if d.c == 0 && d.l == 0 {
		m := d.n + 3*d.p
		switch {
		case d.p >= 0 && d.k >= 0 && m >= 0:
			return false, true
		case d.p <= 0 && d.k <= 0 && m < 0:
			return true, true
		}
	}
	if d.c != 0 && d.l == 0 && d.p == 0 && d.k == 0 {
		// N is a byte
		lo, hi := d.n, d.n
		if d.c > 0 {
			hi += 255 * d.c
		} else {
			lo += 255 * d.c
		}
		if lo >= 0 {
			return false, true
		}
		if hi < 0 {
			return true, true
		}
	}
	return false, false
}

// decodedLen: the number of payload bytes in a part of the data.
func (c *codec) decodedLen(s *cstate, v cval) cval {
	lo, hi := c.frameNorm(s, v.i), c.frameNorm(s, v.hi)
	if !lo.isConst() || lo.n != 3 {
		return cval{}
	}
	base := int64(0)
	r := clin{k: 1}
	if s.start {
		base, r = 3, clin{}
	} else {
		hi.p--
	}
	if !hi.isConst() {
		return cval{}
	}
	if hi.n == base {
		return cval{kind: cCoded, hi: r}
	}
	for j, e := range s.bounds {
		if int64(e) == hi.n {
			r.n = int64(j + 1)
			return cval{kind: cCoded, hi: r}
		}
	}
	return cval{}
}

// finishFrame judges advance, token and error.
func (c *codec) finishFrame(s *cstate, r cval) {
	if r.kind != cTuple || len(r.parts) != 3 || r.parts[0].kind != cInt {
		c.fail("what is returned is not known")
	}
	adv, tok, err := c.frameNorm(s, r.parts[0].i), r.parts[1], r.parts[2]
	whole := s.phase == phRest
	if err.kind != cNil {
		if !s.eof || whole {
			c.fail("%s: may be refused", c.whereFrame(s))
		}
		return
	}
	if tok.kind == cNil {
		if whole {
			c.fail("%s: the reply is complete, but its end is not found", c.whereFrame(s))
		}
		if !s.ended {
			c.fail("%s: asks for more before looking at all data", c.whereFrame(s))
		}
		if adv != (clin{}) {
			c.fail("%s: data are skipped", c.whereFrame(s))
		}
		return
	}
	if tok.kind != cView {
		c.fail("%s: what is returned is not known to be part of the data", c.whereFrame(s))
	}
	lo, hi := c.frameNorm(s, tok.i), c.frameNorm(s, tok.hi)
	if lo != (clin{}) {
		c.fail("%s: what is returned does not begin with the first byte", c.whereFrame(s))
	}
	if !whole {
		c.fail("%s: is taken for a complete reply", c.whereFrame(s))
	}
	want := clin{n: int64(s.fend)}
	if !s.start {
		want.p = 1
	}
	if hi != want {
		c.fail("%s: the reply is taken to end %s", c.whereFrame(s), c.offset(hi.sub(want)))
	}
	if adv.sub(want) != (clin{n: 2}) {
		c.fail("%s: reading goes on %s", c.whereFrame(s), c.offset(adv.sub(want).sub(clin{n: 2})))
	}
}

func (c *codec) offset(d clin) string {
	switch {
	case !d.isConst():
		return "elsewhere"
	case d.n < 0:
		return fmt.Sprintf("%d bytes too early", -d.n)
	}
	return fmt.Sprintf("%d bytes too late", d.n)
}

func (c *codec) whereFrame(s *cstate) string {
	w := "data " + c.show(s.ahead)
	if !s.start {
		w = "data " + c.show(s.hdr) + ", payload bytes, " + c.show(s.ahead)
	}
	switch {
	case s.phase < phPayload:
		w += " (header)"
	case s.phase == phPayload:
		w += " (payload)"
	case s.phase < phRest:
		w += " (after the checksum)"
	}
	return w
}

// leave: from a payload byte on, the start is not followed any more.
func (c *codec) leave(s *cstate) bool {
	if s.phase < phPayload || len(s.bounds) == 0 {
		return false
	}
	for _, f := range s.frames {
		c.prune(f)
	}
	c.sweep(s)
	s.start = false
	s.ahead = append([]cbyte(nil), s.ahead[3:]...)
	for i := range s.bounds {
		s.bounds[i] -= 3
	}
	if s.phase > phPayload {
		s.fend -= 3
	}
	type slot struct {
		put func(s *cstate, v cval)
		alt []cval
	}
	var slots []slot
	add := func(v cval, put func(s *cstate, v cval)) {
		var alt []cval
		vary := func(f func(v *cval)) {
			w := v
			f(&w)
			alt = append(alt, w)
		}
		switch {
		case v.kind == cInt && v.i.isConst():
			vary(func(v *cval) { v.i.p, v.i.n = 1, v.i.n-3 })
			vary(func(v *cval) {})
			vary(func(v *cval) { v.i.k = 1 })
			vary(func(v *cval) { v.i.p, v.i.n, v.i.k = 1, v.i.n-3, -1 })
		case v.kind == cInt && v.i.c != 0:
			vary(func(v *cval) {})
			vary(func(v *cval) { v.i.k = -v.i.c })
		case v.kind == cInt && v.i.l != 0:
			vary(func(v *cval) {})
			vary(func(v *cval) { v.i.p, v.i.n = -v.i.l, v.i.n+3*v.i.l })
		case v.kind == cView && v.i.isConst():
			vary(func(v *cval) { v.i.p, v.i.n = 1, v.i.n-3 })
			vary(func(v *cval) {})
		default:
			return
		}
		slots = append(slots, slot{put, alt})
	}
	for fi, f := range s.frames {
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if _, ok := v.(*ssa.Phi); !ok {
				continue
			}
			fi, v := fi, v
			add(f.env[v], func(s *cstate, x cval) { s.frames[fi].env[v] = x })
		}
	}
	var ids []int
	for id := range s.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id, before := id, len(slots)
		add(s.cells[id], func(s *cstate, x cval) { s.cells[id] = x })
		if n := len(slots) - 1; n >= before && len(slots[n].alt) == 4 {
			// most are not changed by the loop
			a := slots[n].alt
			a[0], a[1] = a[1], a[0]
		}
	}
	total := 1
	for _, sl := range slots {
		if total *= len(sl.alt); total > 3000 {
			c.fail("too many loop variables")
		}
	}
	var why error
	for g := 0; g < total; g++ {
		n := s.clone()
		x := g
		for _, sl := range slots {
			sl.put(n, sl.alt[x%len(sl.alt)])
			x /= len(sl.alt)
		}
		done := map[string]bool{}
		for k := range c.done {
			done[k] = true
		}
		sub := &codec{P: c.P, dec: true, frame: true, done: done, sym: c.sym, ids: c.ids + 1000}
		err := sub.tryWith(func() { sub.again(n) })
		if c.steps += sub.steps; c.steps > 4000000 {
			c.fail("too many states")
		}
		if err == nil {
			c.done = sub.done
			return true
		}
		if why == nil {
			why = err
		}
	}
	c.fail("%v", why)
	return false
}

// rebaseFrame moves P past payload bytes that are behind everything referred to.
func (c *codec) rebaseFrame(s *cstate) {
	for _, f := range s.frames {
		c.prune(f)
	}
	if top := s.frames[len(s.frames)-1]; c.P.isModel(top.fn) {
		c.searching(s, top)
	}
	low := c.sweep(s)
	m := 0
	for j, e := range s.bounds {
		if int64(e) > low-2 {
			break
		}
		m = j + 1
	}
	if m > 0 {
		adv := s.bounds[m-1]
		s.each(func(v cval) cval {
			for _, a := range []*clin{&v.i, &v.hi} {
				a.n -= a.p*int64(adv) + a.k*int64(m)
			}
			return v
		})
		s.ahead = append([]cbyte(nil), s.ahead[adv:]...)
		var nb []int
		for _, e := range s.bounds[m:] {
			nb = append(nb, e-adv)
		}
		s.bounds = nb
		if s.phase > phPayload {
			s.fend -= adv
		}
	}
	if len(s.ahead) > 10 {
		c.fail("more and more of the data is held back")
	}
}

// search enters a function of package bytes that looks for a constant.
func (c *codec) search(s *cstate, fr *cframe, i *ssa.Call, name string, args []cval) bool {
	v := args[0]
	var l []cbyte
	switch x := args[1]; x.kind {
	case cByte:
		l = []cbyte{x.b}
	case cInt:
		if !x.i.isConst() {
			return false
		}
		l = []cbyte{{con: true, v: x.i.n}}
	default:
		var ok bool
		if l, ok = c.literal(s, x); !ok {
			return false
		}
	}
	f := c.P.bytesModel(name, len(l))
	if v.kind != cView || f == nil || len(s.frames) > 8 {
		return false
	}
	n := &cframe{fn: f, env: map[ssa.Value]cval{}, blk: f.Blocks[0], call: i}
	p := f.Params
	n.env[p[0]] = cval{kind: cView, hi: clin{l: 1}}
	n.env[p[1]] = cval{kind: cInt, i: v.i}
	n.env[p[2]] = cval{kind: cInt, i: v.hi}
	for j, b := range l {
		n.env[p[3+j]] = cval{kind: cByte, b: b}
	}
	s.frames = append(s.frames, n)
	return true
}

// searching: positions that do not move during a search are put in terms of
// the one where it began.
func (c *codec) searching(s *cstate, top *cframe) {
	var from *ssa.Parameter
	for _, p := range top.fn.Params {
		if p.Name() == "from" {
			from = p
		}
	}
	v, ok := top.env[from]
	if from == nil || !ok || v.i.p != 1 || v.i.k != 0 || v.i.q != 0 {
		return
	}
	q, other := v.i, false
	move := func(a *clin) {
		if a.q != 0 {
			other = true
		}
		if a.p != 0 {
			a.n -= a.p * q.n
			a.p, a.q = 0, a.p
		}
	}
	moving := map[ssa.Value]cval{}
	for _, x := range phisOf(top.blk) {
		moving[x] = top.env[x]
	}
	s.each(func(v cval) cval {
		if v.kind == cInt || v.kind == cView || v.kind == cElem {
			move(&v.i)
			move(&v.hi)
		}
		return v
	})
	for x, v := range moving {
		top.env[x] = v
	}
	if other {
		c.fail("two searches at once")
	}
}

// A splitUse is a split function with what it refers to.
type splitUse struct {
	fn    *ssa.Function
	bind  []cval
	cells map[int]cval
	name  string
}

// splitUse describes a split function and what its variables are now.
func (in *Interp) splitUse(st *State, f *ssa.Function, bind []*Term) *splitUse {
	u := &splitUse{fn: f, cells: map[int]cval{}}
	key := f.String()
	cellOf := map[*Term]int{}
	var val func(t *Term, typ types.Type, d int) cval
	cell := func(addr *Term, typ types.Type, d int) cval {
		id, ok := cellOf[addr]
		if !ok {
			id = 1 + len(cellOf)
			cellOf[addr] = id
			u.cells[id] = val(in.load(st, addr, typ), typ, d+1)
		}
		return cval{kind: cCell, id: id}
	}
	val = func(t *Term, typ types.Type, d int) cval {
		if t == nil || d > 5 {
			return cval{}
		}
		switch ut := typ.Underlying().(type) {
		case *types.Basic:
			if b, ok := t.boolConst(); ok && ut.Info()&types.IsBoolean != 0 {
				key += fmt.Sprint(" ", b)
				return cval{kind: cBool, t: b}
			}
			if n, ok := constOf(st.k, t); ok && ut.Info()&types.IsInteger != 0 {
				key += fmt.Sprint(" ", n)
				if ut.Kind() == types.Uint8 {
					return cval{kind: cByte, b: cbyte{con: true, v: n}}
				}
				return cval{kind: cInt, i: clin{n: n}}
			}
		case *types.Signature:
			if t.Op == OFunc || t.Op == OClosure {
				r := cval{kind: cClos, fn: t.fn()}
				key += " " + t.fn().String()
				if t.Op == OClosure {
					for i, fv := range t.fn().FreeVars {
						if i < len(t.Args) {
							r.parts = append(r.parts, val(t.Args[i], fv.Type(), d+1))
						}
					}
				}
				return r
			}
		case *types.Slice:
			if t.isNil() {
				return cval{kind: cNil}
			}
			c, off, n := in.viewOf(st, t)
			if l, ok := constOf(st.k, n); ok && l <= 16 && isByteSlice(typ) {
				r := cval{kind: cStr}
				for i := range l {
					v, ok := constOf(st.k, byteAt(st.k, c, addInt(st.k, off, mkInt(i, nil))))
					if !ok {
						return cval{}
					}
					key += fmt.Sprint(" ", v)
					r.parts = append(r.parts, cval{kind: cByte, b: cbyte{con: true, v: v}})
				}
				return r
			}
		case *types.Pointer:
			if stt, ok := ut.Elem().Underlying().(*types.Struct); ok {
				r := cval{kind: cTuple}
				for i := range stt.NumFields() {
					r.parts = append(r.parts, cell(mkFieldAddr(t, i, stt.Field(i).Type()), stt.Field(i).Type(), d))
				}
				return r
			}
			if r := t; r.Op == OAlloc || r.Op == OGlobal || r.Op == OFieldAddr {
				return cell(t, ut.Elem(), d)
			}
		case *types.Struct:
			r := cval{kind: cTuple}
			for i := range ut.NumFields() {
				r.parts = append(r.parts, val(mkField(t, i, ut.Field(i).Type()), ut.Field(i).Type(), d+1))
			}
			return r
		}
		return cval{}
	}
	for i, fv := range f.FreeVars {
		if i < len(bind) {
			u.bind = append(u.bind, val(bind[i], fv.Type(), 0))
		}
		key += ";"
	}
	u.name = key
	return u
}

// frameProof: nil if the split function ends every reply where it ends.
func (P *Program) frameProof(u *splitUse) error {
	f := u.fn
	if len(f.Params) != 2 || !isByteSlice(f.Params[0].Type()) || len(f.Blocks) == 0 {
		return fmt.Errorf("%s is no split function", f.Name())
	}
	for _, eof := range []bool{false, true} {
		c := &codec{P: P, dec: true, frame: true, done: map[string]bool{}, ids: 100}
		s := &cstate{start: true, eof: eof, bufs: map[int]cbuf{}, cells: map[int]cval{}, eq: map[[2]int64]bool{}}
		for k, v := range u.cells {
			s.cells[k] = v
		}
		fr := &cframe{fn: f, env: map[ssa.Value]cval{}, blk: f.Blocks[0], bind: u.bind}
		fr.env[f.Params[0]] = cval{kind: cView, hi: clin{l: 1}}
		fr.env[f.Params[1]] = cval{kind: cBool, t: eof}
		s.frames = []*cframe{fr}
		if err := c.tryWith(func() { c.run(s) }); err != nil {
			return err
		}
	}
	return nil
}

var debugFrame = os.Getenv("DBGF") != ""
