package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Proof that a function on byte sequences works token by token.
//
// The input is taken as an unknown sequence of tokens. An escaper's tokens are
// single bytes, its output is two escape bytes for an escape byte and the byte
// itself for any other. An unescaper's tokens are those outputs, and its
// output is the byte they stand for. The proof is by induction over the tokens:
// at a loop head the tokens before some point P have been read and X, all they
// stand for, has been written; variables are P, the length of X or constants,
// plus an offset. From such a state the code is followed for every possible
// next token until it gets back to a loop head, where the same must hold for a
// later point, or returns, where no input may be left and nothing be missing in
// the output. Nothing is executed: positions, lengths and bytes are symbols.

const escByte = 7

type codecFail string

type cbyte struct {
	con  bool
	v    int64 // constant, or number of a byte that is no escape byte
	free bool  // or may be one
	isN  bool  // the length byte of a frame
}

type cvkind int

const (
	cTop cvkind = iota
	cInt        // n + p*P + k*len(X) + l*len(input) + c*number of escape bytes in it
	cBool
	cByte
	cView  // part of the input: from lo to hi
	cSlice // part of a buffer
	cPtr   // element of a buffer, idx
	cElem  // element of the input, idx
	cCell  // variable
	cNil
	cClos
	cTuple
	cStr   // constant string, parts
	cBufr  // bytes.Buffer or strings.Builder in a cell
	cCoded // what the unescaper makes of a part of the input: its length hi
)

type clin struct {
	n, p, k, l, c int64
	q             int64 // where the search under way began
}

func (a clin) sub(b clin) clin {
	return clin{a.n - b.n, a.p - b.p, a.k - b.k, a.l - b.l, a.c - b.c, a.q - b.q}
}
func (a clin) add(b clin) clin {
	return clin{a.n + b.n, a.p + b.p, a.k + b.k, a.l + b.l, a.c + b.c, a.q + b.q}
}

// at: a position, written from the start of the input if it is known.
func (a clin) at(s *cstate) clin {
	if s.start {
		a.p, a.k = 0, 0
	}
	return a
}

func (a clin) isConst() bool { return a.p == 0 && a.k == 0 && a.l == 0 && a.c == 0 && a.q == 0 }

type cval struct {
	kind   cvkind
	i, hi  clin // integer, index, lower and upper bound
	b      cbyte
	t      bool
	id     int // buffer, cell
	fn     *ssa.Function
	parts  []cval
	wholes bool // slice: up to the end of the buffer, whatever that is
}

type cbuf struct {
	x    bool // begins with X
	all  bool // is the output for the whole input
	open bool // what follows the values known is not written yet
	cap  clin // length of an open one
	v    []cbyte
}

type cstate struct {
	ahead  []cbyte // input bytes from P on
	bounds []int   // ends of the tokens ahead
	spec   [][]cbyte
	ended  bool
	noEsc  bool // there is no escape byte in the input
	plain  bool // there is none before P
	some   bool // there is one before P
	start  bool // P is still the start of the input
	bufs   map[int]cbuf
	cells  map[int]cval
	frames []*cframe
	eq     map[[2]int64]bool // unknown byte a is (not) the constant b

	// frames
	phase int
	full  int // the payload read so far is complete: 1 yes, 2 no
	fend  int // end of the checksum
	eof   bool
	hdr   []cbyte
}

type cframe struct {
	fn   *ssa.Function
	env  map[ssa.Value]cval
	blk  *ssa.BasicBlock
	pc   int
	call ssa.Value
	bind []cval
}

type codec struct {
	P      *Program
	dec    bool
	sym    int64
	ids    int
	steps  int
	done   map[string]bool
	heads  int
	risky  bool         // an index was not shown to be in range
	frame  bool         // split function, not an escaping function
	region *codecRegion // loop, not a whole function
}

func (c *codec) fail(format string, a ...any) { panic(codecFail(fmt.Sprintf(format, a...))) }

func (s *cstate) clone() *cstate {
	n := &cstate{ended: s.ended, noEsc: s.noEsc, plain: s.plain, some: s.some, start: s.start, phase: s.phase, full: s.full, fend: s.fend, eof: s.eof}
	n.hdr = append([]cbyte(nil), s.hdr...)
	n.ahead = append([]cbyte(nil), s.ahead...)
	n.bounds = append([]int(nil), s.bounds...)
	n.spec = append([][]cbyte(nil), s.spec...)
	n.bufs = map[int]cbuf{}
	for k, v := range s.bufs {
		v.v = append([]cbyte(nil), v.v...)
		n.bufs[k] = v
	}
	n.cells = map[int]cval{}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.eq = map[[2]int64]bool{}
	for k, v := range s.eq {
		n.eq[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = map[ssa.Value]cval{}
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

// extend gives the states in which one more token, or the end, is known.
func (c *codec) extend(s *cstate) []*cstate {
	if c.frame {
		return c.extendFrame(s)
	}
	var r []*cstate
	e := s.clone()
	e.ended = true
	r = append(r, e)
	for _, isEsc := range []bool{true, false} {
		if isEsc && s.noEsc {
			continue
		}
		n := s.clone()
		var b cbyte
		if isEsc {
			b = cbyte{con: true, v: escByte}
		} else {
			c.sym++
			b = cbyte{v: c.sym}
		}
		one, two := []cbyte{b}, []cbyte{b, b}
		in, out := one, one
		if isEsc && c.dec {
			in = two
		} else if isEsc {
			out = two
		}
		n.ahead = append(n.ahead, in...)
		n.bounds = append(n.bounds, len(n.ahead))
		n.spec = append(n.spec, out)
		r = append(r, n)
	}
	return r
}

// needInput is raised by an instruction that has to know more of the input.
type needInput struct{}

// forkByte is raised by a comparison of an unknown byte with a constant.
type forkByte struct{ sym, con int64 }

// forkEsc is raised where it matters whether an escape byte has been read.
type forkEsc struct{}

// prove: nil if f is the escaper (dec: unescaper) for every input.
func (P *Program) codecProof(f *ssa.Function, dec bool) (err error) {
	key := codecKey{f, dec}
	if e, ok := P.codecs[key]; ok {
		return e
	}
	if P.codecs == nil {
		P.codecs = map[codecKey]error{}
	}
	defer func() { P.codecs[key] = err }()
	if len(f.Params) != 1 || len(f.FreeVars) != 0 || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 || !isByteSlice(f.Params[0].Type()) || !isByteSlice(f.Signature.Results().At(0).Type()) {
		return fmt.Errorf("%s is no function from bytes to bytes", f.Name())
	}
	c := &codec{P: P, dec: dec, done: map[string]bool{}}
	s := &cstate{start: true, bufs: map[int]cbuf{}, cells: map[int]cval{}, eq: map[[2]int64]bool{}}
	fr := &cframe{fn: f, env: map[ssa.Value]cval{}, blk: f.Blocks[0]}
	fr.env[f.Params[0]] = cval{kind: cView, hi: clin{l: 1}}
	s.frames = []*cframe{fr}
	err = c.try(s)
	if P.codecSafe == nil {
		P.codecSafe = map[*ssa.Function]bool{}
	}
	// every byte sequence is input of an escaper
	P.codecSafe[f] = P.codecSafe[f] || err == nil && !dec && !c.risky
	return err
}

type codecKey struct {
	f   *ssa.Function
	dec bool
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (c *codec) try(s *cstate) (err error) {
	return c.tryWith(func() { c.run(s) })
}

func (c *codec) tryWith(f func()) (err error) {
	defer func() {
		if x := recover(); x != nil {
			f, ok := x.(codecFail)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("%s", string(f))
		}
	}()
	f()
	return nil
}

// run follows a state to its ends.
func (c *codec) run(s *cstate) {
	for {
		if c.steps++; c.steps > 200000 && !c.frame || c.steps > 1500000 {
			c.fail("too many states")
		}
		fr := s.frames[len(s.frames)-1]
		instr := fr.blk.Instrs[fr.pc]
		alts := c.exec(s, fr, instr)
		if alts != nil {
			for _, a := range alts {
				c.run(a)
			}
			return
		}
		switch i := instr.(type) {
		case *ssa.Jump:
			if !c.enter(s, fr, fr.blk.Succs[0]) {
				return
			}
		case *ssa.If:
			b := c.get(fr, i.Cond)
			if b.kind != cBool {
				n := s.clone()
				nf := n.frames[len(n.frames)-1]
				if c.enter(n, nf, nf.blk.Succs[0]) {
					c.run(n)
				}
				b.t = false
			}
			k := 1
			if b.t {
				k = 0
			}
			if !c.enter(s, fr, fr.blk.Succs[k]) {
				return
			}
		case *ssa.Return:
			var r cval
			if len(i.Results) == 1 {
				r = c.get(fr, i.Results[0])
			} else {
				r = cval{kind: cTuple}
				for _, x := range i.Results {
					r.parts = append(r.parts, c.get(fr, x))
				}
			}
			if len(s.frames) > 1 {
				s.frames = s.frames[:len(s.frames)-1]
				up := s.frames[len(s.frames)-1]
				if fr.call != nil {
					if r.kind == cInt && !r.i.isConst() && c.P.isModel(fr.fn) {
						r.t = true // not negative
					}
					up.env[fr.call] = r
				}
				up.pc++
				continue
			}
			c.finish(s, r)
			return
		}
	}
}

// finish judges what is returned.
func (c *codec) finish(s *cstate, r cval) {
	if c.frame {
		c.finishFrame(s, r)
		return
	}
	first := s.start
	var got []cbyte
	switch r.kind {
	case cNil:
		if !first {
			c.fail("nothing is returned for a sequence that may not be empty")
		}
	case cView:
		if c.wholePlain(s, r) {
			return
		}
		if !first || r.i != (clin{}) || r.hi != (clin{l: 1}) && !(s.ended && r.hi == clin{n: int64(len(s.ahead))}) {
			c.fail("a part of the input is returned")
		}
		got = s.ahead
	case cSlice:
		b := s.bufs[r.id]
		if b.all {
			return
		}
		vals, x, ok := c.sliceVals(s, r)
		if !ok {
			c.fail("the length of what is returned is not known to be that of what was written")
		}
		if x == first && !(first && len(vals) == 0) && !first {
			// begins with X, as it must
		} else if !first && !x {
			c.fail("what is returned does not begin with what was written for the tokens before")
		}
		got = vals
	default:
		c.fail("the value returned is not known")
	}
	if !s.ended {
		c.fail("returns before the end of the input: %s", c.where(s))
	}
	var want []cbyte
	for _, t := range s.spec {
		want = append(want, t...)
	}
	if !sameBytes(got, want) {
		c.fail("%s: %s is returned instead of %s", c.where(s), c.show(got), c.show(want))
	}
}

// wholePlain: all of the input, which has no escape byte.
func (c *codec) wholePlain(s *cstate, r cval) bool {
	plain := s.noEsc || s.plain && s.ended
	for _, b := range s.ahead {
		plain = plain && !(b.con && b.v == escByte)
	}
	return plain && r.kind == cView && r.i.at(s) == clin{} && c.norm(s, r.hi).sub(c.norm(s, clin{l: 1})) == clin{}
}

func (c *codec) where(s *cstate) string {
	e := ""
	if s.ended {
		e = " at the end"
	}
	return "for the input " + c.show(s.ahead) + e
}

func (c *codec) show(b []cbyte) string {
	var r []string
	for _, x := range b {
		if x.con {
			r = append(r, fmt.Sprintf("%02X", x.v))
		} else {
			r = append(r, fmt.Sprintf("v%d", x.v))
		}
	}
	return "[" + strings.Join(r, " ") + "]"
}

func sameBytes(a, b []cbyte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// nonneg: not negative, whatever the input. An escaper's output is between one
// and two times as long as the input.
func (c *codec) nonneg(s *cstate, a clin) bool {
	if c.frame {
		return false
	}
	a = c.norm(s, a).at(s)
	if c.dec && (a.k != 0 || a.c != 0) {
		return false
	}
	esc := int64(0)
	for _, b := range s.ahead {
		if b.con && b.v == escByte {
			esc++
		}
	}
	// P bytes, E of them escapes, are before; R bytes, RE of them escapes, are
	// after those known: K = P+E, L = P+ahead+R, C = E+esc+RE
	n := a.n + a.l*int64(len(s.ahead)) + a.c*esc
	p, e := a.p+a.k+a.l, a.k+a.c
	r, re := a.l, a.c
	return n >= 0 && p >= 0 && p+e >= 0 && r >= 0 && r+re >= 0
}

// norm rewrites the length of the input once it is known.
func (c *codec) norm(s *cstate, a clin) clin {
	if c.frame {
		return c.frameNorm(s, a)
	}
	if s.noEsc {
		a.c = 0
	}
	if s.noEsc || s.plain {
		a.p, a.k = a.p+a.k, 0
	}
	if s.ended && a.l != 0 {
		a.p += a.l
		a.n += a.l * int64(len(s.ahead))
		a.l = 0
	}
	if a.c != 0 && s.ended {
		// len(input) and the escape bytes make up the output: for an escaper
		// len(out) = len(in) + escapes, for an unescaper in pairs
		esc := int64(0)
		for _, b := range s.ahead {
			if b.con && b.v == escByte {
				esc++
			}
		}
		d := int64(1) // escapes before P: k = p + esc
		if c.dec {
			if a.c%2 != 0 {
				return a
			}
			d = -2 // p = k + esc/2
		}
		// c*escBefore = c*d*(k-p) for an escaper; for an unescaper escBefore = 2*(p-k)
		if !c.dec {
			a.k += a.c * d
			a.p -= a.c * d
		} else {
			a.p += a.c * 2
			a.k -= a.c * 2
		}
		a.n += a.c * esc
		a.c = 0
	}
	return a
}

// sliceVals: the values of a slice that starts at the start of its buffer.
func (c *codec) sliceVals(s *cstate, v cval) (vals []cbyte, x, ok bool) {
	b := s.bufs[v.id]
	lo := c.norm(s, v.i)
	n := int64(len(b.v))
	end := clin{n: n}
	if b.x {
		end.k = 1
	}
	hi := c.norm(s, v.hi)
	if v.wholes {
		if b.open {
			return nil, false, false
		}
		hi = end
	}
	d := end.sub(hi)
	if !d.isConst() || d.n < 0 || d.n > n {
		return nil, false, false
	}
	vals = b.v[:n-d.n]
	switch {
	case lo == clin{}:
		return vals, b.x, true
	case !b.x && lo.isConst() && lo.n >= 0 && lo.n <= int64(len(vals)):
		return vals[lo.n:], false, true
	case b.x && lo.sub(clin{k: 1}).isConst() && lo.n >= 0 && lo.n <= int64(len(vals)):
		return vals[lo.n:], false, true
	}
	return nil, false, false
}

func (c *codec) newBuf(s *cstate, b cbuf) int {
	c.ids++
	s.bufs[c.ids] = b
	return c.ids
}

func (c *codec) get(fr *cframe, v ssa.Value) cval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return cval{kind: cNil}
		}
		switch x.Value.Kind() {
		case constant.Int:
			n, ok := constant.Int64Val(x.Value)
			if !ok {
				return cval{}
			}
			if b, is := x.Type().Underlying().(*types.Basic); is && b.Kind() == types.Uint8 {
				return cval{kind: cByte, b: cbyte{con: true, v: n}}
			}
			return cval{kind: cInt, i: clin{n: n}}
		case constant.Bool:
			return cval{kind: cBool, t: constant.BoolVal(x.Value)}
		case constant.String:
			r := cval{kind: cStr}
			for _, b := range []byte(constant.StringVal(x.Value)) {
				r.parts = append(r.parts, cval{kind: cByte, b: cbyte{con: true, v: int64(b)}})
			}
			return r
		}
		return cval{}
	case *ssa.Function:
		return cval{kind: cClos, fn: x}
	case *ssa.Global:
		return cval{kind: cCell, id: -1}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.bind) {
				return fr.bind[i]
			}
		}
		return cval{}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return cval{}
}

// exec performs an instruction; alternatives are returned if it depends on
// more than is known.
func (c *codec) exec(s *cstate, fr *cframe, instr ssa.Instruction) (alts []*cstate) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case needInput:
			alts = c.extend(s)
		case forkEsc:
			a, b := s.clone(), s.clone()
			a.plain, b.some = true, true
			alts = []*cstate{a, b}
		case forkFull:
			a, b := s.clone(), s.clone()
			a.full, b.full = 1, 2
			alts = []*cstate{a, b}
		case forkByte:
			a, b := s.clone(), s.clone()
			a.replace(x.sym, cbyte{con: true, v: x.con})
			b.eq[[2]int64{x.sym, x.con}] = false
			alts = []*cstate{a, b}
		default:
			panic(x)
		}
	}()
	switch i := instr.(type) {
	case *ssa.Jump, *ssa.If, *ssa.Return:
		return nil
	case *ssa.Panic:
		c.fail("may panic")
	case *ssa.Store:
		c.store(s, c.get(fr, i.Addr), c.get(fr, i.Val))
	case *ssa.DebugRef:
	case *ssa.Call:
		if n := c.call(s, fr, i); n {
			return nil // entered
		}
	case ssa.Value:
		v := c.eval(s, fr, i.(ssa.Instruction))
		fr.env[i] = v
	default:
		c.fail("%T is not understood", instr)
	}
	fr.pc++
	return nil
}

// replace turns an unknown byte into a constant.
func (s *cstate) replace(sym int64, b cbyte) {
	f := func(x cbyte) cbyte {
		if !x.con && x.v == sym {
			n := b
			n.isN = x.isN
			return n
		}
		return x
	}
	fs := func(l []cbyte) []cbyte {
		r := make([]cbyte, len(l))
		for i := range l {
			r[i] = f(l[i])
		}
		return r
	}
	s.ahead = fs(s.ahead)
	s.hdr = fs(s.hdr)
	for i := range s.spec {
		s.spec[i] = fs(s.spec[i])
	}
	for id, bf := range s.bufs {
		bf.v = fs(bf.v)
		s.bufs[id] = bf
	}
	var fv func(v cval) cval
	fv = func(v cval) cval {
		if v.kind == cByte {
			v.b = f(v.b)
		}
		if len(v.parts) > 0 {
			p := make([]cval, len(v.parts))
			for i := range v.parts {
				p[i] = fv(v.parts[i])
			}
			v.parts = p
		}
		return v
	}
	for id, v := range s.cells {
		s.cells[id] = fv(v)
	}
	for _, fr := range s.frames {
		for k, v := range fr.env {
			fr.env[k] = fv(v)
		}
	}
}

func (c *codec) store(s *cstate, a, v cval) {
	switch a.kind {
	case cCell:
		if a.id < 0 {
			c.fail("a global variable is changed")
		}
		s.cells[a.id] = v
	case cPtr:
		if v.kind != cByte {
			c.fail("a byte is written that is not known")
		}
		b := s.bufs[a.id]
		idx := c.norm(s, a.i)
		if b.open && !c.nonneg(s, b.cap.sub(a.i).sub(clin{n: 1})) {
			c.risky = true
		}
		if b.x {
			idx = idx.sub(clin{k: 1})
		}
		switch {
		case b.all || !idx.isConst() || idx.n < 0:
			c.fail("a byte is written to a place that is not known")
		case idx.n < int64(len(b.v)):
			b.v = append([]cbyte(nil), b.v...)
			b.v[idx.n] = v.b
		case b.open && idx.n == int64(len(b.v)):
			b.v = append(append([]cbyte(nil), b.v...), v.b)
		default:
			c.fail("a byte is written outside of what is filled")
		}
		s.bufs[a.id] = b
	default:
		c.fail("something is written through a pointer that is not known")
	}
}

// inByte: the input byte at an index.
func (c *codec) inByte(s *cstate, i clin) cval {
	i = c.norm(s, i)
	if c.frame && !s.start && i.isConst() {
		if i.n >= 0 && i.n < int64(len(s.hdr)) {
			return cval{kind: cByte, b: s.hdr[i.n]}
		}
		return cval{}
	}
	if s.start {
		i.k, i.p = 0, 1
	}
	if i.p != 1 || i.k != 0 || i.l != 0 || i.c != 0 || i.q != 0 {
		return cval{}
	}
	if i.n < 0 {
		c.fail("an earlier byte of the input is looked at again")
	}
	for i.n >= int64(len(s.ahead)) {
		if s.ended {
			c.fail("reads past the end of the input")
		}
		panic(needInput{})
	}
	return cval{kind: cByte, b: s.ahead[i.n]}
}

// less: whether a < b; second result false: not known.
func (c *codec) less(s *cstate, a, b clin) (bool, bool) {
	if c.frame {
		return c.frameLess(s, a.sub(b))
	}
	for {
		d := c.norm(s, a).sub(c.norm(s, b))
		if s.start {
			d.k, d.p = 0, -d.l
		}
		if d.isConst() {
			return d.n < 0, true
		}
		if m := d.k; m != 0 && d.p == -m && d.l == 0 && d.c == 0 && s.ended {
			// a multiple of the number of escapes
			if !s.some {
				panic(forkEsc{})
			}
			if c.dec {
				m = -m
			}
			if m > 0 && d.n+m >= 0 {
				return false, true
			}
			if m < 0 && d.n+m < 0 {
				return true, true
			}
		}
		// position against the length of the input
		if d.k == 0 && d.c == 0 && d.p == -d.l && (d.p == 1 || d.p == -1) && !s.ended {
			// d = p*(P - len) + n, P - len <= -len(ahead)
			m := int64(len(s.ahead))
			if d.p == 1 && d.n-m < 0 {
				return true, true // P+n-len <= n-m < 0
			}
			if d.p == -1 && d.n+m >= 0 {
				return false, true
			}
			panic(needInput{})
		}
		return false, false
	}
}

func (c *codec) equal(s *cstate, a, b clin) (bool, bool) {
	if l, ok := c.less(s, a, b); ok && l {
		return false, true
	}
	if l, ok := c.less(s, b, a); ok && l {
		return false, true
	}
	d := c.norm(s, a).sub(c.norm(s, b)).at(s)
	if d.isConst() {
		return d.n == 0, true
	}
	return false, false
}

func (c *codec) eqByte(s *cstate, a, b cbyte) bool {
	if a.con == b.con && a.v == b.v {
		return true
	}
	if a.con && b.con {
		return false
	}
	if !a.con && !b.con {
		c.fail("two unknown bytes are compared")
	}
	if a.con {
		a, b = b, a
	}
	if b.v == escByte && !a.free {
		return false
	}
	if _, ok := s.eq[[2]int64{a.v, b.v}]; ok {
		return false
	}
	panic(forkByte{a.v, b.v})
}

func (c *codec) eval(s *cstate, fr *cframe, instr ssa.Instruction) cval {
	g := func(v ssa.Value) cval { return c.get(fr, v) }
	switch i := instr.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok && isByteT(a.Elem()) && a.Len() <= 1024 {
			return cval{kind: cPtr, id: c.zeroBuf(s, a.Len()), i: clin{n: -1}}
		}
		c.ids++
		v := cval{}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Kind() == types.Uint8:
				v = cval{kind: cByte, b: cbyte{con: true}}
			case u.Info()&types.IsInteger != 0:
				v = cval{kind: cInt}
			case u.Info()&types.IsBoolean != 0:
				v = cval{kind: cBool}
			}
		case *types.Slice:
			v = cval{kind: cNil}
		case *types.Struct:
			if n := t.String(); n == "bytes.Buffer" {
				id := c.ids
				s.cells[id] = cval{kind: cSlice, id: c.newBuf(s, cbuf{}), wholes: true}
				return cval{kind: cBufr, id: id}
			}
		}
		s.cells[c.ids] = v
		return cval{kind: cCell, id: c.ids}
	case *ssa.MakeSlice:
		n := g(i.Len)
		if !isByteSlice(i.Type()) {
			return cval{}
		}
		if n.kind == cInt && n.i.isConst() && n.i.n >= 0 && n.i.n < 1024 {
			return cval{kind: cSlice, id: c.zeroBuf(s, n.i.n), wholes: true}
		}
		n.i = n.i.at(s)
		id := c.newBuf(s, cbuf{open: true, cap: n.i})
		r := cval{kind: cSlice, id: id, wholes: true}
		if n.kind == cInt {
			r.wholes, r.hi = false, n.i
		}
		if n.kind != cInt || !c.nonneg(s, n.i) {
			c.risky = true
		}
		return r
	case *ssa.MakeClosure:
		r := cval{kind: cClos, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			r.parts = append(r.parts, g(b))
		}
		return r
	case *ssa.UnOp:
		x := g(i.X)
		switch i.Op {
		case token.MUL:
			switch x.kind {
			case cElem:
				return c.inByte(s, x.i)
			case cCell:
				if x.id < 0 {
					return c.global(i.X)
				}
				return s.cells[x.id]
			case cPtr:
				if x.i == (clin{n: -1}) {
					return cval{}
				}
				vals, _, ok := c.sliceVals(s, cval{kind: cSlice, id: x.id, i: x.i, wholes: true})
				if ok && len(vals) > 0 {
					return cval{kind: cByte, b: vals[0]}
				}
				if b := s.bufs[x.id]; b.open {
					vals, _, ok := c.sliceVals(s, cval{kind: cSlice, id: x.id, i: x.i, hi: c.fill(b)})
					if ok && len(vals) > 0 {
						return cval{kind: cByte, b: vals[0]}
					}
				}
				c.fail("a byte is read from the output that is not known")
			}
			return cval{}
		case token.NOT:
			if x.kind == cBool {
				x.t = !x.t
				return x
			}
		case token.SUB:
			if x.kind == cInt {
				return cval{kind: cInt, i: clin{}.sub(x.i)}
			}
		}
		return cval{}
	case *ssa.BinOp:
		return c.binop(s, i.Op, g(i.X), g(i.Y))
	case *ssa.Convert, *ssa.ChangeType:
		var x cval
		var t types.Type
		if cv, ok := i.(*ssa.Convert); ok {
			x, t = g(cv.X), cv.Type()
		} else {
			x, t = g(i.(*ssa.ChangeType).X), i.(*ssa.ChangeType).Type()
		}
		b, ok := t.Underlying().(*types.Basic)
		switch {
		case ok && b.Info()&types.IsString != 0 && (x.kind == cView || x.kind == cSlice || x.kind == cNil || x.kind == cStr):
			return x
		case !ok && (x.kind == cView || x.kind == cSlice || x.kind == cNil || x.kind == cClos) && isByteSlice(t):
			return x
		case !ok:
			return x
		case x.kind == cByte && b.Kind() == types.Uint8:
			return x
		case x.kind == cByte && x.b.isN && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int8 && b.Kind() != types.Uint8:
			return cval{kind: cInt, i: clin{c: 1}}
		case x.kind == cByte && x.b.con && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int8:
			return cval{kind: cInt, i: clin{n: x.b.v}}
		case x.kind == cByte && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int8:
			return x // compared as a number
		case x.kind == cInt && b.Info()&types.IsInteger != 0:
			if b.Kind() == types.Uint8 {
				if x.i.isConst() {
					return cval{kind: cByte, b: cbyte{con: true, v: x.i.n & 255}}
				}
				return cval{}
			}
			switch b.Kind() {
			case types.Int, types.Int64, types.Uint, types.Uint64:
				return x
			}
		}
		return cval{}
	case *ssa.IndexAddr:
		x, n := g(i.X), g(i.Index)
		if n.kind != cInt {
			return cval{}
		}
		switch x.kind {
		case cView:
			return cval{kind: cElem, i: x.i.add(n.i)}
		case cSlice:
			return cval{kind: cPtr, id: x.id, i: x.i.add(n.i)}
		case cPtr: // array
			return cval{kind: cPtr, id: x.id, i: n.i}
		}
		return cval{}
	case *ssa.Slice:
		x := g(i.X)
		lo, hi := clin{}, clin{}
		hasHi := i.High != nil
		if i.Low != nil {
			v := g(i.Low)
			if v.kind != cInt {
				return cval{}
			}
			lo = v.i
		}
		if hasHi {
			v := g(i.High)
			if v.kind != cInt {
				return cval{}
			}
			hi = v.i
		}
		switch x.kind {
		case cView:
			if i.Max != nil && hasHi && hi == lo {
				if m := g(i.Max); m.kind == cInt && m.i == hi {
					return cval{kind: cSlice, id: c.newBuf(s, cbuf{}), wholes: true}
				}
			}
			r := cval{kind: cView, i: x.i.add(lo), hi: x.hi}
			if hasHi {
				r.hi = x.i.add(hi)
				if !c.nonneg(s, clin{l: 1}.sub(r.hi)) {
					c.risky = true
				}
			}
			if !c.nonneg(s, r.hi.sub(r.i)) || !c.nonneg(s, lo) {
				c.risky = true
			}
			return r
		case cSlice:
			r := x
			r.i = x.i.add(lo)
			if r.i != (clin{}) {
				c.risky = true
			}
			if hasHi {
				r.hi, r.wholes = x.i.add(hi), false
				if bf := s.bufs[x.id]; !bf.open || !c.nonneg(s, bf.cap.sub(r.hi)) {
					c.risky = true
				}
				if bf := s.bufs[x.id]; !bf.open && !bf.all && c.norm(s, r.hi) == c.fill(bf) {
					r.wholes = true
				}
			}
			return r
		case cPtr: // array
			r := cval{kind: cSlice, id: x.id, i: lo, wholes: !hasHi, hi: hi}
			if bf := s.bufs[x.id]; !bf.open && !bf.x && hi == (clin{n: int64(len(bf.v))}) {
				r.wholes = true
			}
			return r
		case cNil:
			return x
		}
		return cval{}
	case *ssa.FieldAddr:
		if x := g(i.X); x.kind == cTuple && i.Field < len(x.parts) && x.parts[i.Field].kind == cCell {
			return x.parts[i.Field]
		}
		return cval{}
	case *ssa.Field:
		if x := g(i.X); x.kind == cTuple && i.Field < len(x.parts) {
			return x.parts[i.Field]
		}
		return cval{}
	case *ssa.Extract:
		x := g(i.Tuple)
		if x.kind == cTuple && i.Index < len(x.parts) {
			return x.parts[i.Index]
		}
		return cval{}
	case *ssa.Phi:
		c.fail("unexpected phi")
	}
	return cval{}
}

func (c *codec) zeroBuf(s *cstate, n int64) int {
	v := make([]cbyte, n)
	for i := range v {
		v[i] = cbyte{con: true}
	}
	return c.newBuf(s, cbuf{v: v})
}

func (c *codec) fill(b cbuf) clin {
	r := clin{n: int64(len(b.v))}
	if b.x {
		r.k = 1
	}
	return r
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// global: constants kept in package variables that are never changed.
func (c *codec) global(v ssa.Value) cval {
	g, ok := v.(*ssa.Global)
	if !ok {
		return cval{}
	}
	root := mkGlobal(g)
	t := c.P.initMem[root]
	if t == nil || c.P.mutable[root] {
		return cval{}
	}
	if n, ok := t.intConst(); ok {
		if isByteT(g.Type().(*types.Pointer).Elem()) {
			return cval{kind: cByte, b: cbyte{con: true, v: n}}
		}
		return cval{kind: cInt, i: clin{n: n}}
	}
	return cval{}
}

func (c *codec) binop(s *cstate, op token.Token, x, y cval) cval {
	b := func(v, ok bool) cval {
		if !ok {
			return cval{}
		}
		return cval{kind: cBool, t: v}
	}
	if x.kind == cBool && y.kind == cBool {
		switch op {
		case token.EQL:
			return b(x.t == y.t, true)
		case token.NEQ:
			return b(x.t != y.t, true)
		case token.AND, token.LAND:
			return b(x.t && y.t, true)
		case token.OR, token.LOR:
			return b(x.t || y.t, true)
		}
		return cval{}
	}
	if op == token.EQL || op == token.NEQ {
		nilCmp := func(a, o cval) (bool, bool) {
			if o.kind != cNil {
				return false, false
			}
			switch a.kind {
			case cNil:
				return true, true
			}
			return false, false
		}
		if v, ok := nilCmp(x, y); ok {
			return b(v == (op == token.EQL), true)
		}
		if v, ok := nilCmp(y, x); ok {
			return b(v == (op == token.EQL), true)
		}
	}
	toByte := func(v cval) (cbyte, bool) {
		if v.kind == cByte {
			return v.b, true
		}
		if v.kind == cInt && v.i.isConst() && v.i.n >= 0 && v.i.n < 256 {
			return cbyte{con: true, v: v.i.n}, true
		}
		return cbyte{}, false
	}
	if x.kind == cByte || y.kind == cByte {
		a, ok1 := toByte(x)
		d, ok2 := toByte(y)
		if !ok1 || !ok2 {
			return cval{}
		}
		switch op {
		case token.EQL:
			return b(c.eqByte(s, a, d), true)
		case token.NEQ:
			return b(!c.eqByte(s, a, d), true)
		}
		if !a.con || !d.con {
			switch op {
			case token.XOR, token.SUB:
				if !c.eqByte(s, a, d) {
					return cval{} // not zero, but that is forgotten
				}
				return cval{kind: cByte, b: cbyte{con: true}}
			}
			return cval{}
		}
		switch op {
		case token.LSS:
			return b(a.v < d.v, true)
		case token.LEQ:
			return b(a.v <= d.v, true)
		case token.GTR:
			return b(a.v > d.v, true)
		case token.GEQ:
			return b(a.v >= d.v, true)
		}
		n := int64(0)
		switch op {
		case token.ADD:
			n = a.v + d.v
		case token.SUB:
			n = a.v - d.v
		case token.XOR:
			n = a.v ^ d.v
		case token.AND:
			n = a.v & d.v
		case token.OR:
			n = a.v | d.v
		default:
			return cval{}
		}
		return cval{kind: cByte, b: cbyte{con: true, v: n & 255}}
	}
	if (x.kind == cTop || x.kind == cInt) && x.t && y.kind == cInt && y.i.isConst() && y.i.n <= 0 {
		neg := y.i.n < 0
		switch {
		case op == token.LSS, op == token.LEQ && neg, op == token.EQL && neg:
			return b(false, true)
		case op == token.GEQ, op == token.GTR && neg, op == token.NEQ && neg:
			return b(true, true)
		}
	}
	if x.kind != cInt || y.kind != cInt {
		return cval{}
	}
	switch op {
	case token.ADD:
		return cval{kind: cInt, i: x.i.add(y.i)}
	case token.SUB:
		return cval{kind: cInt, i: x.i.sub(y.i)}
	case token.MUL:
		for _, p := range [][2]clin{{x.i, y.i}, {y.i, x.i}} {
			if p[0].isConst() {
				m, a := p[0].n, p[1]
				return cval{kind: cInt, i: clin{m * a.n, m * a.p, m * a.k, m * a.l, m * a.c, m * a.q}}
			}
		}
		return cval{}
	case token.LSS:
		return b(c.less(s, x.i, y.i))
	case token.GTR:
		return b(c.less(s, y.i, x.i))
	case token.LEQ:
		v, ok := c.less(s, y.i, x.i)
		return b(!v, ok)
	case token.GEQ:
		v, ok := c.less(s, x.i, y.i)
		return b(!v, ok)
	case token.EQL:
		return b(c.equal(s, x.i, y.i))
	case token.NEQ:
		v, ok := c.equal(s, x.i, y.i)
		return b(!v, ok)
	}
	if x.i.isConst() && y.i.isConst() {
		a, d := x.i.n, y.i.n
		switch {
		case op == token.AND:
			return cval{kind: cInt, i: clin{n: a & d}}
		case op == token.OR:
			return cval{kind: cInt, i: clin{n: a | d}}
		case op == token.XOR:
			return cval{kind: cInt, i: clin{n: a ^ d}}
		case op == token.QUO && d != 0:
			return cval{kind: cInt, i: clin{n: a / d}}
		case op == token.REM && d != 0:
			return cval{kind: cInt, i: clin{n: a % d}}
		}
	}
	return cval{}
}

// literal: the bytes of a slice that does not depend on the input.
func (c *codec) literal(s *cstate, v cval) ([]cbyte, bool) {
	switch v.kind {
	case cNil:
		return nil, true
	case cStr:
		var r []cbyte
		for _, p := range v.parts {
			r = append(r, p.b)
		}
		return r, true
	case cSlice:
		vals, x, ok := c.sliceVals(s, v)
		return vals, ok && !x && !s.bufs[v.id].all
	case cView:
		lo, hi := c.norm(s, v.i), c.norm(s, v.hi)
		if lo.p == 1 && hi.p == 1 && lo.k == 0 && hi.k == 0 && lo.l == 0 && hi.l == 0 && lo.c == 0 && hi.c == 0 && lo.n >= 0 {
			for hi.n > int64(len(s.ahead)) {
				if s.ended {
					return nil, false
				}
				panic(needInput{})
			}
			if lo.n <= hi.n {
				return s.ahead[lo.n:hi.n], true
			}
		}
	}
	return nil, false
}

// appended: the buffer with more bytes at its end.
func (c *codec) appended(s *cstate, to cval, l []cbyte) cval {
	vals, x, ok := []cbyte(nil), false, true
	if to.kind == cSlice {
		if s.bufs[to.id].all {
			c.fail("something is appended to the finished output")
		}
		vals, x, ok = c.sliceVals(s, to)
	} else if to.kind != cNil {
		ok = false
	}
	if !ok || to.kind == cSlice && to.i != (clin{}) {
		c.fail("something is appended to a sequence that is not known")
	}
	id := c.newBuf(s, cbuf{x: x, v: append(append([]cbyte(nil), vals...), l...)})
	return cval{kind: cSlice, id: id, wholes: true}
}

// call performs a call; true: a function was entered.
func (c *codec) call(s *cstate, fr *cframe, i *ssa.Call) bool {
	g := func(v ssa.Value) cval { return c.get(fr, v) }
	args := make([]cval, len(i.Call.Args))
	for j, a := range i.Call.Args {
		args[j] = g(a)
	}
	set := func(v cval) bool { fr.env[i] = v; return false }
	if b, ok := i.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch x := args[0]; x.kind {
			case cNil:
				return set(cval{kind: cInt})
			case cView:
				return set(cval{kind: cInt, i: x.hi.sub(x.i)})
			case cCoded:
				return set(cval{kind: cInt, i: x.hi})
			case cSlice:
				bf := s.bufs[x.id]
				if bf.all || x.wholes && bf.open {
					return set(cval{})
				}
				hi := x.hi
				if x.wholes {
					hi = c.fill(bf)
				}
				return set(cval{kind: cInt, i: hi.sub(x.i)})
			}
			return set(cval{})
		case "cap":
			return set(cval{})
		case "append":
			if v := args[1]; c.wholePlain(s, v) {
				if l, ok := c.literal(s, args[0]); ok && len(l) == 0 {
					return set(cval{kind: cSlice, id: c.newBuf(s, cbuf{all: true}), wholes: true})
				}
			}
			if l, ok := c.literal(s, args[1]); ok {
				return set(c.appended(s, args[0], l))
			}
			c.fail("a sequence is appended that is not known")
		case "copy":
			l, ok := c.literal(s, args[1])
			if !ok || args[0].kind != cSlice {
				c.fail("a copy is made that is not understood")
			}
			for j, b := range l {
				c.store(s, cval{kind: cPtr, id: args[0].id, i: args[0].i.add(clin{n: int64(j)})}, cval{kind: cByte, b: b})
			}
			return set(cval{kind: cInt, i: clin{n: int64(len(l))}})
		case "min", "max":
			return set(cval{})
		}
		c.fail("%s is not understood", b.Name())
	}
	var callee *ssa.Function
	var bind []cval
	if f := i.Call.StaticCallee(); f != nil {
		callee = f
		if v := g(i.Call.Value); v.kind == cClos {
			bind = v.parts
		}
	} else if v := g(i.Call.Value); !i.Call.IsInvoke() && v.kind == cClos {
		callee, bind = v.fn, v.parts
	}
	if callee == nil {
		c.fail("a call is not resolved")
	}
	if c.frame && c.P.isRepo(callee) && codecShape(callee) && len(args) == 1 && args[0].kind == cView && c.P.codecProof(callee, true) == nil {
		return set(c.decodedLen(s, args[0]))
	}
	if c.P.isRepo(callee) {
		if len(callee.Blocks) == 0 || len(s.frames) > 8 {
			c.fail("a call is not resolved")
		}
		n := &cframe{fn: callee, env: map[ssa.Value]cval{}, blk: callee.Blocks[0], call: i, bind: bind}
		for j, p := range callee.Params {
			n.env[p] = args[j]
		}
		s.frames = append(s.frames, n)
		return true
	}
	if c.frame && len(args) == 2 && c.search(s, fr, i, fnName(callee), args) {
		return true
	}
	lit := func(j int, want ...int64) bool {
		l, ok := c.literal(s, args[j])
		if !ok || len(l) != len(want) {
			return false
		}
		for k, w := range want {
			if l[k] != (cbyte{con: true, v: w}) {
				return false
			}
		}
		return true
	}
	whole := func(v cval) bool { return v.kind == cView && v.i == (clin{}) && v.hi == clin{l: 1} }
	from, to := []int64{escByte}, []int64{escByte, escByte}
	if c.dec {
		from, to = to, from
	}
	all := func() bool {
		return set(cval{kind: cSlice, id: c.newBuf(s, cbuf{all: true}), wholes: true})
	}
	switch n := fnName(callee); n {
	case "bytes.ReplaceAll", "bytes.Replace", "strings.ReplaceAll", "strings.Replace":
		cnt := len(args) == 3 || args[3].kind == cInt && args[3].i.isConst() && args[3].i.n < 0
		if whole(args[0]) && cnt && lit(1, from...) && lit(2, to...) {
			return all()
		}
		c.fail("the replacement is not that of an escape byte")
	case "bytes.Split", "strings.Split":
		if whole(args[0]) && lit(1, from...) {
			return set(cval{kind: cTuple, t: true})
		}
	case "bytes.Join", "strings.Join":
		if args[0].kind == cTuple && args[0].t && lit(1, to...) {
			return all()
		}
	case "bytes.Contains", "bytes.ContainsRune", "slices.Contains", "bytes.IndexByte", "bytes.Index":
		one := lit(1, escByte)
		if v := args[1]; v.kind == cByte {
			one = v.b == cbyte{con: true, v: escByte}
		} else if v.kind == cInt {
			one = v.i == clin{n: escByte}
		}
		if whole(args[0]) && one && s.start {
			is := strings.Contains(n, "Index")
			if !s.noEsc {
				o := s.clone()
				f := o.frames[len(o.frames)-1]
				f.env[i] = cval{kind: cBool, t: true}
				if is {
					f.env[i] = cval{t: true} // not negative
				}
				f.pc++
				s.noEsc = true
				c.run(o)
			}
			if is {
				return set(cval{kind: cInt, i: clin{n: -1}})
			}
			return set(cval{kind: cBool})
		}
		return set(cval{})
	case "bytes.Count":
		if whole(args[0]) && lit(1, escByte) {
			return set(cval{kind: cInt, i: clin{c: 1}})
		}
		return set(cval{})
	case "slices.Grow", "slices.Clip":
		return set(args[0])
	case "bytes.Clone", "slices.Clone":
		if c.wholePlain(s, args[0]) {
			return all()
		}
		if l, ok := c.literal(s, args[0]); ok {
			return set(cval{kind: cSlice, id: c.newBuf(s, cbuf{v: append([]cbyte(nil), l...)}), wholes: true})
		}
	case "bytes.NewBuffer":
		c.ids++
		v := args[0]
		if v.kind == cNil {
			v = cval{kind: cSlice, id: c.newBuf(s, cbuf{}), wholes: true}
		}
		s.cells[c.ids] = v
		return set(cval{kind: cBufr, id: c.ids})
	case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).Write":
		if args[0].kind != cBufr {
			break
		}
		l := []cbyte{args[1].b}
		ok := args[1].kind == cByte
		if strings.HasSuffix(n, "Write") {
			l, ok = c.literal(s, args[1])
		}
		if !ok {
			c.fail("bytes are written that are not known")
		}
		s.cells[args[0].id] = c.appended(s, s.cells[args[0].id], l)
		if strings.HasSuffix(n, "Write") {
			return set(cval{kind: cTuple, parts: []cval{{kind: cInt, i: clin{n: int64(len(l))}}, {kind: cNil}}})
		}
		return set(cval{kind: cNil})
	case "(*bytes.Buffer).Bytes":
		if args[0].kind == cBufr {
			return set(s.cells[args[0].id])
		}
	case "(*bytes.Buffer).Grow":
		return set(cval{})
	}
	c.fail("the call of %s is not understood", fnName(callee))
	return false
}

// enter goes to a block; false: what follows has been dealt with.
func (c *codec) enter(s *cstate, fr *cframe, b *ssa.BasicBlock) bool {
	if r := c.region; r != nil && len(s.frames) == 1 && !r.blocks[b] && r.blocks[fr.blk] {
		if fr.blk != r.head {
			c.fail("the loop is left before its end")
		}
		v := fr.env[r.acc]
		if v.kind == cBufr {
			v = s.cells[v.id]
		}
		c.finish(s, v)
		return false
	}
	pi := predIndex(b, fr.blk)
	vals := map[*ssa.Phi]cval{}
	phis := phisOf(b)
	for _, p := range phis {
		vals[p] = c.get(fr, p.Edges[pi])
	}
	for p, v := range vals {
		fr.env[p] = v
	}
	if c.region != nil && b == c.region.head && len(s.frames) == 1 {
		for _, p := range c.region.idle {
			delete(fr.env, p)
		}
	}
	back := fr.blk
	fr.blk, fr.pc = b, len(phis)
	li := c.P.loopsOf(fr.fn)[b]
	if li == nil {
		return true
	}
	// values of the last turn are gone
	for v := range fr.env {
		if in, ok := v.(ssa.Instruction); ok && in.Parent() == fr.fn && li.blocks[in.Block()] {
			if p, isPhi := v.(*ssa.Phi); !isPhi || p.Block() != b {
				delete(fr.env, v)
			}
		}
	}
	if !li.blocks[back] {
		return c.arrive(s, fr, b, phis)
	}
	c.again(s)
	return false
}

// arrive: a loop is reached from outside. If nothing was read yet, what the
// loop variables stand for is guessed; a guess is right if the proof succeeds.
func (c *codec) arrive(s *cstate, fr *cframe, b *ssa.BasicBlock, phis []*ssa.Phi) bool {
	if c.frame {
		return true
	}
	if !s.start {
		if !c.rewind(s) {
			return true
		}
	}
	if s.ended {
		return true
	}
	// what is known of the input so far is not needed
	s.ahead, s.bounds, s.spec = nil, nil, nil
	s.start = false
	type slot struct {
		set func(s *cstate, n int64)
		n   int
	}
	var slots []slot
	fi := len(s.frames) - 1
	for _, p := range phis {
		p := p
		switch v := fr.env[p]; v.kind {
		case cInt:
			if v.i.p == 0 && v.i.k == 0 {
				slots = append(slots, slot{func(s *cstate, n int64) {
					f := s.frames[fi]
					v := f.env[p]
					switch n {
					case 0:
						v.i.p = 1
					case 1:
						v.i.k = 1
					case 2:
						v.i.k, v.i.p = 1, -1
					case 3:
						v.i.p = -1
					}
					f.env[p] = v
				}, 5})
			}
		case cView:
			if v.i.isConst() {
				slots = append(slots, slot{func(s *cstate, n int64) {
					f := s.frames[fi]
					v := f.env[p]
					if n == 0 {
						v.i.p = 1
					}
					f.env[p] = v
				}, 2})
			}
		case cNil:
			if isByteSlice(p.Type()) {
				slots = append(slots, slot{func(s *cstate, n int64) {
					f := s.frames[fi]
					f.env[p] = cval{kind: cSlice, id: c.newBuf(s, cbuf{x: n == 0}), wholes: true}
				}, 2})
			}
		}
	}
	var ids []int
	for id, bf := range s.bufs {
		if len(bf.v) == 0 && !bf.all {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		slots = append(slots, slot{func(s *cstate, n int64) {
			if n == 0 {
				bf := s.bufs[id]
				bf.x = true
				s.bufs[id] = bf
			}
		}, 2})
	}
	// variables kept in cells
	var cells []int
	for id, v := range s.cells {
		if v.kind == cInt && v.i.isConst() || v.kind == cNil {
			cells = append(cells, id)
		}
	}
	sort.Ints(cells)
	for _, id := range cells {
		id := id
		slots = append(slots, slot{func(s *cstate, n int64) {
			v := s.cells[id]
			if v.kind == cNil {
				if n == 0 {
					v = cval{kind: cSlice, id: c.newBuf(s, cbuf{x: true}), wholes: true}
				}
			} else if n == 0 {
				v.i.p = 1
			} else if n == 1 {
				v.i.k = 1
			}
			s.cells[id] = v
		}, 3})
	}
	slots = append(slots, slot{func(s *cstate, n int64) { s.plain = n == 1 }, 2})
	total := 1
	for _, sl := range slots {
		total *= sl.n
		if total > 3000 {
			c.fail("too many loop variables")
		}
	}
	var why error
	for g := 0; g < total; g++ {
		n := s.clone()
		x := g
		for _, sl := range slots {
			sl.set(n, int64(x%sl.n))
			x /= sl.n
		}
		sub := &codec{P: c.P, region: c.region, dec: c.dec, done: map[string]bool{}, sym: c.sym, ids: c.ids + 1000}
		err := sub.tryWith(func() { sub.again(n) })
		c.steps += sub.steps
		if c.steps > 2000000 {
			c.fail("too many states")
		}
		if err == nil {
			c.risky = c.risky || sub.risky
			return false // proven for every input
		}
		if why == nil {
			why = err
		}
	}
	c.fail("%v", why)
	return false
}

// again: a loop head is reached once more. What has been read is forgotten
// as far as the output has been shown to follow it.
func (c *codec) again(s *cstate) {
	if s.start {
		// followed from the start without a guess
		if c.frame && c.leave(s) {
			return
		}
		c.run(s)
		return
	}
	if c.frame {
		c.rebaseFrame(s)
	} else {
		c.rebase(s)
	}
	if c.frame {
		s.each(func(v cval) cval {
			if n := v.i.n; v.kind == cInt && !v.i.isConst() && (n < -600 || n > 600) {
				c.fail("a loop variable drifts away")
			}
			return v
		})
	}
	key := c.key(s)
	if c.done[key] {
		return
	}
	if debugFrame {
		fmt.Println(len(c.done), key)
	}
	c.done[key] = true
	if c.heads++; c.heads > 200 && !c.frame || c.heads > 20000 {
		c.fail("no invariant is found")
	}
	c.run(s)
}

// rewind: nothing has been written; what is known of the input read so far is
// put in terms of its length and the number of escape bytes in it.
func (c *codec) rewind(s *cstate) bool {
	for _, f := range s.frames {
		c.prune(f)
	}
	c.sweep(s)
	for _, b := range s.bufs {
		if b.x {
			return false
		}
	}
	adv, outn := int64(len(s.ahead)), int64(0)
	for _, t := range s.spec {
		outn += int64(len(t))
	}
	s.noEsc = c.wholePlain(s, cval{kind: cView, hi: clin{l: 1}})
	ended := s.ended
	ok := true
	fix := func(v cval) cval {
		for _, a := range []*clin{&v.i, &v.hi} {
			if a.p == 0 && a.k == 0 {
				continue
			}
			if !ended || c.dec && a.k%2 != 0 {
				ok = false
				continue
			}
			a.n -= a.p*adv + a.k*outn
			a.l += a.p + a.k
			if c.dec {
				a.c -= a.k / 2
			} else {
				a.c += a.k
			}
			a.p, a.k = 0, 0
		}
		if !ok {
			ok = true
			return cval{}
		}
		return v
	}
	s.each(fix)
	for id, b := range s.bufs {
		if v := fix(cval{kind: cInt, i: b.cap}); v.kind == cInt {
			b.cap = v.i
		} else {
			b.cap = clin{}
		}
		s.bufs[id] = b
	}
	s.ahead, s.bounds, s.spec, s.ended, s.plain, s.some, s.start = nil, nil, nil, false, false, false, true
	return true
}

// each changes all values.
func (s *cstate) each(f func(v cval) cval) {
	var fix func(v cval) cval
	fix = func(v cval) cval {
		v = f(v)
		if len(v.parts) > 0 {
			p := make([]cval, len(v.parts))
			for i := range p {
				p[i] = fix(v.parts[i])
			}
			v.parts = p
		}
		return v
	}
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = fix(v)
		}
		b := make([]cval, len(f.bind))
		for k, v := range f.bind {
			b[k] = fix(v)
		}
		f.bind = b
	}
	for k, v := range s.cells {
		s.cells[k] = fix(v)
	}
}

// sweep forgets buffers nothing refers to; the lowest position of the input
// that is referred to, after P.
func (c *codec) sweep(s *cstate) int64 {
	live := map[int]bool{}
	seen := map[int]bool{}
	low := int64(1 << 40)
	ref := func(a clin) {
		if n := a.n * a.p; a.p != 0 && a.k == 0 && a.q == 0 && n < low {
			low = n
		}
	}
	var look func(v cval)
	look = func(v cval) {
		switch v.kind {
		case cInt, cView, cElem:
			ref(v.i)
		case cSlice, cPtr:
			live[v.id] = true
		case cCell, cBufr:
			if x, ok := s.cells[v.id]; ok && !seen[v.id] {
				seen[v.id] = true
				look(x)
			}
		}
		for _, p := range v.parts {
			look(p)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			look(v)
		}
		for _, v := range f.bind {
			look(v)
		}
	}
	for id := range s.bufs {
		if !live[id] {
			delete(s.bufs, id)
		}
	}
	for id := range s.cells {
		if !seen[id] {
			delete(s.cells, id)
		}
	}
	return low
}

// prune drops values no instruction still to come uses.
func (c *codec) prune(fr *cframe) {
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if !reach[b] {
			reach[b] = true
			for _, n := range b.Succs {
				walk(n)
			}
		}
	}
	walk(fr.blk)
	for v := range fr.env {
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		used := false
		for _, r := range *refs {
			if p, ok := r.(*ssa.Phi); ok {
				for i, e := range p.Edges {
					used = used || e == v && reach[p.Block().Preds[i]]
				}
			} else if _, ok := r.(*ssa.DebugRef); !ok {
				used = used || reach[r.Block()]
			}
		}
		if !used {
			delete(fr.env, v)
		}
	}
}

// rebase moves P past the tokens nothing refers to any more.
func (c *codec) rebase(s *cstate) {
	for _, f := range s.frames {
		c.prune(f)
	}
	low := c.sweep(s)
	m := 0
	for j, e := range s.bounds {
		if int64(e) > low+1 {
			break
		}
		m = j + 1
	}
	for ; m > 0; m-- {
		var q []cbyte
		for _, t := range s.spec[:m] {
			q = append(q, t...)
		}
		ok := true
		for _, b := range s.bufs {
			if !b.x {
				continue
			}
			n := len(q)
			if len(b.v) < n {
				n = len(b.v)
			}
			if !sameBytes(q[:n], b.v[:n]) {
				c.fail("%s: %s is written instead of %s", c.where(s), c.show(b.v), c.show(q))
			}
			ok = ok && len(b.v) >= len(q)
		}
		if !ok {
			continue
		}
		adv, outn := int64(s.bounds[m-1]), int64(len(q))
		sh := func(a clin) clin {
			a.n -= a.p*adv + a.k*outn
			return a
		}
		s.each(func(v cval) cval {
			v.i, v.hi = sh(v.i), sh(v.hi)
			return v
		})
		for _, b := range s.ahead[:adv] {
			if s.plain && b.con && b.v == escByte {
				c.fail("an escape byte has been read")
			}
		}
		for id, b := range s.bufs {
			b.cap = sh(b.cap)
			s.bufs[id] = b
			if b.x {
				b.v = append([]cbyte(nil), b.v[len(q):]...)
				s.bufs[id] = b
			}
		}
		s.ahead = append([]cbyte(nil), s.ahead[adv:]...)
		var nb []int
		for _, e := range s.bounds[m:] {
			nb = append(nb, e-int(adv))
		}
		s.bounds = nb
		s.spec = append([][]cbyte(nil), s.spec[m:]...)
		break
	}
	if len(s.ahead) > 8 {
		c.fail("more and more of the input is held back")
	}
}

// key describes a state up to the names of bytes, buffers and cells.
func (c *codec) key(s *cstate) string {
	syms, ids := map[int64]int{}, map[int]int{}
	by := func(b cbyte) string {
		if b.con {
			return fmt.Sprintf("%02X", b.v)
		}
		if _, ok := syms[b.v]; !ok {
			syms[b.v] = len(syms)
		}
		k := fmt.Sprintf("v%d/%t/%t", syms[b.v], b.free, b.isN)
		var ne []string
		for q := range s.eq {
			if q[0] == b.v {
				ne = append(ne, fmt.Sprint(q[1]))
			}
		}
		sort.Strings(ne)
		return k + "!" + strings.Join(ne, ",")
	}
	bys := func(l []cbyte) string {
		r := ""
		for _, b := range l {
			r += by(b) + " "
		}
		return r
	}
	var out []string
	out = append(out, bys(s.ahead), fmt.Sprint(s.bounds, s.ended, s.start, s.plain, s.some, s.noEsc))
	if c.frame {
		out = append(out, bys(s.hdr), fmt.Sprint(s.phase, s.full, s.fend, s.eof))
	}
	for _, t := range s.spec {
		out = append(out, bys(t))
	}
	var val func(v cval, d int) string
	val = func(v cval, d int) string {
		if d > 6 {
			return "..."
		}
		r := fmt.Sprint(v.kind, v.i, v.hi, v.t, v.wholes)
		switch v.kind {
		case cByte:
			r += by(v.b)
		case cSlice, cPtr:
			if n, ok := ids[v.id]; ok {
				r += fmt.Sprint("#", n)
				break
			}
			ids[v.id] = len(ids)
			b := s.bufs[v.id]
			r += fmt.Sprint("#", ids[v.id], b.x, b.all, b.open) + bys(b.v)
		case cCell, cBufr:
			if n, ok := ids[-v.id-10]; ok {
				r += fmt.Sprint("#", n)
				break
			}
			ids[-v.id-10] = len(ids)
			r += val(s.cells[v.id], d+1)
		case cClos:
			r += v.fn.String()
		}
		for _, p := range v.parts {
			r += "," + val(p, d+1)
		}
		return r
	}
	for _, f := range s.frames {
		out = append(out, f.fn.String(), fmt.Sprint(f.blk.Index))
		var names []string
		vs := map[string]ssa.Value{}
		for v := range f.env {
			names = append(names, v.Name())
			vs[v.Name()] = v
		}
		sort.Strings(names)
		for _, n := range names {
			out = append(out, n+"="+val(f.env[vs[n]], 0))
		}
		for _, v := range f.bind {
			out = append(out, val(v, 0))
		}
	}
	return strings.Join(out, ";")
}
