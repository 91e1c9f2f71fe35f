package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"runtime"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KRet     Kind = iota
	KPanic        // unwinds
	KIter         // reached the head of a summarised loop again
	KLeave        // left the loop under discovery
	KExit         // process exit
	KBlocked      // waits for ever
	KStop         // cut by configuration
)

type Outcome struct {
	Kind  Kind
	St    *State
	Ret   *Term // tuple or single value
	Why   string
	Loop  *loopCtx
	Frame *Frame
	From  *ssa.BasicBlock
}

type alt struct {
	st  *State
	val *Term
	// a non-returning alternative
	out *Outcome
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
	inv   *types.Func
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]*Term
	defers  []deferred
	active  []*loopCtx
	unroll  map[*ssa.BasicBlock]int
	caller  *Frame
	callPos token.Pos
	depth   int
	id      int
	recov   bool // running deferred calls of a panicking frame
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.active = f.active[:len(f.active):len(f.active)]
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return &n
}

type Interp struct {
	P      *Program
	opaque func(*ssa.Function) bool
	// hooks
	onOpaque  func(in *Interp, st *State, ev *Event) // may add facts about results
	stopAt    func(ev *Event) bool
	spawned   map[*Term]*Event
	set       map[*Term]bool // variables that are not nil
	steps     int
	maxSteps  int
	paths     int
	undecided []string
	frames    int
	evN       int
	loops     []*LoopRec
	entered   map[*ssa.Function]bool
	obligSeen int
	inGo      int
	noInline  bool
	discover  int
	side      []*State // ends of paths analysed on the side
}

type undecidedErr struct{ msg string }

func (in *Interp) giveUp(fr *Frame, pos token.Pos, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	where := ""
	if fr != nil {
		where = fr.fn.RelString(nil) + ": "
	}
	panic(undecidedErr{in.P.pos(pos) + ": " + where + msg})
}

func (in *Interp) event(st *State, fr *Frame, pos token.Pos, e Event) *Event {
	in.evN++
	e.N = in.evN
	e.Prev = st.ev
	e.Pos = pos
	e.Frame = fr
	if fr != nil {
		e.Fn = fr.fn
	}
	e.Thread = st.thread
	e.Held = st.held
	e.Snap = st.k.clone()
	n := &e
	st.ev = n
	return n
}

func (in *Interp) oblig(st *State, fr *Frame, pos token.Pos, kind string, ok bool, msg string) {
	if pos == token.NoPos {
		for f := fr; f != nil && pos == token.NoPos; f = f.caller {
			pos = f.callPos
		}
	}
	in.event(st, fr, pos, Event{Kind: EvOblig, Name: kind, OK: ok, Msg: msg})
}

// ---- memory ----

func (in *Interp) content(st *State, root *Term) *Term {
	if c, ok := st.mem[root]; ok {
		return c
	}
	if c, ok := in.P.initMem[root]; ok && !in.P.mutable[root] {
		return c
	}
	t := root.elemTyp()
	var c *Term
	if root.Op == OGlobal && in.P.inInit && root.Obj.(*ssa.Global).Pkg != nil && in.P.repoPkg[root.Obj.(*ssa.Global).Pkg] {
		c = zeroTerm(t)
	} else if g := root.globalRoot(); root.Op == OGlobal && (g.Pkg == nil || !in.P.repoPkg[g.Pkg]) {
		// variables of other packages are taken to be set once
		c = T.mk(Term{Op: OSym, Typ: t, Name: shortCall(root.Name), Src: root}, "foreign|"+root.Name)
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer:
			c.NonNil = true
		}
	} else if root.Op == OSym || root.Op == OData || root.Op == OField || root.Op == OPure || root.Op == OIndex {
		// never forgotten: the same contents whichever path reads them first
		c = T.mk(Term{Op: OSym, Typ: t, Name: rootName(root) + "#" + fmt.Sprint(root.ID), Src: root}, fmt.Sprintf("first|%d", root.ID))
	} else {
		c = freshSym(rootName(root), t)
		c.Src = root
		c.NonNil = in.set[root]
	}
	st.mem[root] = c
	return c
}

func rootName(r *Term) string {
	switch r.Op {
	case OGlobal:
		return r.Obj.(*ssa.Global).Name()
	case OSym:
		return "*" + r.Name
	case OData:
		return "data(" + r.Args[0].String() + ")"
	}
	return r.Name
}

// path splits an address into its root and the steps below it.
func addrPath(a *Term) (*Term, []*Term) {
	var p []*Term
	for a.Op == OFieldAddr || a.Op == OIndexAddr {
		p = append(p, a)
		a = a.Args[0]
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return a, p
}

func (in *Interp) load(st *State, addr *Term, t types.Type) *Term {
	root, path := addrPath(addr)
	c := in.content(st, root)
	for _, s := range path {
		if s.Op == OFieldAddr {
			c = mkField(c, int(s.Off), s.Typ)
		} else {
			c = readIdx(st.k, c, s.Args[1], s.Typ)
		}
	}
	return c
}

func (in *Interp) store(st *State, addr, val *Term) {
	root, path := addrPath(addr)
	st.mem[root] = update(st.k, in.content(st, root), path, val)
	if in.shared(root) {
		d := make(map[*Term]bool, len(st.dirty)+1)
		for k := range st.dirty {
			d[k] = true
		}
		d[root] = true
		st.dirty = d
	}
}

// shared: memory that other calls or goroutines can reach.
func (in *Interp) shared(root *Term) bool {
	switch root.Op {
	case OGlobal:
		return true
	case OAlloc:
		_, ok := in.P.initMem[root]
		return ok
	case OData:
		return in.shared(root.Args[0].root())
	}
	return root.Op != OAlloc
}

func update(k *Facts, c *Term, path []*Term, val *Term) *Term {
	if len(path) == 0 {
		return val
	}
	s := path[0]
	if s.Op == OFieldAddr {
		pt := s.Args[0].elemTyp()
		e := expand(c, pt)
		f := append([]*Term(nil), e.Args...)
		i := int(s.Off)
		f[i] = update(k, f[i], path[1:], val)
		return mkStruct(pt, f)
	}
	idx := s.Args[1]
	old := readIdx(k, c, idx, s.Typ)
	nv := update(k, old, path[1:], val)
	if nv == old {
		return c
	}
	return storeIdx(k, c, idx, nv)
}

func storeIdx(k *Facts, c, idx, nv *Term) *Term {
	if v, ok := constOf(k, idx); ok {
		if c.Typ != nil {
			if at, ok := c.Typ.Underlying().(*types.Array); ok && (c.Op == OZero || c.Op == OArray || c.Op == OSym) && at.Len() >= 0 && at.Len() <= maxArr && v >= 0 && v < at.Len() {
				e := expandArr(c, c.Typ)
				f := append([]*Term(nil), e.Args...)
				f[v] = nv
				return mkArray(c.Typ, f)
			}
		}
		idx = mkInt(v, nil)
	}
	return T.mk(Term{Op: OPure, Name: "upd", Typ: c.Typ, Args: []*Term{c, idx, nv}}, "upd")
}

func constOf(k *Facts, t *Term) (int64, bool) {
	if v, ok := t.intConst(); ok {
		return v, true
	}
	lo, hi := k.z.rng(t)
	if lo == hi {
		return lo, true
	}
	return 0, false
}

// readIdx reads element i of a content term.
func readIdx(k *Facts, c, i *Term, t types.Type) *Term {
	if v, ok := constOf(k, i); ok {
		j := mkInt(v, nil)
		if i != j && isInteger(t) && c.Op != OPure && c.Op != OAppend {
			// what is known of the element under its other name
			if a, b := mkIndex(c, i, t), mkIndex(c, j, t); a != b {
				k.z.add(a, b, 0)
				k.z.add(b, a, 0)
			}
		}
		if i == j && isInteger(t) && c.Op == OSym {
			// or of an index that has become this constant
			for _, q := range k.z.cons {
				for _, a := range []*Term{q.a, q.b} {
					if a != nil && a.Op == OIndex && a.Args[0] == c && a.Args[1] != j {
						if w, ok := constOf(k, a.Args[1]); ok && w == v {
							b := mkIndex(c, j, t)
							k.z.add(a, b, 0)
							k.z.add(b, a, 0)
						}
					}
				}
			}
		}
		i = j
	}
	for {
		if c.Op == OPure && c.Name == "upd" {
			if eqInt(k, c.Args[1], i) {
				return c.Args[2]
			}
			if k.z.neq(c.Args[1], i) {
				c = c.Args[0]
				continue
			}
		}
		if c.Op == OPure && c.Name == "cpy" { // content, off, srccontent, srcoff, n
			off, src, so, n := c.Args[1], c.Args[2], c.Args[3], c.Args[4]
			if k.z.leq(i, off, -1) || ltSum(k, off, n, i) {
				c = c.Args[0]
				continue
			}
			if k.z.leq(off, i, 0) && ltIn(k, i, off, n) {
				c, i = src, addInt(k, subInt(k, i, off), so)
				continue
			}
		}
		if c.Op == OAppend { // c1, n1, c2, off2, n2
			if k.z.leq(i, c.Args[1], -1) {
				c = c.Args[0]
				continue
			}
			if k.z.leq(c.Args[1], i, 0) {
				i = addInt(k, subInt(k, i, c.Args[1]), c.Args[3])
				c = c.Args[2]
				continue
			}
		}
		if c.Op == OPure && c.Name == "sub" { // content, off: shifted view
			i = addInt(k, i, c.Args[1])
			c = c.Args[0]
			continue
		}
		break
	}
	return mkIndex(c, i, t)
}

func eqInt(k *Facts, a, b *Term) bool {
	return a == b || k.z.leq(a, b, 0) && k.z.leq(b, a, 0)
}

// ltSum: off+n <= i
func ltSum(k *Facts, off, n, i *Term) bool {
	s := addInt(k, off, n)
	return k.z.leq(s, i, 0)
}

// ltIn: i < off+n
func ltIn(k *Facts, i, off, n *Term) bool {
	s := addInt(k, off, n)
	return k.z.leq(i, s, -1)
}

// addInt / subInt build exact mathematical sums of index terms.
func addInt(k *Facts, a, b *Term) *Term { return linSum(k, a, b, 1) }

func subInt(k *Facts, a, b *Term) *Term { return linSum(k, a, b, -1) }

// linParts writes an integer as a linear sum.
func linParts(t *Term, f int64, m map[*Term]int64, c *int64, d int) {
	base, off := t.lin()
	*c += f * off
	if base == nil {
		return
	}
	if b, ok := base.Typ.(*types.Basic); ok && b.Kind() == types.Int && d < 6 {
		switch {
		case base.Op == OBin && (base.Tok == token.ADD || base.Tok == token.SUB):
			g := f
			if base.Tok == token.SUB {
				g = -f
			}
			linParts(base.Args[0], f, m, c, d+1)
			linParts(base.Args[1], g, m, c, d+1)
			return
		case base.Op == OUn && base.Tok == token.SUB:
			linParts(base.Args[0], -f, m, c, d+1)
			return
		}
	}
	if m[base] += f; m[base] == 0 {
		delete(m, base)
	}
}

// linSum is a + f*b, as simple as can be.
func linSum(k *Facts, a, b *Term, f int64) *Term {
	it := types.Typ[types.Int]
	m := map[*Term]int64{}
	c := int64(0)
	linParts(a, 1, m, &c, 0)
	linParts(b, f, m, &c, 0)
	var pos, neg []*Term
	simple := true
	for t, n := range m {
		switch n {
		case 1:
			pos = append(pos, t)
		case -1:
			neg = append(neg, t)
		default:
			simple = false
		}
	}
	sum := func(x, y *Term) *Term {
		if x.ID > y.ID {
			x, y = y, x
		}
		l1, h1 := k.z.rng(x)
		l2, h2 := k.z.rng(y)
		r := T.mk(Term{Op: OBin, Tok: token.ADD, Args: []*Term{x, y}, Typ: it}, "+|int")
		if u := satAdd(h1, h2); u < inf {
			k.z.add(r, nil, u)
		}
		if l := satAdd(l1, l2); l > ninf {
			k.z.add(nil, r, -l)
		}
		return mkLin(r, c, it)
	}
	diff := func(x, y *Term) *Term {
		u := k.z.upper(x, y)
		l := k.z.upper(y, x)
		lo := ninf
		if l < inf {
			lo = -l
		}
		r := T.mk(Term{Op: OBin, Tok: token.SUB, Args: []*Term{x, y}, Typ: it}, "-|int")
		if u < inf {
			k.z.add(r, nil, u)
		}
		if lo > ninf {
			k.z.add(nil, r, -lo)
		}
		return mkLin(r, c, it)
	}
	minus := func(x *Term) *Term {
		l, h := k.z.rng(x)
		return mkLin(mkRanged(OUn, token.SUB, []*Term{x}, it, satNeg(h), satNeg(l)), c, it)
	}
	if simple {
		switch {
		case len(pos)+len(neg) == 0:
			return mkInt(c, it)
		case len(pos) == 1 && len(neg) == 0:
			return mkLin(pos[0], c, it)
		case len(pos) == 0 && len(neg) == 1:
			return minus(neg[0])
		case len(pos) == 2 && len(neg) == 0:
			return sum(pos[0], pos[1])
		case len(pos) == 1 && len(neg) == 1:
			return diff(pos[0], neg[0])
		}
	}
	ba, oa := a.lin()
	bb, ob := b.lin()
	c = oa + f*ob
	switch {
	case bb == nil:
		return mkLin(ba, c, it)
	case ba == nil && f == 1:
		return mkLin(bb, c, it)
	case ba == nil:
		return minus(bb)
	case f == 1:
		return sum(ba, bb)
	}
	return diff(ba, bb)
}

func satNeg(a int64) int64 {
	if a >= inf {
		return ninf
	}
	if a <= ninf {
		return inf
	}
	return -a
}

func mkRanged(op Op, tok token.Token, args []*Term, t types.Type, lo, hi int64) *Term {
	key := fmt.Sprintf("%s|%s|%d|%d", tok, typeKey(t), lo, hi)
	return T.mk(Term{Op: op, Tok: tok, Args: args, Typ: t, lo: lo, hi: hi, ranged: true}, key)
}

// ---- values ----

func (in *Interp) get(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Builtin:
		return mkPure("builtin:"+v.Name(), v.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	in.giveUp(fr, v.Pos(), "value %s (%T) not available", v.Name(), v)
	return nil
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	v := c.Value
	if isFloat(c.Type()) {
		v = roundFloat(constant.ToFloat(v), c.Type())
	}
	return mkConst(v, c.Type())
}

func roundFloat(v constant.Value, t types.Type) constant.Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		f, _ := constant.Float32Val(v)
		return constant.MakeFloat64(float64(f))
	}
	f, _ := constant.Float64Val(v)
	return constant.MakeFloat64(f)
}

// ---- running ----

type callCtx struct {
	pos  token.Pos
	sig  *types.Signature
	from *Frame
}

// callFn enters a function and returns the ways it ends.
func (in *Interp) callFn(st *State, caller *Frame, fn *ssa.Function, args, bind []*Term, pos token.Pos) []Outcome {
	if len(fn.Blocks) == 0 {
		in.giveUp(caller, pos, "no body for %s", fn)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 60 {
		in.giveUp(caller, pos, "call depth limit at %s", fn)
	}
	n := 0
	for f := caller; f != nil; f = f.caller {
		if f.fn == fn {
			n++
		}
	}
	if n >= 3 {
		in.giveUp(caller, pos, "recursion in %s", fn)
	}
	in.frames++
	if in.entered != nil {
		in.entered[fn] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, caller: caller, callPos: pos, depth: depth, id: in.frames, unroll: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		in.giveUp(caller, pos, "call of %s with %d arguments", fn, len(args))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	if fn.Synthetic == "" {
		ev := in.event(st, fr, pos, Event{Kind: EvEnter, Name: fnName(fn), Callee: fn, Args: args})
		if codecShape(fn) {
			ev.Cont = in.bytesOf(st, args[0])
		}
	}
	outs := in.run(st, fr, fn.Blocks[0], 0)
	return in.unwind(fr, outs)
}

// unwind runs the deferred calls of panicking ends of a frame.
func (in *Interp) unwind(fr *Frame, outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if o.Kind != KPanic || o.Frame == nil || o.Frame.id != fr.id || len(o.Frame.defers) == 0 {
			res = append(res, o)
			continue
		}
		f := o.Frame
		st := o.St
		for _, r := range in.runDefers(st, f, true) {
			if r.out != nil {
				res = append(res, *r.out)
				continue
			}
			if r.st.recovered {
				r.st.recovered = false
				r.st.panicking = nil
				if fr.fn.Recover != nil {
					nf := f.clone()
					nf.defers = nil
					nf.active = nil
					res = append(res, in.run(r.st, nf, fr.fn.Recover, 0)...)
				} else {
					res = append(res, Outcome{Kind: KRet, St: r.st, Ret: zeroResults(fr.fn.Signature)})
				}
				continue
			}
			o2 := o
			o2.St = r.st
			o2.Frame = nil
			res = append(res, o2)
		}
	}
	return res
}

func zeroResults(sig *types.Signature) *Term {
	if sig.Results().Len() == 1 {
		return zeroTerm(sig.Results().At(0).Type())
	}
	return zeroTerm(sig.Results())
}

// runDefers executes the pending deferred calls, last first.
func (in *Interp) runDefers(st *State, fr *Frame, panicking bool) []alt {
	cur := []alt{{st: st}}
	ds := fr.defers
	fr.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []alt
		for _, a := range cur {
			if a.out != nil {
				next = append(next, a)
				continue
			}
			if panicking && a.st.panicking == nil {
				a.st.panicking = freshSym("panic", types.NewInterfaceType(nil, nil))
				a.st.panicking.NonNil = true
			}
			next = append(next, in.call(a.st, fr, d.instr.Pos(), d.instr.Common(), d.fn, d.args, d.inv)...)
		}
		cur = next
	}
	return cur
}

func (in *Interp) run(st *State, fr *Frame, blk *ssa.BasicBlock, idx int) []Outcome {
	for {
		if idx >= len(blk.Instrs) {
			in.giveUp(fr, token.NoPos, "fell off block")
		}
		in.steps++
		if in.steps > in.maxSteps {
			in.giveUp(fr, blk.Instrs[idx].Pos(), "analysis budget of %d steps exhausted", in.maxSteps)
		}
		if in.steps&0xfff == 0 {
			if why := exhausted(); why != "" {
				in.giveUp(fr, blk.Instrs[idx].Pos(), "%s", why)
			}
		}
		instr := blk.Instrs[idx]
		switch i := instr.(type) {
		case *ssa.Jump:
			return in.enter(st, fr, blk, blk.Succs[0])
		case *ssa.If:
			c := st.k.decide(in.get(fr, i.Cond))
			if v, ok := c.boolConst(); ok {
				if v {
					return in.enter(st, fr, blk, blk.Succs[0])
				}
				return in.enter(st, fr, blk, blk.Succs[1])
			}
			var res []Outcome
			s1, f1 := st.clone(), fr.clone()
			if s1.k.assume(c, true) {
				res = append(res, in.enter(s1, f1, blk, blk.Succs[0])...)
			}
			if st.k.assume(c, false) {
				res = append(res, in.enter(st, fr, blk, blk.Succs[1])...)
			}
			in.paths++
			return res
		case *ssa.Return:
			var r *Term
			if len(i.Results) == 1 {
				r = in.get(fr, i.Results[0])
			} else {
				var a []*Term
				for _, x := range i.Results {
					a = append(a, in.get(fr, x))
				}
				r = mkTuple(a)
			}
			if fr.fn.Synthetic == "" {
				ev := in.event(st, fr, i.Pos(), Event{Kind: EvReturn, Name: fnName(fr.fn), Callee: fr.fn, Res: r})
				if codecShape(fr.fn) {
					ev.Cont = in.bytesOf(st, r)
				}
			}
			return []Outcome{{Kind: KRet, St: st, Ret: r}}
		case *ssa.Panic:
			in.oblig(st, fr, i.Pos(), "panic", false, "explicit panic is reachable")
			return []Outcome{{Kind: KPanic, St: st, Frame: fr, Why: "explicit panic"}}
		}
		alts := in.step(st, fr, instr)
		if len(alts) == 1 && alts[0].out == nil {
			st = alts[0].st
			if v, ok := instr.(ssa.Value); ok && alts[0].val != nil {
				fr.env[v] = alts[0].val
			}
			idx++
			continue
		}
		var res []Outcome
		n := 0
		for _, a := range alts {
			if a.out == nil {
				n++
			}
		}
		for _, a := range alts {
			if a.out != nil {
				o := *a.out
				if o.Kind == KPanic && o.Frame == nil {
					o.Frame = fr
					if n > 0 || len(alts) > 1 {
						o.Frame = fr.clone()
					}
				}
				res = append(res, o)
			}
		}
		for _, a := range alts {
			if a.out != nil {
				continue
			}
			f := fr
			if n > 1 {
				f = fr.clone()
			}
			n--
			if v, ok := instr.(ssa.Value); ok && a.val != nil {
				f.env[v] = a.val
			}
			res = append(res, in.run(a.st, f, blk, idx+1)...)
		}
		return res
	}
}

func one(st *State, v *Term) []alt { return []alt{{st: st, val: v}} }

func (in *Interp) step(st *State, fr *Frame, instr ssa.Instruction) []alt {
	switch i := instr.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Phi:
		in.giveUp(fr, i.Pos(), "phi outside block entry")
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		name := i.Comment
		if name == "" {
			name = "new"
		}
		a := freshAlloc(name, t, i)
		st.mem[a] = zeroTerm(t)
		return one(st, a)
	case *ssa.BinOp:
		return in.binop(st, fr, i)
	case *ssa.UnOp:
		return in.unop(st, fr, i)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var x ssa.Value
		if c, ok := i.(*ssa.ChangeType); ok {
			x = c.X
		} else {
			x = i.(*ssa.ChangeInterface).X
		}
		return one(st, in.get(fr, x))
	case *ssa.Convert:
		return in.convertSplit(st, fr, i.Pos(), in.get(fr, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		return in.convertSplit(st, fr, i.Pos(), in.get(fr, i.X), i.X.Type(), i.Type())
	case *ssa.MakeInterface:
		x := in.get(fr, i.X)
		return one(st, mkIface(i.X.Type(), x))
	case *ssa.MakeClosure:
		var b []*Term
		for _, x := range i.Bindings {
			b = append(b, in.get(fr, x))
		}
		return one(st, mkClosure(i.Fn.(*ssa.Function), b))
	case *ssa.MakeMap:
		a := freshAlloc("map", i.Type(), i)
		st.mem[a] = mkPure("map", nil)
		return one(st, a)
	case *ssa.MakeChan:
		a := freshAlloc("chan", i.Type(), i)
		st.chans[a] = &chanState{cap: in.get(fr, i.Size)}
		return one(st, a)
	case *ssa.MakeSlice:
		ln := in.get(fr, i.Len)
		cp := in.get(fr, i.Cap)
		in.oblig(st, fr, i.Pos(), "makeslice", st.k.z.leq(mkInt(0, nil), ln, 0) && st.k.z.leq(ln, cp, 0), fmt.Sprintf("make with length %s, capacity %s", ln, cp))
		return one(st, in.newSlice(st, i.Type(), ln, cp, "make"))
	case *ssa.Slice:
		return one(st, in.slice(st, fr, i))
	case *ssa.SliceToArrayPointer:
		x := in.get(fr, i.X)
		at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		b, off, ln, _ := sliceParts(st.k, x)
		in.oblig(st, fr, i.Pos(), "slice", st.k.z.leq(mkInt(at.Len(), nil), ln, 0), "slice to array conversion")
		if v, ok := off.intConst(); ok && v == 0 && b.Op != OData {
			return one(st, b)
		}
		a := freshAlloc("arr", at, i)
		var f []*Term
		for j := int64(0); j < at.Len() && j < maxArr; j++ {
			f = append(f, readIdx(st.k, in.content(st, b), addInt(st.k, off, mkInt(j, nil)), at.Elem()))
		}
		st.mem[a] = mkArray(at, f)
		return one(st, a)
	case *ssa.FieldAddr:
		x := in.get(fr, i.X)
		pt := i.X.Type().Underlying().(*types.Pointer).Elem()
		in.nilCheck(st, fr, i.Pos(), x, "field of nil pointer")
		ft := structOf(pt).Field(i.Field).Type()
		if x.Op == OSym && x.Typ == nil {
			x.Typ = i.X.Type()
		}
		return one(st, mkFieldAddr(x, i.Field, ft))
	case *ssa.Field:
		x := in.get(fr, i.X)
		return one(st, mkField(x, i.Field, i.Type()))
	case *ssa.IndexAddr:
		x := in.get(fr, i.X)
		idx := in.get(fr, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			in.nilCheck(st, fr, i.Pos(), x, "index of nil array pointer")
			return in.withIndex(st, fr, i.Pos(), idx, mkInt(at.Len(), nil), func(ix *Term) *Term { return mkIndexAddr(x, ix, at.Elem()) })
		case *types.Slice:
			b, off, ln, _ := sliceParts(st.k, x)
			return in.withIndex(st, fr, i.Pos(), idx, ln, func(ix *Term) *Term { return mkIndexAddr(b, addInt(st.k, off, ix), u.Elem()) })
		}
	case *ssa.Index:
		x := in.get(fr, i.X)
		idx := in.get(fr, i.Index)
		if at, ok := i.X.Type().Underlying().(*types.Array); ok {
			res := in.withIndex(st, fr, i.Pos(), idx, mkInt(at.Len(), nil), func(ix *Term) *Term { return readIdx(st.k, x, ix, i.Type()) })
			if len(res) == 1 && res[0].out == nil {
				return tabled(res[0].st, res[0].val)
			}
			return res
		}
		return in.withIndex(st, fr, i.Pos(), idx, in.length(st, x), func(ix *Term) *Term { return readIdx(st.k, x, ix, i.Type()) })
	case *ssa.Lookup:
		return in.lookup(st, fr, i)
	case *ssa.Range:
		it := mkPure("range", nil, in.get(fr, i.X), freshSym("range", nil))
		return in.startRange(st, it)
	case *ssa.Next:
		return in.next(st, fr, i)
	case *ssa.TypeAssert:
		return in.typeAssert(st, fr, i)
	case *ssa.Extract:
		tup := in.get(fr, i.Tuple)
		if tup.Op == OTuple {
			return one(st, tup.Args[i.Index])
		}
		return one(st, mkField(tup, i.Index, i.Type()))
	case *ssa.Store:
		a := in.get(fr, i.Addr)
		v := in.get(fr, i.Val)
		in.nilCheck(st, fr, i.Pos(), a, "store to nil pointer")
		in.doStore(st, fr, i.Pos(), a, v)
		return one(st, nil)
	case *ssa.MapUpdate:
		m := in.get(fr, i.Map)
		in.mapUpdate(st, fr, i.Pos(), m, in.get(fr, i.Key), in.get(fr, i.Value))
		return one(st, nil)
	case *ssa.Send:
		return in.send(st, fr, i.Pos(), in.get(fr, i.Chan), in.get(fr, i.X))
	case *ssa.Select:
		return in.sel(st, fr, i)
	case *ssa.RunDefers:
		var res []alt
		res = append(res, in.runDefers(st, fr, false)...)
		return res
	case *ssa.Defer:
		c := i.Common()
		fn, args, inv := in.callee(st, fr, c)
		fr.defers = append(fr.defers, deferred{i, fn, args, inv})
		return one(st, nil)
	case *ssa.Go:
		return in.goStmt(st, fr, i)
	case *ssa.Call:
		c := i.Common()
		fn, args, inv := in.callee(st, fr, c)
		return in.call(st, fr, i.Pos(), c, fn, args, inv)
	}
	in.giveUp(fr, instr.Pos(), "unsupported instruction %T", instr)
	return nil
}

func (in *Interp) doStore(st *State, fr *Frame, pos token.Pos, a, v *Term) {
	root := a.root()
	if in.shared(root) || st.pub[root] != nil {
		in.event(st, fr, pos, Event{Kind: EvStore, Addr: a, Val: v, Recv: st.pub[root]})
		if !in.P.inInit {
			in.publish(st, a, v)
		}
	}
	in.store(st, a, v)
}

// publish notes the local objects a stored value makes reachable for others.
func (in *Interp) publish(st *State, at, v *Term) {
	var w func(x *Term, d int)
	w = func(x *Term, d int) {
		if x == nil || d > 6 {
			return
		}
		switch x.Op {
		case OAlloc, OFieldAddr, OIndexAddr:
			r := x.root()
			if r.Op != OAlloc || in.shared(r) || st.pub[r] != nil {
				return
			}
			n := make(map[*Term]*Term, len(st.pub)+1)
			for k, a := range st.pub {
				n[k] = a
			}
			n[r] = at
			st.pub = n
			if c, ok := st.mem[r]; ok {
				w(c, d+1)
			}
		case OStruct, OArray, OTuple, OIface, OSlice, OClosure:
			for _, a := range x.Args {
				w(a, d+1)
			}
		}
	}
	w(v, 0)
}

func (in *Interp) nilCheck(st *State, fr *Frame, pos token.Pos, p *Term, what string) {
	if p.NonNil {
		return
	}
	ok := st.k.nonNil(p)
	in.oblig(st, fr, pos, "nil", ok, what+" ("+p.String()+")")
	if !ok && !p.isNil() {
		st.k.assume(mkCmp(token.EQL, mkNil(nil), p), false)
	}
}

func (in *Interp) withIndex(st *State, fr *Frame, pos token.Pos, idx, ln *Term, f func(*Term) *Term) []alt {
	ok := st.k.z.leq(mkInt(0, nil), idx, 0) && st.k.z.leq(idx, ln, -1)
	in.oblig(st, fr, pos, "index", ok, fmt.Sprintf("index %s of length %s", idx, ln))
	if !ok {
		st.k.assume(st.k.cmp(token.LSS, idx, mkInt(0, nil), types.Typ[types.Int]), false)
		if !st.k.assume(st.k.cmp(token.LSS, idx, ln, types.Typ[types.Int]), true) {
			return []alt{{out: &Outcome{Kind: KPanic, St: st, Why: "index out of range"}}}
		}
	}
	return one(st, f(idx))
}

// sliceParts gives backing store, offset, length and capacity of a slice.
func sliceParts(k *Facts, s *Term) (base, off, ln, cp *Term) {
	if s.Op == OSlice {
		return s.Args[0], s.Args[1], s.Args[2], s.Args[3]
	}
	zero := mkInt(0, nil)
	if s.isNil() {
		return mkData(s, nil), zero, zero, zero
	}
	var et types.Type
	if sl, ok := s.Typ.Underlying().(*types.Slice); ok {
		et = types.NewArray(sl.Elem(), -1)
	}
	l := mkLen(s)
	c := T.mk(Term{Op: OCap, Args: []*Term{s}, Typ: types.Typ[types.Int]}, "cap")
	k.z.add(l, c, 0)
	return mkData(s, et), zero, l, c
}

func mkLen(s *Term) *Term {
	return T.mk(Term{Op: OLen, Args: []*Term{s}, Typ: types.Typ[types.Int]}, "len")
}

func (in *Interp) length(st *State, x *Term) *Term {
	switch x.Op {
	case OSlice:
		return x.Args[2]
	case OConst:
		if x.C == nil {
			return mkInt(0, types.Typ[types.Int])
		}
		if x.C.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(x.C))), types.Typ[types.Int])
		}
	case OPure:
		if x.Name == "bytes2str" {
			return x.Args[2]
		}
	case OAlloc:
		if c, ok := st.chans[x]; ok {
			_ = c
			return freshSym("chanlen", types.Typ[types.Int])
		}
		if m, ok := st.mem[x]; ok && m.Op == OPure && m.Name == "map" {
			return mkInt(int64(len(m.Args)/2), types.Typ[types.Int])
		}
	}
	return mkLen(x)
}

func (in *Interp) newSlice(st *State, t types.Type, ln, cp *Term, name string) *Term {
	el := t.Underlying().(*types.Slice).Elem()
	n := int64(-1)
	if v, ok := constOf(st.k, cp); ok && v >= 0 && v <= maxArr {
		n = v
	}
	at := types.NewArray(el, n)
	a := freshAlloc(name, at, nil)
	st.mem[a] = T.mk(Term{Op: OZero, Typ: at}, typeKey(at)+fmt.Sprint(n))
	if v, ok := constOf(st.k, ln); ok {
		ln = mkInt(v, types.Typ[types.Int])
	}
	return mkSlice(a, mkInt(0, nil), ln, cp, t)
}

func (in *Interp) slice(st *State, fr *Frame, i *ssa.Slice) *Term {
	x := in.get(fr, i.X)
	zero := mkInt(0, nil)
	lo := zero
	if i.Low != nil {
		lo = in.get(fr, i.Low)
	}
	var hi, mx *Term
	if i.High != nil {
		hi = in.get(fr, i.High)
	}
	if i.Max != nil {
		mx = in.get(fr, i.Max)
	}
	k := st.k
	check := func(lo, hi, cp *Term) {
		ok := k.z.leq(zero, lo, 0) && k.z.leq(lo, hi, 0) && k.z.leq(hi, cp, 0)
		in.oblig(st, fr, i.Pos(), "slice", ok, fmt.Sprintf("slice [%s:%s] of capacity %s", lo, hi, cp))
		if !ok {
			it := types.Typ[types.Int]
			k.assume(k.cmp(token.LSS, lo, zero, it), false)
			k.assume(k.cmp(token.LSS, hi, lo, it), false)
			k.assume(k.cmp(token.LSS, cp, hi, it), false)
		}
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		ln := in.length(st, x)
		if hi == nil {
			hi = ln
		}
		check(lo, hi, ln)
		if s, ok := x.strConst(); ok {
			if a, ok := lo.intConst(); ok {
				if b, ok := hi.intConst(); ok && a >= 0 && a <= b && b <= int64(len(s)) {
					return mkStr(s[a:b])
				}
			}
		}
		if x.Op == OPure && x.Name == "bytes2str" {
			return mkPure("bytes2str", i.Type(), x.Args[0], addInt(k, x.Args[1], lo), subInt(k, hi, lo))
		}
		return mkPure("substr", i.Type(), x, lo, hi)
	case *types.Pointer: // array
		in.nilCheck(st, fr, i.Pos(), x, "slice of nil array pointer")
		at := u.Elem().Underlying().(*types.Array)
		n := mkInt(at.Len(), types.Typ[types.Int])
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		check(lo, hi, cp)
		return mkSlice(x, lo, subInt(k, hi, lo), subInt(k, cp, lo), i.Type())
	default:
		b, off, ln, cp := sliceParts(k, x)
		if hi == nil {
			hi = ln
		}
		if mx != nil {
			cp = mx
		}
		if k.z.leq(hi, ln, 0) && mx == nil {
			check(lo, hi, ln)
		} else {
			check(lo, hi, cp)
		}
		if x.isNil() {
			return x
		}
		return mkSlice(b, addInt(k, off, lo), subInt(k, hi, lo), subInt(k, cp, lo), i.Type())
	}
}

// ---- operators ----

func (in *Interp) binop(st *State, fr *Frame, i *ssa.BinOp) []alt {
	x, y := in.get(fr, i.X), in.get(fr, i.Y)
	t := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if i.Op == token.EQL || i.Op == token.NEQ {
			if _, ok := i.X.Type().Underlying().(*types.Interface); ok && x.Op != OIface && !x.isNil() {
				// mixed comparison of interface and concrete value is converted by go/ssa
				_ = ok
			}
			if isAggregate(t) {
				return in.structEq(st, i.Op, x, y, t)
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				_ = sl
				a := x
				if a.isNil() {
					a = y
				}
				if a.Op == OSlice {
					return one(st, mkBool(i.Op == token.NEQ))
				}
			}
		}
		return one(st, st.k.cmp(i.Op, x, y, t))
	}
	rt := i.Type()
	if isFloat(rt) {
		return one(st, floatOp(st.k, i.Op, x, y, rt))
	}
	if isString(rt) {
		a, ok1 := x.strConst()
		b, ok2 := y.strConst()
		if ok1 && ok2 {
			return one(st, mkStr(a+b))
		}
		return one(st, mkPure("concat", rt, x, y))
	}
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		switch i.Op {
		case token.AND, token.OR, token.XOR:
		}
		return one(st, mkPure("bool"+i.Op.String(), rt, x, y))
	}
	if !isInteger(rt) {
		return one(st, mkPure("op"+i.Op.String(), rt, x, y))
	}
	return in.intOp(st, fr, i.Pos(), i.Op, x, y, rt)
}

func structFields(t types.Type) []*types.Var {
	s := structOf(t)
	if s == nil {
		return nil
	}
	var r []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return r
}

// eqParts splits two values into the parts that decide whether they are equal:
// the fields of structs and the elements of short arrays.
func eqParts(x, y *Term, t types.Type, out []eqPart) []eqPart {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for j := 0; j < u.NumFields(); j++ {
			ft := u.Field(j).Type()
			out = eqParts(mkField(x, j, ft), mkField(y, j, ft), ft, out)
		}
		return out
	case *types.Array:
		if u.Len() <= maxArr {
			ex, ey := expandArr(x, t), expandArr(y, t)
			for j := range ex.Args {
				out = eqParts(ex.Args[j], ey.Args[j], u.Elem(), out)
			}
			return out
		}
	}
	return append(out, eqPart{x, y, t})
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type eqPart struct {
	x, y *Term
	t    types.Type
}

func (in *Interp) structEq(st *State, op token.Token, x, y *Term, t types.Type) []alt {
	all := true
	var open []*Term // the parts that decide
	plain := true
	for _, p := range eqParts(x, y, t, nil) {
		e := st.k.cmp(token.EQL, p.x, p.y, p.t)
		if v, ok := e.boolConst(); ok {
			if !v {
				return one(st, mkBool(op == token.NEQ))
			}
			continue
		}
		if _, ok := p.t.Underlying().(*types.Basic); !ok {
			plain = false
		}
		open = append(open, e)
		all = false
	}
	if all {
		return one(st, mkBool(op == token.EQL))
	}
	if plain && len(open) <= 8 {
		var as []alt
		for _, e := range open {
			no := st.clone()
			if no.k.assume(e, false) {
				as = append(as, alt{st: no, val: mkBool(op == token.NEQ)})
			}
			if !st.k.assume(e, true) {
				return as
			}
		}
		return append(as, alt{st: st, val: mkBool(op == token.EQL)})
	}
	r := mkCmp(token.EQL, x, y)
	if op == token.NEQ {
		r = mkNot(r)
	}
	return one(st, r)
}

func floatOp(k *Facts, op token.Token, x, y *Term, t types.Type) *Term {
	if x.Op == OConst && y.Op == OConst && x.C != nil && y.C != nil {
		if op != token.QUO || constant.Sign(y.C) != 0 {
			v := constant.BinaryOp(constant.ToFloat(x.C), op, constant.ToFloat(y.C))
			return mkConst(roundFloat(v, t), t)
		}
	}
	ix, ok1 := intView(x)
	iy, ok2 := intView(y)
	if ok1 && ok2 {
		lim := int64(1) << 24
		if b := t.Underlying().(*types.Basic); b.Kind() != types.Float32 {
			lim = 1 << 53
		}
		var r *Term
		switch op {
		case token.ADD:
			r = addInt(k, ix, iy)
		case token.SUB:
			r = subInt(k, ix, iy)
		case token.MUL:
			r = mulInt(k, ix, iy)
		}
		if r != nil {
			lo, hi := k.z.rng(r)
			if lo >= -lim && hi <= lim {
				return mkI2F(r, t, true)
			}
		}
	}
	if (op == token.ADD || op == token.MUL) && x.ID > y.ID {
		x, y = y, x
	}
	return T.mk(Term{Op: OBin, Tok: op, Args: []*Term{x, y}, Typ: t}, op.String()+"|"+typeKey(t))
}

func mkI2F(i *Term, t types.Type, exact bool) *Term {
	if v, ok := i.intConst(); ok {
		return mkConst(constant.ToFloat(constant.MakeInt64(v)), t)
	}
	n := "inexact"
	if exact {
		n = "exact"
	}
	return T.mk(Term{Op: OConv, Name: n, Args: []*Term{i}, Typ: t}, n+"|"+typeKey(t.Underlying()))
}

// mulInt is the exact product of integer terms, distributing constants.
func mulInt(k *Facts, x, y *Term) *Term {
	it := types.Typ[types.Int]
	if _, ok := x.intConst(); ok {
		x, y = y, x
	}
	c, ok := y.intConst()
	if !ok {
		l1, h1 := k.z.rng(x)
		l2, h2 := k.z.rng(y)
		lo, hi := mulRange(l1, h1, l2, h2)
		if x.ID > y.ID {
			x, y = y, x
		}
		return mkRanged(OBin, token.MUL, []*Term{x, y}, it, lo, hi)
	}
	if v, ok := x.intConst(); ok {
		return mkInt(v*c, it)
	}
	if c == 0 {
		return mkInt(0, it)
	}
	if c == 1 {
		return x
	}
	b, off := x.lin()
	if b.Op == OBin && b.Tok == token.MUL {
		if d, ok := b.Args[1].intConst(); ok {
			b, c = b.Args[0], c*d
			l, h := k.z.rng(b)
			lo, hi := mulRange(l, h, c, c)
			return mkLin(mkRanged(OBin, token.MUL, []*Term{b, mkInt(c, it)}, it, lo, hi), off*(c/d), it)
		}
	}
	l, h := k.z.rng(b)
	lo, hi := mulRange(l, h, c, c)
	return mkLin(mkRanged(OBin, token.MUL, []*Term{b, mkInt(c, it)}, it, lo, hi), off*c, it)
}

func mulRange(l1, h1, l2, h2 int64) (int64, int64) {
	m := func(a, b int64) int64 {
		if a == 0 || b == 0 {
			return 0
		}
		r := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
		if r.Cmp(big.NewInt(inf)) >= 0 {
			return inf
		}
		if r.Cmp(big.NewInt(ninf)) <= 0 {
			return ninf
		}
		return r.Int64()
	}
	v := []int64{m(l1, l2), m(l1, h2), m(h1, l2), m(h1, h2)}
	lo, hi := v[0], v[0]
	for _, x := range v {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	return lo, hi
}

func wide(t types.Type) bool {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

func typeBits(t types.Type) uint {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (in *Interp) intOp(st *State, fr *Frame, pos token.Pos, op token.Token, x, y *Term, t types.Type) []alt {
	k := st.k
	if v, ok := constOf(k, x); ok {
		x = mkInt(v, t)
	}
	if v, ok := constOf(k, y); ok {
		y = mkInt(v, t)
	}
	vx, cx := x.intConst()
	vy, cy := y.intConst()
	tl, th := typeRange(t)
	if cx && cy {
		var r constant.Value
		a, b := x.C, y.C
		switch op {
		case token.QUO, token.REM:
			if vy == 0 {
				in.oblig(st, fr, pos, "div", false, "division by zero")
				return []alt{{out: &Outcome{Kind: KPanic, St: st, Why: "division by zero"}}}
			}
			o := op
			if op == token.QUO {
				o = token.QUO_ASSIGN
			}
			r = constant.BinaryOp(a, o, b)
		case token.SHL, token.SHR:
			if vy >= 0 && vy < 64 {
				r = constant.Shift(a, op, uint(vy))
			}
		case token.AND_NOT:
			r = constant.BinaryOp(a, op, b)
		default:
			r = constant.BinaryOp(a, op, b)
		}
		if r != nil {
			return one(st, mkConst(wrapConst(r, t), t))
		}
	}
	generic := func(lo, hi int64) *Term {
		if lo < tl {
			lo = tl
		}
		if hi > th {
			hi = th
		}
		a, b := x, y
		switch op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if a.ID > b.ID {
				a, b = b, a
			}
		}
		return mkRanged(OBin, op, []*Term{a, b}, t, lo, hi)
	}
	switch op {
	case token.ADD, token.SUB:
		var r *Term
		if op == token.ADD {
			r = addInt(k, x, y)
		} else {
			r = subInt(k, x, y)
		}
		lo, hi := k.z.rng(r)
		if lo >= tl && hi <= th && !(wide(t) && isUnsigned(t) && lo < 0) {
			return one(st, retype(r, t))
		}
		if wide(t) && !isUnsigned(t) {
			// 64-bit signed sums of lengths and counters do not wrap
			return one(st, retype(r, t))
		}
		if wide(t) {
			if cx || cy {
				if lo >= 0 {
					return one(st, retype(r, t))
				}
			}
			if op == token.ADD {
				return one(st, generic(ninf, inf))
			}
			return one(st, generic(ninf, inf))
		}
		if cx || cy || r.Op == OLin || r.Op == OConst {
			// split: exact or wrapped once
			bits := typeBits(t)
			mod := int64(1) << bits
			var res []alt
			rl, rlo := r.lin()
			add := func(d int64) {
				s := st.clone()
				v := mkLin(rl, rlo+d, t)
				it := types.Typ[types.Int]
				if !s.k.assume(s.k.cmp(token.LSS, v, mkInt(tl, nil), it), false) {
					return
				}
				if !s.k.assume(s.k.cmp(token.LSS, mkInt(th, nil), v, it), false) {
					return
				}
				if d != 0 {
					in.event(s, fr, pos, Event{Kind: EvWrap, Recv: r, Val: retype(v, t)})
				}
				res = append(res, alt{st: s, val: retype(v, t)})
			}
			if rl != nil {
				add(0)
				if hi > th {
					add(-mod)
				}
				if lo < tl {
					add(mod)
				}
				if len(res) > 0 {
					return res
				}
			}
		}
		return one(st, generic(tl, th))
	case token.MUL:
		r := mulInt(k, x, y)
		lo, hi := k.z.rng(r)
		if lo >= tl && hi <= th || wide(t) && !isUnsigned(t) {
			return one(st, retype(r, t))
		}
		return one(st, generic(tl, th))
	case token.QUO:
		lo, hi := k.z.rng(x)
		l2, h2 := k.z.rng(y)
		nz := l2 > 0 || h2 < 0 || k.z.neq(y, mkInt(0, nil))
		in.oblig(st, fr, pos, "div", nz, fmt.Sprintf("division by %s", y))
		if !nz {
			k.z.addNeq(lbase(y), nil, -loff(y))
			l2, h2 = k.z.rng(y)
		}
		if cy && vy == 1 {
			return one(st, x)
		}
		if l2 == 0 && nz {
			l2 = 1
		}
		if lo >= 0 && l2 > 0 {
			a, b := lo, hi
			if h2 < inf {
				a = lo / h2
			} else {
				a = 0
			}
			if b < inf {
				b = hi / l2
			}
			return one(st, mkRangedRel(k, op, x, y, t, a, b))
		}
		return one(st, generic(tl, th))
	case token.REM:
		lo, hi := k.z.rng(x)
		l2, h2 := k.z.rng(y)
		nz := l2 > 0 || h2 < 0 || k.z.neq(y, mkInt(0, nil))
		in.oblig(st, fr, pos, "div", nz, fmt.Sprintf("remainder by %s", y))
		if lo >= 0 && l2 > 0 {
			m := hi
			if h2 < inf && h2-1 < m {
				m = h2 - 1
			}
			if hi < l2 {
				return one(st, x)
			}
			return one(st, generic(0, m))
		}
		return one(st, generic(tl, th))
	case token.AND:
		if cx {
			x, y, vx, vy, cx, cy = y, x, vy, vx, cy, cx
		}
		if cy && vy >= 0 {
			lo, hi := k.z.rng(x)
			if isMask(vy) && lo >= 0 && hi <= vy {
				return one(st, x)
			}
			m := vy
			if lo >= 0 && hi < m {
				m = hi
			}
			return one(st, generic(0, m))
		}
		lo, hi := k.z.rng(x)
		_, hi2 := k.z.rng(y)
		if lo >= 0 {
			if hi2 < hi {
				hi = hi2
			}
			return one(st, generic(0, hi))
		}
		return one(st, generic(tl, th))
	case token.OR, token.XOR:
		if cy && vy == 0 {
			return one(st, x)
		}
		if cx && vx == 0 {
			return one(st, y)
		}
		lo, hi := k.z.rng(x)
		l2, h2 := k.z.rng(y)
		if lo >= 0 && l2 >= 0 && hi < 1<<40 && h2 < 1<<40 {
			m := int64(1)
			for m <= hi || m <= h2 {
				m <<= 1
			}
			l := int64(0)
			if op == token.OR {
				l = lo
				if l2 > l {
					l = l2
				}
			}
			return one(st, generic(l, m-1))
		}
		return one(st, generic(tl, th))
	case token.SHL:
		lo, hi := k.z.rng(x)
		if cy && vy >= 0 && vy < 40 && lo >= 0 && hi < inf {
			_, h := mulRange(lo, hi, 1<<uint(vy), 1<<uint(vy))
			if h <= th {
				return one(st, retype(mulInt(k, x, mkInt(1<<uint(vy), nil)), t))
			}
		}
		if l, _ := k.z.rng(y); l < 0 {
			in.oblig(st, fr, pos, "shift", false, "negative shift count")
		}
		return one(st, generic(tl, th))
	case token.SHR:
		lo, hi := k.z.rng(x)
		if l, _ := k.z.rng(y); l < 0 {
			in.oblig(st, fr, pos, "shift", false, "negative shift count")
		}
		if cy && vy >= 0 && vy < 62 && lo >= 0 {
			op2 := mkInt(1<<uint(vy), t)
			h := hi
			if h < inf {
				h = hi >> uint(vy)
			}
			return one(st, mkRangedRel(k, token.QUO, x, op2, t, lo>>uint(vy), h))
		}
		return one(st, generic(tl, th))
	}
	return one(st, generic(tl, th))
}

func lbase(t *Term) *Term { b, _ := t.lin(); return b }
func loff(t *Term) int64  { _, o := t.lin(); return o }

func isMask(v int64) bool { return v&(v+1) == 0 }

func mkRangedRel(k *Facts, op token.Token, x, y *Term, t types.Type, lo, hi int64) *Term {
	return mkRanged(OBin, op, []*Term{x, y}, t, lo, hi)
}

// retype keeps a term but makes sure constants and sums carry the type.
func retype(r *Term, t types.Type) *Term {
	return r
}

func wrapConst(c constant.Value, t types.Type) constant.Value {
	v, ok := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
	if !ok {
		return c
	}
	bits := typeBits(t)
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	v.Mod(v, m)
	if !isUnsigned(t) && v.Bit(int(bits)-1) == 1 {
		v.Sub(v, m)
	}
	return constant.MakeFromLiteral(v.String(), token.INT, 0)
}

// tabled resolves a symbolic index into a short known table, or a part of such
// an entry: one alternative per entry.
func tabled(st *State, v *Term) []alt {
	at := v
	for (at.Op == OField || at.Op == OIndex) && !(at.Op == OIndex && at.Args[0].Op == OArray) {
		at = at.Args[0]
	}
	if at.Op != OIndex {
		return one(st, v)
	}
	arr, idx := at.Args[0], at.Args[1]
	var part func(k *Facts, x, e *Term) *Term
	part = func(k *Facts, x, e *Term) *Term {
		switch {
		case x == at:
			return e
		case x.Op == OField:
			return mkField(part(k, x.Args[0], e), int(x.Off), x.Typ)
		}
		return readIdx(k, part(k, x.Args[0], e), x.Args[1], x.Typ)
	}
	var res []alt
	for j, e := range arr.Args {
		s := st.clone()
		if s.k.assume(s.k.cmp(token.EQL, idx, mkInt(int64(j), nil), types.Typ[types.Int]), true) {
			res = append(res, alt{st: s, val: part(s.k, v, e)})
		}
	}
	if len(res) == 0 {
		return one(st, v)
	}
	return res
}

func (in *Interp) unop(st *State, fr *Frame, i *ssa.UnOp) []alt {
	x := in.get(fr, i.X)
	switch i.Op {
	case token.MUL: // load
		in.nilCheck(st, fr, i.Pos(), x, "load through nil pointer")
		if x.isNil() {
			return []alt{{out: &Outcome{Kind: KPanic, St: st, Why: "nil dereference"}}}
		}
		v := in.load(st, x, i.Type())
		root := x.root()
		if in.shared(root) || st.pub[root] != nil {
			in.event(st, fr, i.Pos(), Event{Kind: EvLoad, Addr: x, Val: v, Recv: st.pub[root]})
		}
		return tabled(st, v)
	case token.NOT:
		return one(st, mkNot(st.k.decide(x)))
	case token.SUB:
		if x.Op == OConst && x.C != nil {
			c := constant.UnaryOp(token.SUB, x.C, 0)
			if isInteger(i.Type()) {
				c = wrapConst(c, i.Type())
			}
			return one(st, mkConst(c, i.Type()))
		}
		if isInteger(i.Type()) && !isUnsigned(i.Type()) {
			return one(st, subInt(st.k, mkInt(0, nil), x))
		}
		return one(st, T.mk(Term{Op: OUn, Tok: token.SUB, Args: []*Term{x}, Typ: i.Type()}, "-"+typeKey(i.Type())))
	case token.XOR:
		return one(st, T.mk(Term{Op: OUn, Tok: token.XOR, Args: []*Term{x}, Typ: i.Type()}, "^"+typeKey(i.Type())))
	case token.ARROW:
		return in.recv(st, fr, i.Pos(), x, i.CommaOk, i.Type())
	}
	in.giveUp(fr, i.Pos(), "unary %s", i.Op)
	return nil
}

// convertSplit converts; a sum that wraps at most once splits the path.
func (in *Interp) convertSplit(st *State, fr *Frame, pos token.Pos, x *Term, from, to types.Type) []alt {
	v := in.convert(st, x, from, to)
	if v.Op != OConv || x.Op != OLin || !isInteger(from) || !isInteger(to) || wide(to) {
		return one(st, v)
	}
	lo, hi := st.k.z.rng(x)
	tl, th := typeRange(to)
	mod := int64(1) << typeBits(to)
	if lo < tl-mod || hi > th+mod {
		return one(st, v)
	}
	b, off := x.lin()
	it := types.Typ[types.Int]
	var res []alt
	for _, d := range []int64{0, mod, -mod} {
		s := st.clone()
		w := mkLin(b, off+d, it)
		if !s.k.assume(s.k.cmp(token.LSS, w, mkInt(tl, nil), it), false) || !s.k.assume(s.k.cmp(token.LSS, mkInt(th, nil), w, it), false) {
			continue
		}
		if d != 0 {
			in.event(s, fr, pos, Event{Kind: EvWrap, Recv: x, Val: retype(w, to)})
		}
		res = append(res, alt{st: s, val: retype(w, to)})
	}
	return res
}

func (in *Interp) convert(st *State, x *Term, from, to types.Type) *Term {
	k := st.k
	switch {
	case isInteger(from) && isInteger(to):
		lo, hi := k.z.rng(x)
		if lo == hi {
			return mkConst(wrapConst(constant.MakeInt64(lo), to), to)
		}
		tl, th := typeRange(to)
		_, fh := typeRange(from)
		if lo >= tl && hi <= th && !(hi >= inf && fh >= inf && isUnsigned(from) && !isUnsigned(to)) {
			return x
		}
		return T.mk(Term{Op: OConv, Args: []*Term{x}, Typ: to}, typeKey(to.Underlying()))
	case isInteger(from) && isFloat(to):
		if x.Op == OConst {
			return mkConst(roundFloat(constant.ToFloat(x.C), to), to)
		}
		lim := int64(1) << 24
		if b := to.Underlying().(*types.Basic); b.Kind() != types.Float32 {
			lim = 1 << 53
		}
		lo, hi := k.z.rng(x)
		return mkI2F(x, to, lo >= -lim && hi <= lim)
	case isFloat(from) && isInteger(to):
		if iv, ok := intView(x); ok {
			return in.convert(st, iv, types.Typ[types.Int64], to)
		}
		if x.Op == OConst && x.C != nil {
			f, _ := constant.Float64Val(x.C)
			return mkConst(wrapConst(constant.MakeInt64(int64(f)), to), to)
		}
		return T.mk(Term{Op: OConv, Args: []*Term{x}, Typ: to, Name: "f2i"}, "f2i|"+typeKey(to.Underlying()))
	case isFloat(from) && isFloat(to):
		if x.Op == OConst {
			return mkConst(roundFloat(x.C, to), to)
		}
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if fb.Kind() == tb.Kind() || tb.Kind() == types.Float64 {
			return x
		}
		if iv, ok := intView(x); ok {
			lo, hi := k.z.rng(iv)
			if lo >= -(1<<24) && hi <= 1<<24 {
				return mkI2F(iv, to, true)
			}
		}
		return T.mk(Term{Op: OConv, Args: []*Term{x}, Typ: to, Name: "f2f"}, "f2f|"+typeKey(to.Underlying()))
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			b, off, ln, _ := sliceParts(k, x)
			if n, ok := ln.intConst(); ok && n == 0 {
				return mkStr("")
			}
			if isRunes(sl) {
				return mkPure("runes2str", to, contentView(in.content(st, b)), off, ln)
			}
			c := contentView(in.content(st, b))
			if v, ok := off.intConst(); ok && v == 0 && c.Op == OPure && c.Name == "strbytes" && (ln == in.length(st, c.Args[0]) || wholeLen(ln, c.Args[0])) {
				return c.Args[0]
			}
			return mkPure("bytes2str", to, c, off, ln)
		}
		if isString(from) {
			return x
		}
		return mkPure("rune2str", to, x)
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			ln := in.length(st, x)
			if isRunes(sl) {
				n := mkPure("runecount", types.Typ[types.Int], x)
				k.z.add(nil, n, 0)
				if b, o := ln.lin(); b != nil {
					k.z.add(n, b, o)
				} else {
					k.z.add(n, nil, o)
				}
				r := in.newSlice(st, to, n, n, "runes")
				st.mem[r.Args[0]] = mkPure("strrunes", r.Args[0].Typ, x)
				return r
			}
			s := in.newSlice(st, to, ln, ln, "bytes")
			if str, ok := x.strConst(); ok && len(str) <= maxArr {
				var el []*Term
				for _, c := range []byte(str) {
					el = append(el, mkInt(int64(c), sl.Elem()))
				}
				st.mem[s.Args[0]] = mkArray(types.NewArray(sl.Elem(), int64(len(str))), el)
			} else if x.Op == OPure && x.Name == "bytes2str" {
				st.mem[s.Args[0]] = mkPure("sub", s.Args[0].Typ, x.Args[0], x.Args[1])
			} else {
				st.mem[s.Args[0]] = mkPure("strbytes", s.Args[0].Typ, x)
			}
			return s
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return T.mk(Term{Op: OConv, Args: []*Term{x}, Typ: to, Name: "conv"}, "conv|"+typeKey(to))
}

func wholeLen(ln, s *Term) bool { return ln.Op == OLen && ln.Args[0] == s }

func contentView(c *Term) *Term { return c }

func isRunes(s *types.Slice) bool {
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// ---- maps, ranges, assertions ----

func (in *Interp) mapUpdate(st *State, fr *Frame, pos token.Pos, m, key, val *Term) {
	if m.isNil() {
		in.oblig(st, fr, pos, "nilmap", false, "assignment to entry in nil map")
		return
	}
	root := m
	if in.shared(root) {
		in.event(st, fr, pos, Event{Kind: EvStore, Addr: m, Val: val, Name: "map"})
	}
	c := in.content(st, root)
	if !(c.Op == OPure && c.Name == "map") {
		st.mem[root] = freshSym("map", nil)
		return
	}
	args := append([]*Term(nil), c.Args...)
	for i := 0; i+1 < len(args); i += 2 {
		kt := keyType(key, args[i])
		if m.Typ != nil {
			if mt, ok := m.Typ.Underlying().(*types.Map); ok {
				kt = mt.Key()
			}
		}
		e := st.k.cmp(token.EQL, args[i], key, kt)
		v, ok := e.boolConst()
		if ok && v {
			args[i+1] = val
			st.mem[root] = mkPure("map", nil, args...)
			return
		}
		if !ok {
			st.mem[root] = freshSym("map", nil)
			return
		}
	}
	st.mem[root] = mkPure("map", nil, append(args, key, val)...)
}

func keyType(a, b *Term) types.Type {
	if a.Typ != nil && a.Op != OIface {
		return a.Typ
	}
	if b.Typ != nil && b.Op != OIface {
		return b.Typ
	}
	return types.NewInterfaceType(nil, nil)
}

func (in *Interp) lookup(st *State, fr *Frame, i *ssa.Lookup) []alt {
	x := in.get(fr, i.X)
	key := in.get(fr, i.Index)
	if isString(i.X.Type()) {
		return in.withIndex(st, fr, i.Pos(), key, in.length(st, x), func(ix *Term) *Term { return readIdx(st.k, x, ix, i.Type()) })
	}
	mt := i.X.Type().Underlying().(*types.Map)
	wrap := func(st *State, v *Term, ok *Term) alt {
		if i.CommaOk {
			return alt{st: st, val: mkTuple([]*Term{v, ok})}
		}
		return alt{st: st, val: v}
	}
	if x.isNil() {
		return []alt{wrap(st, zeroTerm(mt.Elem()), mkBool(false))}
	}
	c := in.content(st, x)
	if in.shared(x.root()) {
		in.event(st, fr, i.Pos(), Event{Kind: EvLoad, Addr: x, Val: c, Name: "map"})
	}
	if !(c.Op == OPure && c.Name == "map") {
		v := mkPure("lookup", mt.Elem(), c, key)
		return []alt{wrap(st, v, mkPure("has", types.Typ[types.Bool], c, key))}
	}
	var res []alt
	for j := 0; j+1 < len(c.Args); j += 2 {
		e := st.k.cmp(token.EQL, key, c.Args[j], mt.Key())
		if v, ok := e.boolConst(); ok {
			if v {
				return append(res, wrap(st, c.Args[j+1], mkBool(true)))
			}
			continue
		}
		s := st.clone()
		if s.k.assume(e, true) {
			res = append(res, wrap(s, c.Args[j+1], mkBool(true)))
		}
		if !st.k.assume(e, false) {
			return res
		}
	}
	return append(res, wrap(st, zeroTerm(mt.Elem()), mkBool(false)))
}

// startRange starts to go over a map. One whose entries are all known is gone
// over in the order they were made and in the reverse order.
func (in *Interp) startRange(st *State, it *Term) []alt {
	x := it.Args[0]
	if x.Typ == nil || x.isNil() {
		return one(st, it)
	}
	if _, ok := x.Typ.Underlying().(*types.Map); !ok {
		return one(st, it)
	}
	c := in.content(st, x)
	if c.Op != OPure || c.Name != "map" || len(c.Args) > 2*maxUnroll {
		return one(st, it)
	}
	back := []*Term{c}
	for j := len(c.Args) - 2; j >= 0; j -= 2 {
		back = append(back, c.Args[j], c.Args[j+1])
	}
	var res []alt
	if len(c.Args) > 2 {
		s := st.clone()
		s.mem[it] = mkPure("iter", nil, back...)
		res = append(res, alt{st: s, val: it})
	}
	st.mem[it] = mkPure("iter", nil, append([]*Term{c}, c.Args...)...)
	return append(res, alt{st: st, val: it})
}

func (in *Interp) next(st *State, fr *Frame, i *ssa.Next) []alt {
	tt := i.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	r := in.get(fr, i.Iter)
	x := r.Args[0]
	if m := st.mem[r]; m != nil && !fr.summarising(i.Block()) && in.content(st, x) == m.Args[0] {
		if len(m.Args) < 3 {
			return one(st, mkTuple([]*Term{mkBool(false), zeroTermOr(kt), zeroTermOr(vt)}))
		}
		st.mem[r] = mkPure("iter", nil, append([]*Term{m.Args[0]}, m.Args[3:]...)...)
		return one(st, mkTuple([]*Term{mkBool(true), m.Args[1], m.Args[2]}))
	}
	var res []alt
	s := st.clone()
	res = append(res, alt{st: s, val: mkTuple([]*Term{mkBool(false), zeroTermOr(kt), zeroTermOr(vt)})})
	key, val := freshSym("key", kt), freshSym("val", vt)
	if i.IsString {
		ln := in.length(st, x)
		st.k.z.add(nil, key, 0)
		b, o := ln.lin()
		if !st.k.z.add(key, b, o-1) {
			return res
		}
	} else if !x.isNil() {
		c := in.content(st, x)
		if c.Op == OPure && c.Name == "map" {
			// any one of the entries
			for j := 0; j+1 < len(c.Args); j += 2 {
				res = append(res, alt{st: st.clone(), val: mkTuple([]*Term{mkBool(true), c.Args[j], c.Args[j+1]})})
			}
			return res
		}
	} else {
		return res
	}
	res = append(res, alt{st: st, val: mkTuple([]*Term{mkBool(true), key, val})})
	return res
}

// summarising: the loop with this head is being summarised.
func (fr *Frame) summarising(head *ssa.BasicBlock) bool {
	for _, lc := range fr.active {
		if lc.li.head == head {
			return true
		}
	}
	return false
}

func zeroTermOr(t types.Type) *Term {
	if t == nil {
		return mkNil(nil)
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return mkNil(nil)
	}
	return zeroTerm(t)
}

func (in *Interp) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) []alt {
	x := in.get(fr, i.X)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	good := func(st *State, v *Term) alt {
		if i.CommaOk {
			return alt{st: st, val: mkTuple([]*Term{v, mkBool(true)})}
		}
		return alt{st: st, val: v}
	}
	bad := func(st *State) alt {
		if i.CommaOk {
			return alt{st: st, val: mkTuple([]*Term{zeroTerm(i.AssertedType), mkBool(false)})}
		}
		in.oblig(st, fr, i.Pos(), "assert", false, fmt.Sprintf("type assertion %s.(%s)", x, shortType(i.AssertedType)))
		return alt{out: &Outcome{Kind: KPanic, St: st, Why: "type assertion"}}
	}
	if x.isNil() {
		return []alt{bad(st)}
	}
	if x.Op == OIface {
		ok := types.Identical(x.Typ, i.AssertedType)
		if toIface {
			ok = types.Implements(x.Typ, i.AssertedType.Underlying().(*types.Interface))
		}
		if !ok {
			return []alt{bad(st)}
		}
		if !i.CommaOk {
			in.oblig(st, fr, i.Pos(), "assert", true, "type assertion to "+shortType(i.AssertedType))
		}
		if toIface {
			return []alt{good(st, x)}
		}
		return []alt{good(st, x.Args[0])}
	}
	if !i.CommaOk && toIface && i.X.Type() != nil {
		if it, ok := i.X.Type().Underlying().(*types.Interface); ok && types.Implements(it, i.AssertedType.Underlying().(*types.Interface)) && st.k.nonNil(x) {
			return []alt{good(st, x)}
		}
	}
	cond := mkPure("dyntype:"+typeKey(i.AssertedType), types.Typ[types.Bool], x)
	var v *Term
	if toIface {
		v = x
	} else {
		v = mkPure("unwrap", i.AssertedType, x)
	}
	if kv, ok := st.k.known(cond); ok {
		if kv {
			return []alt{good(st, v)}
		}
		return []alt{bad(st)}
	}
	s := st.clone()
	s.k.assume(cond, true)
	s.k.assume(mkCmp(token.EQL, mkNil(nil), x), false)
	st.k.assume(cond, false)
	return []alt{good(s, v), bad(st)}
}

func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.RelString(nil)
}

var began = time.Now()

const (
	maxTime = 400 * time.Second
	maxHeap = 12 << 30
)

// exhausted tells whether the process should come to an end.
func exhausted() string {
	if d := time.Since(began); d > maxTime {
		return fmt.Sprintf("analysis takes more than %v", maxTime)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > maxHeap {
		return fmt.Sprintf("analysis takes more than %d GB", maxHeap>>30)
	}
	return ""
}
