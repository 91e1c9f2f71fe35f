package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	li       *loopInfo
	rec      *LoopRec
	frame    int
	discover bool
	codes    []loopCode
	sums     map[*Term]*Term // unknown of the loop -> its value when the loop is left through its head
	syms     map[*Term]bool
}

// loopsOf finds the natural loops of a function.
func (P *Program) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := P.loops[f]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := m[s]
				if li == nil {
					li = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	P.loops[f] = m
	return m
}

const maxUnroll = 12

// heavy loops take locks, wait or talk to the unit; many iterations of them
// are summarised rather than followed one by one.
func (in *Interp) heavy(lp *loopInfo) bool {
	seen := map[*ssa.Function]bool{}
	var fn func(f *ssa.Function) bool
	instr := func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Select, *ssa.Send, *ssa.Go:
			return true
		case *ssa.UnOp:
			return i.Op == token.ARROW
		case ssa.CallInstruction:
			c := i.Common()
			if c.IsInvoke() {
				return true
			}
			f := c.StaticCallee()
			if f == nil {
				_, b := c.Value.(*ssa.Builtin)
				return !b
			}
			if in.opaque != nil && in.opaque(f) {
				return true
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
				return true
			}
			return in.P.isRepo(f) && fn(f)
		}
		return false
	}
	fn = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if instr(i) {
					return true
				}
			}
		}
		return false
	}
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			if instr(i) {
				return true
			}
		}
	}
	return false
}

// branchy counts the calls below a loop body that can go well or fail, each
// as often as it is reached: what is followed doubles with every one of them.
func (in *Interp) branchy(lp *loopInfo) int {
	memo := map[*ssa.Function]int{}
	var fn func(f *ssa.Function) int
	instr := func(i ssa.Instruction) int {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return 0
		}
		f := c.Common().StaticCallee()
		switch {
		case c.Common().IsInvoke():
			return 1
		case f == nil:
			if _, b := c.Common().Value.(*ssa.Builtin); b {
				return 0
			}
			return 1
		case in.opaque != nil && in.opaque(f):
			return 1
		case in.P.isRepo(f):
			return fn(f)
		}
		return 0
	}
	fn = func(f *ssa.Function) int {
		if n, ok := memo[f]; ok {
			return n
		}
		memo[f] = 0
		n := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				n += instr(i)
			}
		}
		memo[f] = min(n, 1000)
		return memo[f]
	}
	n := 0
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			n += instr(i)
		}
	}
	return n
}

const maxBranchy = 12

func predIndex(blk, pred *ssa.BasicBlock) int {
	for i, p := range blk.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

func (in *Interp) phiVals(fr *Frame, pred, blk *ssa.BasicBlock) []*Term {
	var r []*Term
	pi := predIndex(blk, pred)
	for _, p := range phisOf(blk) {
		r = append(r, in.get(fr, p.Edges[pi]))
	}
	return r
}

func (in *Interp) enter(st *State, fr *Frame, pred, blk *ssa.BasicBlock) []Outcome {
	// leaving summarised loops
	for len(fr.active) > 0 {
		lc := fr.active[len(fr.active)-1]
		if lc.li.blocks[blk] {
			break
		}
		if lc.discover {
			return []Outcome{{Kind: KLeave, St: st, Loop: lc}}
		}
		fr.active = fr.active[: len(fr.active)-1 : len(fr.active)-1]
		if lc.rec != nil {
			lc.rec.Exits = true
		}
		if pred == lc.li.head && len(lc.sums) > 0 {
			in.applySums(st, fr, lc)
		}
		if pred == lc.li.head && len(lc.codes) > 0 {
			in.applyCodes(st, fr, lc)
		}
	}
	lp := in.P.loopsOf(fr.fn)[blk]
	phis := phisOf(blk)
	if lp != nil {
		inside := lp.blocks[pred]
		if inside {
			for _, lc := range fr.active {
				if lc.li.head == blk {
					vals := in.phiVals(fr, pred, blk)
					f := fr.clone()
					for i, p := range phis {
						f.env[p] = vals[i]
					}
					return []Outcome{{Kind: KIter, St: st, Loop: lc, Frame: f, From: pred}}
				}
			}
			fr.unroll[blk]++
			if fr.unroll[blk] > 2*maxUnroll {
				in.giveUp(fr, blk.Instrs[0].Pos(), "loop expected to be short is not")
			}
		} else {
			n, ok := in.tripCount(st, fr, pred, blk, lp)
			if !ok || n > maxUnroll || n > 6 && in.heavy(lp) || n > 1 && int(n)*in.branchy(lp) > maxBranchy {
				return in.loop(st, fr, pred, blk, lp)
			}
			fr.unroll[blk] = 0
		}
	}
	if len(phis) > 0 {
		vals := in.phiVals(fr, pred, blk)
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	return in.run(st, fr, blk, len(phis))
}

// tripCount recognises counting loops with a constant number of iterations.
func (in *Interp) tripCount(st *State, fr *Frame, pred, blk *ssa.BasicBlock, lp *loopInfo) (int64, bool) {
	iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	if x, ok := iff.Cond.(*ssa.Extract); ok {
		// going over a map with known entries
		nx, ok := x.Tuple.(*ssa.Next)
		if !ok || nx.Block() != blk || nx.IsString {
			return 0, false
		}
		m := st.mem[in.get(fr, nx.Iter)]
		if m == nil {
			return 0, false
		}
		return int64(len(m.Args)-1) / 2, true
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	if lp.blocks[blk.Succs[0]] == lp.blocks[blk.Succs[1]] {
		return 0, false
	}
	stay := lp.blocks[blk.Succs[0]]
	pi := predIndex(blk, pred)
	// operand as phi + constant
	var asPhi func(v ssa.Value) (*ssa.Phi, int64, bool)
	asPhi = func(v ssa.Value) (*ssa.Phi, int64, bool) {
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == blk {
				return v, 0, true
			}
		case *ssa.BinOp:
			if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && (v.Op == token.ADD || v.Op == token.SUB) && isInteger(v.Type()) {
				if p, o, ok := asPhi(v.X); ok {
					d := c.Int64()
					if v.Op == token.SUB {
						d = -d
					}
					return p, o + d, true
				}
			}
			if c, ok := v.X.(*ssa.Const); ok && c.Value != nil && v.Op == token.ADD && isInteger(v.Type()) {
				if p, o, ok := asPhi(v.Y); ok {
					return p, o + c.Int64(), true
				}
			}
		case *ssa.Convert:
			return asPhi(v.X)
		}
		return nil, 0, false
	}
	// a value that does not change in the loop
	var fixed func(v ssa.Value) (int64, bool)
	fixed = func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && isInteger(c.Type()) {
			return c.Int64(), true
		}
		if i, ok := v.(ssa.Instruction); ok && lp.blocks[i.Block()] {
			if call, ok := v.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					a := call.Call.Args[0]
					if ai, ok := a.(ssa.Instruction); ok && lp.blocks[ai.Block()] {
						return 0, false
					}
					t := in.get(fr, a)
					if t.Op == OAlloc {
						return 0, false
					}
					return constOf(st.k, in.length(st, t))
				}
			}
			return 0, false
		}
		return constOf(st.k, in.get(fr, v))
	}
	op := cond.Op
	x, y := cond.X, cond.Y
	phi, off, ok := asPhi(x)
	lim, ok2 := int64(0), false
	if ok {
		lim, ok2 = fixed(y)
	} else if phi, off, ok = asPhi(y); ok {
		lim, ok2 = fixed(x)
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !ok || !ok2 {
		return 0, false
	}
	if !stay {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	init, ok := constOf(st.k, in.get(fr, phi.Edges[pi]))
	if !ok {
		return 0, false
	}
	// all back edges advance by the same constant
	var step int64
	have := false
	for i, e := range phi.Edges {
		if !lp.blocks[blk.Preds[i]] {
			continue
		}
		p, d, ok := asPhi(e)
		if !ok || p != phi || d == 0 || have && d != step {
			return 0, false
		}
		step, have = d, true
	}
	if !have {
		return 0, false
	}
	n := int64(0)
	for v := init + off; n <= maxUnroll+1; v += step {
		in := false
		switch op {
		case token.LSS:
			in = v < lim
		case token.LEQ:
			in = v <= lim
		case token.GTR:
			in = v > lim
		case token.GEQ:
			in = v >= lim
		case token.NEQ:
			in = v != lim
		case token.EQL:
			in = v == lim
		}
		if !in {
			return n, true
		}
		n++
	}
	return n, true
}

// A cell is something that may change around a loop.
type cand struct {
	a, b *Term // a - b <= c
	c    int64
}

// loop abstracts a loop: variables and memory it changes become unknown,
// constrained by the bounds that every iteration is shown to keep.
func (in *Interp) loop(st *State, fr *Frame, pred, blk *ssa.BasicBlock, lp *loopInfo) []Outcome {
	phis := phisOf(blk)
	entry := in.phiVals(fr, pred, blk)
	ev := in.event(st, fr, blk.Instrs[0].Pos(), Event{Kind: EvLoop})
	rec := &LoopRec{Fn: fr.fn, Head: blk, Start: ev}
	ev.Loop = rec
	rec.Turns = -1
	if n, ok := in.turns(st, fr, fr.fn, blk, entry); ok {
		rec.Turns = n
	}

	cur := append([]*Term(nil), entry...)
	mem := map[*Term]*Term{}
	for r, c := range st.mem {
		mem[r] = c
	}
	chans := map[*Term]*chanState{}
	for c, s := range st.chans {
		n := *s
		chans[c] = &n
	}
	syms := map[*Term]bool{}
	offs := map[*Term]bool{} // starts of what is left of a sequence
	type origin struct {
		entry *Term
		get   func(st *State, f *Frame) *Term
	}
	org := map[*Term]origin{}
	fresh := func(name string, t types.Type, o origin) *Term {
		s := freshSym(name, t)
		syms[s] = true
		offs[s] = strings.HasSuffix(name, ".off")
		org[s] = o
		return s
	}
	var cands []cand
	candKnown := map[*Term]bool{}

	addCands := func(s *Term) {
		if candKnown[s] || !isInteger(s.Typ) {
			return
		}
		candKnown[s] = true
		o := org[s]
		eb, eo := o.entry.lin()
		cands = append(cands, cand{s, eb, eo}, cand{eb, s, -eo})
		for t := range syms {
			if t != s && isInteger(t.Typ) {
				to := org[t]
				tb, tof := to.entry.lin()
				// s - t at entry
				var d int64
				if eb == tb {
					d = eo - tof
				} else {
					d = st.k.z.upper(eb, tb)
					if d >= inf {
						continue
					}
					d = satAdd(d, eo-tof)
				}
				cands = append(cands, cand{s, t, d})
				var d2 int64
				if eb == tb {
					d2 = tof - eo
				} else {
					d2 = st.k.z.upper(tb, eb)
					if d2 >= inf {
						continue
					}
					d2 = satAdd(d2, tof-eo)
				}
				cands = append(cands, cand{t, s, d2})
			}
		}
	}
	extra := map[cand]bool{}
	candTried := map[[2]*Term]bool{}
	addExtra := func(s *Term, bound *Term) {
		// s <= bound, s < bound if true at entry
		o := org[s]
		bb, bo := bound.lin()
		if syms[bb] {
			return
		}
		eb, eo := o.entry.lin()
		var u int64
		if eb == bb {
			u = 0
		} else {
			u = st.k.z.upper(eb, bb)
		}
		if u >= inf {
			return
		}
		for _, slack := range []int64{0, 1, 2} {
			c := cand{s, bb, bo + slack}
			if satAdd(u, eo) <= bo+slack && !extra[c] {
				extra[c] = true
				cands = append(cands, c)
			}
		}
	}

	setup := func(discover bool) (*State, *Frame, *loopCtx) {
		s, f := st.clone(), fr.clone()
		for r, c := range mem {
			s.mem[r] = c
		}
		for c, x := range chans {
			n := *x
			s.chans[c] = &n
		}
		eq := map[*Term]*Term{}
		for _, c := range cands {
			s.k.z.add(c.a, c.b, c.c)
			if offs[c.b] && !offs[c.a] && c.a != nil && syms[c.a] {
				for _, d := range cands {
					if d == (cand{c.b, c.a, -c.c}) {
						eq[c.a] = mkLin(c.b, c.c, types.Typ[types.Int])
					}
				}
			}
		}
		for i, p := range phis {
			f.env[p] = cur[i]
			if e := eq[cur[i]]; e != nil {
				f.env[p] = e // moves along with what is left of a sequence
			}
		}
		ends := func(t *Term) {
			// what is left of a sequence
			if t.Op == OSlice && syms[t.Args[1]] {
				if l, _ := t.Args[2].lin(); l != nil && l.Op == OBin && l.Tok == token.SUB {
					eb, eo := l.Args[0].lin()
					ob, oo := l.Args[1].lin()
					if u := s.k.z.upper(ob, eb); u < inf {
						s.k.z.add(nil, l, satAdd(u, oo-eo))
					}
				}
			}
		}
		for _, t := range cur {
			ends(t)
		}
		for r := range mem {
			ends(mem[r])
		}
		lc := &loopCtx{li: lp, rec: rec, frame: f.id, discover: discover, syms: syms}
		f.active = append(f.active[:len(f.active):len(f.active)], lc)
		return s, f, lc
	}

	// bytes at a position a loop variable holds, unless it is negative
	var bytes []byteFact
	byteKnown := map[*Term]bool{}
	run := func(s *State, f *Frame) []Outcome {
		var may *Term
		know := func(k *Facts, cond bool) bool {
			for _, b := range bytes {
				if b.cond == cond && (!cond || b.s == may) {
					x := byteAt(k, b.c, addInt(k, b.s, mkInt(b.j, nil)))
					if !k.assume(k.cmp(token.EQL, x, mkInt(b.v, types.Typ[types.Byte]), types.Typ[types.Byte]), true) {
						return false
					}
				}
			}
			return true
		}
		know(s.k, false)
		for _, b := range bytes {
			if b.cond && may == nil {
				may = b.s
			}
		}
		if may == nil {
			return in.run(s, f, blk, len(phis))
		}
		it := types.Typ[types.Int]
		n, g := s.clone(), f.clone()
		var outs []Outcome
		if n.k.assume(n.k.cmp(token.LSS, may, mkInt(0, nil), it), true) {
			outs = in.run(n, g, blk, len(phis))
		}
		if s.k.assume(s.k.cmp(token.LSS, may, mkInt(0, nil), it), false) && know(s.k, true) {
			outs = append(outs, in.run(s, f, blk, len(phis))...)
		}
		return outs
	}

	saveUndecided := len(in.undecided)
	var iters []Outcome
	start := T.uniq
	for round := 0; ; round++ {
		if round > 40 {
			in.giveUp(fr, blk.Instrs[0].Pos(), "no loop invariant found")
		}
		s, f, lc := setup(true)
		in.discover++
		outs := run(s, f)
		in.discover--
		iters = iters[:0]
		for _, o := range outs {
			if o.Kind == KIter && o.Loop == lc {
				iters = append(iters, o)
			}
		}
		changed := false
		for _, o := range iters {
			// loop variables
			for i, p := range phis {
				i, p := i, p
				v := o.Frame.env[p]
				cur[i] = widen(st.k, cur[i], v, p.Type(), syms, func(name string, t types.Type, e *Term, sel func(*Term) *Term) *Term {
					changed = true
					n := p.Comment
					if n == "" {
						n = p.Name()
					}
					return fresh(n+name, t, origin{sel(entry[i]), func(_ *State, f *Frame) *Term { return sel(f.env[p]) }})
				}, func(t *Term) *Term { return t }, "")
			}
			// memory
			for r, c := range o.St.mem {
				r := r
				old, ok := mem[r]
				if !ok {
					if in.P.initMem[r] != nil && !in.P.mutable[r] {
						old = in.P.initMem[r]
					} else if c.Op == OSym && c.Src == r {
						continue // first read inside the loop
					} else if r.Op == OAlloc && !in.shared(r) {
						continue // allocated inside the loop
					} else if younger(r, start, syms) {
						continue // named by values of one iteration only
					} else {
						mem[r] = fresh("mem:"+rootName(r), r.elemTyp(), origin{c, func(s *State, _ *Frame) *Term { return s.mem[r] }})
						mem[r].Src = r
						changed = true
						continue
					}
				}
				entryC := old
				if e, ok := st.mem[r]; ok {
					entryC = e
				}
				mem[r] = widen(st.k, old, c, r.elemTyp(), syms, func(name string, t types.Type, e *Term, sel func(*Term) *Term) *Term {
					changed = true
					n := fresh("mem:"+rootName(r)+name, t, origin{sel(entryC), func(s *State, _ *Frame) *Term {
						if v, ok := s.mem[r]; ok {
							return sel(v)
						}
						return sel(mem[r])
					}})
					if name == "" {
						n.Src = r
					}
					return n
				}, func(t *Term) *Term { return t }, "")
			}
			// forgotten shared memory stays forgotten
			for r, c := range mem {
				if _, ok := o.St.mem[r]; !ok && !(c.Op == OSym && syms[c]) {
					mem[r] = fresh("mem:"+rootName(r), r.elemTyp(), origin{c, func(s *State, _ *Frame) *Term {
						if v, ok := s.mem[r]; ok {
							return v
						}
						return mem[r]
					}})
					mem[r].Src = r
					changed = true
				}
			}
			for c, x := range o.St.chans {
				old, ok := chans[c]
				if !ok {
					continue
				}
				if (len(old.pending) != len(x.pending) || old.closed != x.closed) && !old.escaped {
					n := *old
					n.escaped = true
					n.pending = nil
					chans[c] = &n
					changed = true
				}
			}
			if !sameHeld(st.held, o.St.held) && !changed {
				in.event(st, fr, blk.Instrs[0].Pos(), Event{Kind: EvOblig, Name: "loop-lock", Msg: "an iteration ends holding other locks than it started with"})
			}
		}
		if changed {
			for _, s := range sortedTerms(syms) {
				addCands(s)
			}
			continue
		}
		// drop bounds an iteration does not keep
		var kept []cand
		for _, c := range cands {
			ok := true
			for _, o := range iters {
				av := in.backVal(c.a, org[c.a].get, o, syms)
				bv := in.backVal(c.b, org[c.b].get, o, syms)
				if av == nil && c.a != nil || bv == nil && c.b != nil {
					ok = false
					break
				}
				if av == nil {
					av = mkInt(0, nil)
				}
				if bv == nil {
					bv = mkInt(0, nil)
				}
				if !o.St.k.z.leq(av, bv, c.c) && !leqSum(o.St.k, av, bv, c.c) {
					ok = false
					break
				}
			}
			if ok {
				kept = append(kept, c)
			}
		}
		if len(kept) < len(cands) {
			cands = kept
			continue
		}
		var held []byteFact
		again := false
		for _, b := range bytes {
			ok := true
			for _, o := range iters {
				av := in.backVal(b.s, org[b.s].get, o, syms)
				if av == nil {
					ok = false
					break
				}
				if _, hi := o.St.k.z.rng(av); hi < 0 {
					again = again || !b.cond
					b.cond = true
				} else if !isByteConst(o.St.k, byteAt(o.St.k, b.c, addInt(o.St.k, av, mkInt(b.j, nil))), b.v) {
					ok = false
					break
				}
			}
			if ok {
				held = append(held, b)
			}
		}
		again = again || len(held) < len(bytes)
		bytes = held
		for _, s := range sortedTerms(syms) {
			if byteKnown[s] || !isInteger(s.Typ) || len(iters) == 0 {
				continue
			}
			byteKnown[s] = true
			eb, eo := org[s].entry.lin()
			if eb == nil {
				continue
			}
			var where []*Term
			add := func(c *Term) {
				if stable(c, syms) && !slices.Contains(where, c) {
					where = append(where, c)
				}
			}
			if eb.Op == OPure && len(eb.Args) >= 4 && strings.Contains(eb.Name, "Index") {
				add(eb.Args[0])
			}
			for _, c := range st.k.z.cons {
				for _, x := range []*Term{c.a, c.b} {
					if x == nil || x.Op != OIndex {
						continue
					}
					if ib, _ := x.Args[1].lin(); ib == eb {
						add(x.Args[0])
					}
				}
			}
			for _, c := range where {
				for j := int64(0); j < 3; j++ {
					x := byteAt(st.k, c, addInt(st.k, eb, mkInt(eo+j, nil)))
					if lo, hi := st.k.z.rng(x); lo == hi {
						bytes = append(bytes, byteFact{s: s, c: c, j: j, v: lo})
						again = true
					}
				}
			}
		}
		if again {
			continue
		}
		// bounds suggested by comparisons of the last round
		for _, o := range iters {
			for _, c := range o.St.k.z.cons {
				if c.a != nil && syms[c.a] && c.b != nil && !syms[c.b] && stable(c.b, syms) {
					addExtra(c.a, c.b)
					// one that never overtakes it may have the same bound
					for _, t := range sortedTerms(syms) {
						if t != c.a && isInteger(t.Typ) && c.b.Op == OLen {
							addExtra(t, addInt(st.k, c.b, mkInt(c.c, nil)))
						}
					}
				}
			}
		}
		// bounds that every turn ends with
		if len(iters) > 0 {
			for _, c := range iters[0].St.k.z.cons {
				b := c.b
				if b == nil || b.Op != OLen || syms[b] || !stable(b, syms) {
					continue
				}
				for _, s := range sortedTerms(syms) {
					if !isInteger(s.Typ) || candTried[[2]*Term{s, b}] {
						continue
					}
					eb, eo := org[s].entry.lin()
					u := satAdd(st.k.z.upper(eb, b), eo)
					if eb == b {
						u = eo
					}
					for _, o := range iters {
						av := in.backVal(s, org[s].get, o, syms)
						if av == nil {
							u = inf
							break
						}
						ab, ao := av.lin()
						if v := satAdd(o.St.k.z.upper(ab, b), ao); ab != b && v > u {
							u = v
						} else if ab == b && ao > u {
							u = ao
						}
					}
					if u > -4096 && u < 4096 {
						candTried[[2]*Term{s, b}] = true
						if x := (cand{s, b, u}); !extra[x] {
							extra[x] = true
							cands = append(cands, x)
						}
					}
				}
			}
		}
		if len(cands) > len(kept) {
			continue
		}
		break
	}
	in.undecided = in.undecided[:saveUndecided]

	s, f, lc := setup(false)
	lc.codes = in.findCodes(st, fr, lp, phis, entry)
	lc.sums = in.findSums(st, s, f, blk, phis, cur, iters, syms)
	outs := run(s, f)
	for _, o := range outs {
		if o.Kind == KIter && o.Loop == lc {
			rec.Iters = append(rec.Iters, o.St)
			first, last := in.endTurn(o, fr, blk, entry, cur)
			rec.First, rec.Last = append(rec.First, first), append(rec.Last, last)
		}
	}
	if in.discover == 0 {
		in.loops = append(in.loops, rec)
	}
	return outs
}

// A byteFact: content c has byte v at s+j (cond: if s is not negative).
type byteFact struct {
	s, c *Term
	j, v int64
	cond bool
}

// endTurn: the turn that ends here can only be the first, or the last one.
func (in *Interp) endTurn(o Outcome, fr *Frame, head *ssa.BasicBlock, entry, cur []*Term) (first, last bool) {
	var next []*Term
	for _, c := range in.P.counters(fr.fn, head) {
		z := o.St.k.z
		if e, p := entry[c.i], cur[c.i]; c.step > 0 && z.leq(p, e, 0) || c.step < 0 && z.leq(e, p, 0) {
			first = true
		}
		if next == nil {
			next = in.phiVals(o.Frame, o.From, head)
		}
		lim := in.get(fr, c.lim)
		n := next[c.i]
		switch c.op {
		case token.LSS:
			last = last || z.leq(lim, n, 0)
		case token.LEQ:
			last = last || z.leq(lim, n, -1)
		case token.GTR:
			last = last || z.leq(n, lim, 0)
		case token.GEQ:
			last = last || z.leq(n, lim, -1)
		case token.NEQ:
			last = last || z.leq(lim, n, 0) && z.leq(n, lim, 0)
		}
	}
	return
}

func stable(t *Term, syms map[*Term]bool) bool {
	return !t.contains(func(x *Term) bool { return syms[x] })
}

func (in *Interp) backVal(t *Term, get func(*State, *Frame) *Term, o Outcome, syms map[*Term]bool) *Term {
	if t == nil {
		return nil
	}
	if !syms[t] {
		return t
	}
	if get == nil {
		return nil
	}
	return get(o.St, o.Frame)
}

func sameHeld(a, b []Held) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Lock != b[i].Lock || a[i].Mode != b[i].Mode {
			return false
		}
	}
	return true
}

// younger: the term mentions a value obtained inside the loop.
func younger(t *Term, start int, syms map[*Term]bool) bool {
	r := false
	t.walk(func(x *Term) bool {
		if x.Op == OSym && x.Uniq > start && !syms[x] {
			r = true
		}
		return !r
	})
	return r
}

// leqSum: a-b <= c, with what both have in common left out.
func leqSum(k *Facts, a, b *Term, c int64) bool {
	m, n := map[*Term]int64{}, int64(0)
	linParts(a, 1, m, &n, 0)
	linParts(b, -1, m, &n, 0)
	var x, y *Term
	for t, f := range m {
		switch {
		case f == 1 && x == nil:
			x = t
		case f == -1 && y == nil:
			y = t
		default:
			return false
		}
	}
	return satAdd(k.z.upper(x, y), n) <= c
}

// sameInt: two linear sums are the same.
func sameInt(a, b *Term) bool {
	m, c := map[*Term]int64{}, int64(0)
	linParts(a, 1, m, &c, 0)
	linParts(b, -1, m, &c, 0)
	return len(m) == 0 && c == 0
}

// widen generalises old so that it also covers back.
func widen(k *Facts, old, back *Term, t types.Type, syms map[*Term]bool, fresh func(name string, t types.Type, e *Term, sel func(*Term) *Term) *Term, sel func(*Term) *Term, name string) *Term {
	if old == back || old.Op == OSym && syms[old] {
		return old
	}
	if s := structOf(t); s != nil {
		eo, eb := expand(old, t), expand(back, t)
		var f []*Term
		for i := 0; i < s.NumFields(); i++ {
			i := i
			ft := s.Field(i).Type()
			f = append(f, widen(k, eo.Args[i], eb.Args[i], ft, syms, fresh, func(x *Term) *Term { return mkField(sel(x), i, ft) }, name+"."+s.Field(i).Name()))
		}
		r := mkStruct(t, f)
		if r == eo {
			return old
		}
		return r
	}
	if t != nil {
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() >= 0 && at.Len() <= 16 && old.Op != OPure && back.Op != OPure && old.Op != OAppend && back.Op != OAppend {
			eo, eb := expandArr(old, t), expandArr(back, t)
			var f []*Term
			for i := range eo.Args {
				i := i
				f = append(f, widen(k, eo.Args[i], eb.Args[i], at.Elem(), syms, fresh, func(x *Term) *Term { return mkIndex(sel(x), mkInt(int64(i), nil), at.Elem()) }, name+"[]"))
			}
			r := mkArray(t, f)
			if r == eo {
				return old
			}
			return r
		}
		// a slice may still be an end of the same sequence
		if _, ok := t.Underlying().(*types.Slice); ok && k != nil && !old.isNil() && !back.isNil() {
			b0, o0, l0, c0 := sliceParts(k, old)
			b1, o1, l1, c1 := sliceParts(k, back)
			end, cend := addInt(k, o0, l0), addInt(k, o0, c0)
			if b0 == b1 && stable(b0, syms) && stable(end, syms) && stable(cend, syms) && sameInt(end, addInt(k, o1, l1)) && sameInt(cend, addInt(k, o1, c1)) {
				if syms[o0] {
					return old
				}
				n := fresh(name+".off", types.Typ[types.Int], old, func(x *Term) *Term {
					_, o, _, _ := sliceParts(k, sel(x))
					return o
				})
				args := []*Term{b0, n, subInt(k, end, n), subInt(k, cend, n)}
				return T.mk(Term{Op: OSlice, Args: args, Typ: t, NonNil: old.NonNil && back.NonNil}, "end")
			}
		}
		// a slice keeps its shape unknown but not nil-ness
	}
	if t == nil {
		t = old.Typ
	}
	n := fresh(name, t, old, sel)
	if old.NonNil && back.NonNil {
		n.NonNil = true
	}
	return n
}

// findSums recognises accumulations over all elements of a sequence:
// acc' = acc + seq[i], i running over the whole sequence, upwards or
// downwards, or as the start of what is left of it.
func (in *Interp) findSums(pre, st *State, fr *Frame, blk *ssa.BasicBlock, phis []*ssa.Phi, cur []*Term, iters []Outcome, syms map[*Term]bool) map[*Term]*Term {
	if len(iters) == 0 || len(iters) > 8 {
		return nil
	}
	iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	lp := in.P.loopsOf(fr.fn)[blk]
	it := types.Typ[types.Int]
	at := func(v ssa.Value) *Term {
		for j, p := range phis {
			if v == ssa.Value(p) {
				return cur[j]
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			return constTerm(c)
		}
		x := iters[0].Frame.env[v]
		for _, o := range iters {
			if o.Frame.env[v] != x {
				return nil
			}
		}
		return x
	}
	cx, cy := at(cond.X), at(cond.Y)
	if cx == nil || cy == nil || !isInteger(cond.X.Type()) {
		return nil
	}
	op := cond.Op
	if !lp.blocks[blk.Succs[0]] { // the loop goes on if it fails
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.LEQ:
			op = token.GTR
		case token.LSS:
			op = token.GEQ
		case token.GTR:
			op = token.LEQ
		case token.EQL:
			op = token.NEQ
		default:
			return nil
		}
	}
	// lo < hi as long as the loop goes on
	type less struct{ lo, hi *Term }
	var conds []less
	inc := func(t *Term) *Term { b, o := t.lin(); return mkLin(b, o+1, it) }
	switch op {
	case token.LSS:
		conds = []less{{cx, cy}}
	case token.GTR:
		conds = []less{{cy, cx}}
	case token.LEQ:
		conds = []less{{cx, inc(cy)}}
	case token.GEQ:
		conds = []less{{cy, inc(cx)}}
	case token.NEQ:
		conds = []less{{cx, cy}, {cy, cx}}
	default:
		return nil
	}
	stableOr := func(b *Term) bool { return b == nil || !b.contains(func(x *Term) bool { return syms[x] }) }
	// the variable that counts, its first value and the one at the end
	type counter struct {
		i    *Term
		from *Term // first position
		to   *Term // end: the first position not in the loop any more
	}
	var cs []counter
	for j, p := range phis {
		var back []*Term
		for _, o := range iters {
			back = append(back, o.Frame.env[p])
		}
		step := func(i *Term, get func(*Term) *Term) int64 {
			d := int64(0)
			for n, t := range back {
				if t == nil || get(t) == nil {
					return 0
				}
				b, off := get(t).lin()
				if b != i || n > 0 && off != d {
					return 0
				}
				d = off
			}
			return d
		}
		i := cur[j]
		init := in.phiEntry(fr, p, blk, pre)
		if init == nil {
			continue
		}
		if i.Op == OSlice && init.Op == OSlice || i.Op == OSlice && isByteSlice(p.Type()) {
			off := i.Args[1]
			if !syms[off] || step(off, func(t *Term) *Term {
				if t.Op == OSlice && t.Args[0] == i.Args[0] {
					return t.Args[1]
				}
				return nil
			}) != 1 {
				continue
			}
			lb, lo := i.Args[2].lin()
			_, eo, el, _ := sliceParts(pre.k, init)
			for _, c := range conds {
				a, ok := c.lo.intConst()
				hb, ho := c.hi.lin()
				if !ok || hb != lb || ho-lo != a {
					continue
				}
				cs = append(cs, counter{off, eo, addInt(pre.k, eo, el)})
			}
			continue
		}
		if !syms[i] || !isInteger(i.Typ) {
			continue
		}
		switch step(i, func(t *Term) *Term { return t }) {
		case 1:
			if _, ok := init.intConst(); !ok {
				continue
			}
			for _, c := range conds {
				lb, lo := c.lo.lin()
				hb, ho := c.hi.lin()
				if lb == i && stableOr(hb) {
					cs = append(cs, counter{i, init, mkLin(hb, ho-lo, it)})
				}
			}
		case -1:
			for _, c := range conds {
				lb, lo := c.lo.lin()
				hb, ho := c.hi.lin()
				// lo < i+ho: down to lo-ho+1
				if hb == i && stableOr(lb) {
					cs = append(cs, counter{i, mkLin(lb, lo-ho+1, it), inc(init)})
				}
			}
		}
	}
	sums := map[*Term]*Term{}
	for _, ct := range cs {
		for m, q := range phis {
			acc := cur[m]
			if acc == ct.i || !syms[acc] || !isInteger(acc.Typ) {
				continue
			}
			entryAcc := in.phiEntry(fr, q, blk, pre)
			if entryAcc == nil {
				continue
			}
			// what every turn adds
			var elem *Term
			var added []*Term
			reduced := false
			for _, o := range iters {
				back := o.Frame.env[q]
				if back != nil && back.Op == OBin && len(back.Args) == 2 {
					for n := range 2 {
						v, ok := back.Args[n].intConst()
						if ok && (back.Tok == token.AND && v == 255 || back.Tok == token.REM && n == 1 && v == 256) {
							if lo, _ := o.St.k.z.rng(back.Args[1-n]); lo >= 0 || back.Tok == token.AND {
								back, reduced = back.Args[1-n], true
							}
							break
						}
					}
				}
				var g *Term
				if back != nil {
					g = minusTerm(back, acc)
				}
				if g == nil {
					elem = nil
					break
				}
				added = append(added, g)
				if g.Op == OIndex {
					elem = g
				}
			}
			if elem == nil || len(added) < len(iters) || !stableOr(elem.Args[0]) {
				continue
			}
			same := true
			for n, o := range iters {
				same = same && (added[n] == elem || eqInt(o.St.k, added[n], elem))
			}
			seq := elem.Args[0]
			pb, d := elem.Args[1].lin()
			if pb != ct.i || !same {
				continue
			}
			fb, fo := ct.from.lin()
			tb, to := ct.to.lin()
			s := mkPure("sum", acc.Typ, seq, mkLin(fb, fo+d, it), mkLin(tb, to+d, it))
			r := s
			if e, ok := entryAcc.intConst(); !ok || e != 0 {
				r = T.mk(Term{Op: OBin, Tok: token.ADD, Args: []*Term{entryAcc, s}, Typ: acc.Typ}, "+sum")
			}
			if reduced {
				r = mkPure("mod256", acc.Typ, r)
			}
			sums[acc] = r
		}
	}
	return sums
}

func (in *Interp) phiEntry(fr *Frame, p *ssa.Phi, blk *ssa.BasicBlock, pre *State) *Term {
	lp := in.P.loopsOf(fr.fn)[blk]
	for i, e := range p.Edges {
		if !lp.blocks[blk.Preds[i]] {
			if c, ok := e.(*ssa.Const); ok {
				return constTerm(c)
			}
			if t, ok := fr.env[e]; ok {
				return t
			}
		}
	}
	return nil
}

// minusTerm computes back - acc when back is acc plus something.
func minusTerm(back, acc *Term) *Term {
	if back.Op == OBin && back.Tok == token.ADD {
		if back.Args[0] == acc {
			return back.Args[1]
		}
		if back.Args[1] == acc {
			return back.Args[0]
		}
	}
	return nil
}

func (in *Interp) applySums(st *State, fr *Frame, lc *loopCtx) {
	for v, t := range fr.env {
		fr.env[v] = subst(t, lc.sums)
	}
	for r, c := range st.mem {
		st.mem[r] = subst(c, lc.sums)
	}
}

// subst rebuilds a term with unknowns replaced.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if r, ok := memo[x]; ok {
			return r
		}
		memo[x] = x
		if len(x.Args) == 0 || x.Op == OAlloc {
			return x
		}
		ch := false
		args := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		if !ch {
			return x
		}
		n := *x
		n.Args = args
		var r *Term
		switch x.Op {
		case OLin:
			r = mkLin(args[0], x.Off, x.Typ)
		default:
			r = T.mk(n, "subst:"+x.Name+x.Tok.String()+typeKey(x.Typ)+itoa(x.Off))
		}
		memo[x] = r
		return r
	}
	return f(t)
}
