package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Escaping and unescaping by a loop that is part of a larger function: the
// proof of codec.go, from the head of the loop to where it is left. The loop
// reads one byte sequence and appends to one slice or buffer.

// codecInput: what a loop reads: a slice that is a value from before the
// loop, or a field of a struct a pointer from before it points to.
type codecInput struct {
	v     ssa.Value
	field int // -1: the value itself
}

type codecRegion struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	acc    ssa.Value // phi of the head, or allocated bytes.Buffer
	idle   []*ssa.Phi
}

type regionKey struct {
	head   *ssa.BasicBlock
	acc    ssa.Value
	in     codecInput
	dec    bool
	prefix bool
}

// isBuffer: a bytes.Buffer variable.
func isBuffer(v ssa.Value) bool {
	p, ok := v.Type().Underlying().(*types.Pointer)
	return ok && p.Elem().String() == "bytes.Buffer"
}

// regionInputs lists what a loop may read from, regionAccs what it may append to.
func regionInputs(lp *loopInfo) []codecInput {
	var r []codecInput
	seen := map[codecInput]bool{}
	add := func(v ssa.Value, field int) {
		switch x := v.(type) {
		case ssa.Instruction:
			if lp.blocks[x.Block()] {
				return
			}
		case *ssa.Parameter, *ssa.FreeVar:
		default:
			return
		}
		k := codecInput{v, field}
		if !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				if b != lp.head || !isByteSlice(x.Type()) {
					continue
				}
				for j, e := range x.Edges {
					if !lp.blocks[b.Preds[j]] {
						add(e, -1)
					}
				}
			case *ssa.FieldAddr:
				if p, ok := x.Type().Underlying().(*types.Pointer); ok && isByteSlice(p.Elem()) {
					add(x.X, x.Field)
				}
			default:
				for _, o := range i.Operands(nil) {
					if *o != nil && isByteSlice((*o).Type()) {
						add(*o, -1)
					}
				}
			}
		}
	}
	return r
}

func regionAccs(lp *loopInfo) []ssa.Value {
	var r []ssa.Value
	for _, p := range phisOf(lp.head) {
		if !isByteSlice(p.Type()) {
			continue
		}
		for b := range lp.blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok && regionDerived(lp, p)[c] {
					if !containsVal(r, p) {
						r = append(r, p)
					}
				}
			}
		}
	}
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok && len(c.Call.Args) > 0 && !c.Call.IsInvoke() {
				v := c.Call.Args[0]
				x, def := v.(ssa.Instruction)
				if isBuffer(v) && def && !lp.blocks[x.Block()] && !containsVal(r, v) {
					r = append(r, v)
				}
			}
		}
	}
	return r
}

func containsVal(l []ssa.Value, v ssa.Value) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// regionDerived: the values made of an accumulated slice by appending to it.
func regionDerived(lp *loopInfo, acc ssa.Value) map[ssa.Value]bool {
	d := map[ssa.Value]bool{acc: true}
	for again := true; again; {
		again = false
		for b := range lp.blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || d[v] {
					continue
				}
				switch x := i.(type) {
				case *ssa.Phi:
					for j, e := range x.Edges {
						if d[e] && lp.blocks[b.Preds[j]] {
							d[v], again = true, true
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && d[x.Call.Args[0]] {
						d[v], again = true, true
					}
				}
			}
		}
	}
	return d
}

// onlyAppended: the loop does nothing with an accumulated slice or buffer but
// append to it.
func onlyAppended(lp *loopInfo, acc ssa.Value) bool {
	d := regionDerived(lp, acc)
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && d[x.Call.Args[0]] && !d[x.Call.Args[1]] {
					continue
				}
				if f := x.Call.StaticCallee(); f != nil && x.Call.Args != nil && len(x.Call.Args) == 2 && x.Call.Args[0] == acc && !d[x.Call.Args[1]] {
					switch fnName(f) {
					case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
						continue
					}
				}
			}
			for _, o := range i.Operands(nil) {
				if *o != nil && d[*o] {
					return false
				}
			}
		}
	}
	return true
}

// idlePhis: variables of the loop that neither what is appended nor the way
// through it depends on.
func idlePhis(lp *loopInfo, acc ssa.Value) []*ssa.Phi {
	live := map[ssa.Value]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		i, ok := v.(ssa.Instruction)
		if !ok || live[v] || !lp.blocks[i.Block()] {
			return
		}
		live[v] = true
		for _, o := range i.Operands(nil) {
			if *o != nil {
				mark(*o)
			}
		}
	}
	mark(acc)
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.If:
				mark(x.Cond)
			case *ssa.Store:
				mark(x.Addr)
				mark(x.Val)
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() == "copy" {
					for _, o := range i.Operands(nil) {
						if *o != nil {
							mark(*o)
						}
					}
				}
			}
		}
	}
	var r []*ssa.Phi
	for _, p := range phisOf(lp.head) {
		if !live[p] {
			r = append(r, p)
		}
	}
	return r
}

// regionProof: nil if the loop appends to acc the escaping (dec: unescaping)
// of its input and does nothing else with it; prefix: acc may hold something
// before.
func (P *Program) regionProof(f *ssa.Function, lp *loopInfo, acc ssa.Value, in codecInput, dec, prefix bool) (err error) {
	key := regionKey{lp.head, acc, in, dec, prefix}
	if e, ok := P.regions[key]; ok {
		return e
	}
	if P.regions == nil {
		P.regions = map[regionKey]error{}
	}
	defer func() { P.regions[key] = err }()
	if prefix && !onlyAppended(lp, acc) {
		return fmt.Errorf("the loop looks at what was there before")
	}
	c := &codec{P: P, dec: dec, done: map[string]bool{}, region: &codecRegion{head: lp.head, blocks: lp.blocks, acc: acc, idle: idlePhis(lp, acc)}}
	s := &cstate{start: true, bufs: map[int]cbuf{}, cells: map[int]cval{}, eq: map[[2]int64]bool{}}
	var pre *ssa.BasicBlock
	for _, b := range lp.head.Preds {
		if !lp.blocks[b] {
			if pre != nil {
				return fmt.Errorf("the loop is entered in several ways")
			}
			pre = b
		}
	}
	if pre == nil {
		return fmt.Errorf("the loop is not entered")
	}
	fr := &cframe{fn: f, env: map[ssa.Value]cval{}, blk: pre}
	s.frames = []*cframe{fr}
	whole := cval{kind: cView, hi: clin{l: 1}}
	if in.field < 0 {
		fr.env[in.v] = whole
	} else {
		c.ids++
		s.cells[c.ids] = whole
		t := cval{kind: cTuple}
		for range in.field {
			t.parts = append(t.parts, cval{})
		}
		t.parts = append(t.parts, cval{kind: cCell, id: c.ids})
		fr.env[in.v] = t
	}
	empty := cval{kind: cSlice, id: c.newBuf(s, cbuf{}), wholes: true}
	if p, ok := acc.(*ssa.Phi); ok {
		e := p.Edges[predIndex(lp.head, pre)]
		if e == in.v {
			return fmt.Errorf("the loop appends to what it reads")
		}
		if _, isConst := e.(*ssa.Const); !isConst {
			fr.env[e] = empty
		} else if prefix {
			return fmt.Errorf("the loop begins with nothing")
		}
	} else {
		c.ids++
		s.cells[c.ids] = empty
		fr.env[acc] = cval{kind: cBufr, id: c.ids}
	}
	// other values from before the loop
	err = c.tryWith(func() {
		tried := map[ssa.Value]bool{}
		var outer func(v ssa.Value, d int)
		outer = func(v ssa.Value, d int) {
			i, ok := v.(ssa.Instruction)
			if _, known := fr.env[v]; !ok || known || tried[v] || d > 6 || lp.blocks[i.Block()] {
				return
			}
			tried[v] = true
			pure := false
			switch x := v.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Slice, *ssa.FieldAddr:
				pure = true
			case *ssa.UnOp:
				_, fa := x.X.(*ssa.FieldAddr)
				_, gl := x.X.(*ssa.Global)
				pure = x.Op != token.MUL && x.Op != token.ARROW || fa || gl
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					outer(x.Call.Args[0], d+1)
					if fr.env[x.Call.Args[0]].kind == cView {
						c.call(s, fr, x)
					}
				}
				return
			}
			if !pure {
				return
			}
			for _, o := range i.Operands(nil) {
				if *o != nil {
					outer(*o, d+1)
				}
			}
			if r := c.eval(s, fr, i); r.kind != cSlice && r.kind != cView {
				fr.env[v] = r
			}
		}
		for b := range lp.blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if *o != nil {
						outer(*o, 0)
					}
				}
			}
		}
		if c.enter(s, fr, lp.head) {
			c.run(s)
		}
	})
	return err
}

// A loopCode: what a loop appends to a slice or buffer is the code of what it
// reads.
type loopCode struct {
	acc   ssa.Value
	dec   bool
	entry *Term // slice appended to, with its content then
	cont  *Term
	in    [3]*Term
}

// findCodes recognises escaping and unescaping loops. pre and fr are as the
// loop is entered.
func (in *Interp) findCodes(pre *State, fr *Frame, lp *loopInfo, phis []*ssa.Phi, entry []*Term) []loopCode {
	var r []loopCode
	accs := regionAccs(lp)
	if len(accs) == 0 || !in.P.isRepo(fr.fn) || len(lp.blocks) > 40 {
		return nil
	}
	if codecShape(fr.fn) && (in.P.codecProof(fr.fn, false) == nil || in.P.codecProof(fr.fn, true) == nil) {
		return nil // dealt with as a whole
	}
	inputs := regionInputs(lp)
	st := pre.clone()
accs:
	for _, acc := range accs {
		var e *Term
		if p, ok := acc.(*ssa.Phi); ok {
			for i := range phis {
				if phis[i] == p {
					e = entry[i]
				}
			}
		} else if b := fr.env[acc]; b != nil && b.Op == OAlloc {
			e = in.load(st, mkFieldAddr(b, 0, bufType), bufType)
		}
		if e == nil {
			continue
		}
		b, off, n, _ := sliceParts(st.k, e)
		if !e.isNil() && (e.Op != OSlice || b.root().Op != OAlloc || in.shared(b.root())) {
			continue // may be what is read
		}
		ln, isConst := constOf(st.k, n)
		prefix := !isConst || ln != 0
		for _, x := range inputs {
			var s *Term
			t := fr.env[x.v]
			if t == nil {
				continue
			}
			if x.field >= 0 {
				p, ok := x.v.Type().Underlying().(*types.Pointer)
				if !ok || structOf(p.Elem()) == nil || t.isNil() {
					continue
				}
				ft := structOf(p.Elem()).Field(x.field).Type()
				s = in.load(st, mkFieldAddr(t, x.field, ft), ft)
			} else {
				s = t
			}
			if s == nil || s == e {
				continue
			}
			sb, _, _, _ := sliceParts(st.k, s)
			if sb.root() == b.root() {
				continue
			}
			for _, dec := range []bool{false, true} {
				if in.P.regionProof(fr.fn, lp, acc, x, dec, prefix) != nil {
					continue
				}
				c, o, l := in.viewOf(st, s)
				lc := loopCode{acc: acc, dec: dec, entry: e, in: [3]*Term{c, o, l}}
				if !e.isNil() {
					lc.cont = in.content(st, b)
					lc.entry = mkSlice(b, off, n, n, e.Typ)
				}
				r = append(r, lc)
				continue accs
			}
		}
	}
	return r
}

var bufType = types.NewSlice(types.Typ[types.Byte])

// applyCodes: the loop is left through its head.
func (in *Interp) applyCodes(st *State, fr *Frame, lc *loopCtx) {
	pos := lc.li.head.Instrs[0].Pos()
	for _, x := range lc.codes {
		out := in.codedSlice(st, fr, pos, x.dec, x.in)
		e, r := x.entry, out
		empty := e.isNil()
		if !empty {
			v, ok := constOf(st.k, e.Args[2])
			empty = ok && v == 0
		}
		if !empty {
			a := freshAlloc("before", x.entry.Args[0].elemTyp(), nil)
			st.mem[a] = x.cont
			e = mkSlice(a, e.Args[1], e.Args[2], e.Args[3], e.Typ)
			r = in.appendOp(st, fr, pos, e, out, bufType)
		}
		if p, ok := x.acc.(*ssa.Phi); ok {
			fr.env[p] = r
		} else if b := fr.env[x.acc]; b != nil {
			in.store(st, mkFieldAddr(b, 0, bufType), r)
		}
	}
}

// codedSlice: new memory that holds the code of some bytes.
func (in *Interp) codedSlice(st *State, fr *Frame, pos token.Pos, dec bool, src [3]*Term) *Term {
	name := "escaped"
	if dec {
		name = "unescaped"
	}
	it := types.Typ[types.Int]
	n := mkPure("len:"+name, it, src[0], src[1], src[2])
	k := st.k
	k.z.add(nil, n, 0)
	lb, lo := src[2].lin()
	if !dec {
		k.z.add(lb, n, -lo) // at least as long
	}
	if v, ok := constOf(k, src[2]); ok && v == 0 {
		n = mkInt(0, it)
	}
	r := in.newSlice(st, bufType, n, n, name)
	st.mem[r.Args[0]] = mkPure(name, r.Args[0].Typ, src[0], src[1], src[2])
	in.event(st, fr, pos, Event{Kind: EvCoded, Name: name, OK: dec, Args: src[:], Cont: in.bytesOf(st, r)})
	return r
}
