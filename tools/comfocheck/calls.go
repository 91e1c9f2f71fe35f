package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolves the target of a call: fn is a function or closure term, or
// the receiver interface for an unresolved method (inv).
func (in *Interp) callee(st *State, fr *Frame, c *ssa.CallCommon) (fn *Term, args []*Term, inv *types.Func) {
	for _, a := range c.Args {
		args = append(args, in.get(fr, a))
	}
	if c.IsInvoke() {
		recv := in.get(fr, c.Value)
		return recv, args, c.Method
	}
	return in.get(fr, c.Value), args, nil
}

func (in *Interp) call(st *State, fr *Frame, pos token.Pos, c *ssa.CallCommon, fn *Term, args []*Term, inv *types.Func) []alt {
	if inv != nil {
		recv := fn
		if recv.Op == OIface {
			m := in.P.prog.LookupMethod(recv.Typ, inv.Pkg(), inv.Name())
			if m == nil {
				in.giveUp(fr, pos, "method %s of %s not found", inv.Name(), recv.Typ)
			}
			return in.callStatic(st, fr, pos, m, append([]*Term{recv.Args[0]}, args...), nil, c)
		}
		if recv.isNil() {
			in.oblig(st, fr, pos, "nil", false, "method call on nil interface")
			return []alt{{out: &Outcome{Kind: KPanic, St: st, Why: "nil interface"}}}
		}
		ok := st.k.nonNil(recv)
		in.oblig(st, fr, pos, "nil", ok, "method "+inv.Name()+" of interface "+recv.String())
		if !ok {
			st.k.assume(mkCmp(token.EQL, mkNil(nil), recv), false)
		}
		return in.opaqueCall(st, fr, pos, inv.FullName(), nil, recv, args, c.Signature())
	}
	switch {
	case fn.Op == OPure && strings.HasPrefix(fn.Name, "builtin:"):
		return in.builtin(st, fr, pos, strings.TrimPrefix(fn.Name, "builtin:"), args, c)
	case fn.Op == OFunc:
		return in.callStatic(st, fr, pos, fn.fn(), args, nil, c)
	case fn.Op == OClosure:
		return in.callStatic(st, fr, pos, fn.fn(), args, fn.Args, c)
	case fn.isNil():
		in.oblig(st, fr, pos, "nil", false, "call of nil function")
		return []alt{{out: &Outcome{Kind: KPanic, St: st, Why: "nil function"}}}
	case fn.Op == OPure && strings.HasPrefix(fn.Name, "method:"):
		return in.opaqueCall(st, fr, pos, strings.TrimPrefix(fn.Name, "method:"), nil, fn.Args[0], args, c.Signature())
	}
	if fn.Op == OPure && strings.HasPrefix(fn.Name, "option:") && in.applyOption(st, fn, args) {
		return one(st, mkTuple(nil))
	}
	ok := st.k.nonNil(fn)
	in.oblig(st, fr, pos, "nil", ok, "call of function value "+fn.String())
	return in.opaqueCall(st, fr, pos, "dynamic", nil, fn, args, c.Signature())
}

func (in *Interp) callStatic(st *State, fr *Frame, pos token.Pos, f *ssa.Function, args, bind []*Term, c *ssa.CallCommon) []alt {
	name := fnName(f)
	if m, ok := models[name]; ok {
		if r, ok := m(in, st, fr, pos, f, args); ok {
			return r
		}
	}
	if len(f.Blocks) == 0 || (in.opaque != nil && in.opaque(f)) {
		var recv *Term
		a := args
		if f.Signature.Recv() != nil && len(args) > 0 {
			recv, a = args[0], args[1:]
		}
		// a foreign method that only forwards to a known interface value
		return in.opaqueCall(st, fr, pos, name, f, recv, a, f.Signature)
	}
	outs := in.callFn(st, fr, f, args, bind, pos)
	return in.toAlts(outs)
}

func (in *Interp) toAlts(outs []Outcome) []alt {
	var res []alt
	for i := range outs {
		o := outs[i]
		if o.Kind == KRet {
			res = append(res, alt{st: o.St, val: o.Ret})
		} else {
			if o.Kind == KPanic {
				o.Frame = nil
			}
			res = append(res, alt{out: &o})
		}
	}
	return res
}

// opaqueCall records a call of foreign code.
func (in *Interp) opaqueCall(st *State, fr *Frame, pos token.Pos, name string, f *ssa.Function, recv *Term, args []*Term, sig *types.Signature) []alt {
	var all []*Term
	if recv != nil {
		all = append(all, recv)
	}
	all = append(all, args...)
	var conts []*Term
	for _, a := range all {
		conts = append(conts, in.snapshotArg(st, a))
	}
	pure := in.P.isPure(name, f)
	ev := in.event(st, fr, pos, Event{Kind: EvCall, Name: name, Callee: f, Recv: recv, Args: args, Cont: mkTuple(conts)})
	ev.Mem = sharedMem(st)
	res := sig.Results()
	if detFuncs[name] {
		if res.Len() == 1 {
			ev.Res = mkPure(name, res.At(0).Type(), append(append([]*Term{}, all...), dataOf(conts)...)...)
		}
	}
	if name == "errors.Join" {
		if parts := joinParts(ev); parts != nil {
			allNil := true
			for _, p := range parts {
				if st.k.nonNil(p) {
					ev.Res = freshSym("joined", res.At(0).Type())
					ev.Res.Org = ev
					ev.Res.NonNil = true
					break
				}
				allNil = allNil && st.k.isNil(p)
			}
			if ev.Res == nil && allNil {
				ev.Res = mkNil(res.At(0).Type())
			}
		}
	}
	if ev.Res == nil {
		switch res.Len() {
		case 0:
			ev.Res = mkTuple(nil)
		case 1:
			s := freshSym(shortCall(name), res.At(0).Type())
			s.Org = ev
			if isErrorType(res.At(0).Type()) {
				s.NonNil = errMakers[name]
			} else if isNilable(res.At(0).Type()) && f != nil && !in.P.isRepo(f) {
				_, isSlice := res.At(0).Type().Underlying().(*types.Slice)
				s.NonNil = !isSlice
			} else if isNilable(res.At(0).Type()) && nonNilMethods[name] {
				s.NonNil = true
			}
			if errMakers[name] {
				s.NonNil = true
			}
			if strings.HasSuffix(name, "context.Context).Err") {
				// a context that is done has a reason
				for p := ev.Prev; p != nil && !s.NonNil; p = p.Prev {
					s.NonNil = p.Kind == EvRecv && isDone(p.Addr) && p.Addr.Org.Recv == recv
				}
			}
			ev.Res = s
		default:
			s := freshSym(shortCall(name), res)
			s.Org = ev
			ev.Res = s
		}
	}
	if !pure {
		in.havocArgs(st, fr, all)
	}
	if in.onOpaque != nil {
		in.onOpaque(in, st, ev)
	}
	if exitFuncs[name] {
		in.event(st, fr, pos, Event{Kind: EvExit, Name: name, Args: args})
		return []alt{{out: &Outcome{Kind: KExit, St: st, Why: name}}}
	}
	if in.stopAt != nil && in.stopAt(ev) {
		return []alt{{out: &Outcome{Kind: KStop, St: st, Why: name}}}
	}
	out := []alt{{st: st, val: ev.Res}}
	return out
}

func dataOf(c []*Term) []*Term {
	var r []*Term
	for _, x := range c {
		if x != nil && !(x.Op == OConst && x.C == nil) {
			r = append(r, x)
		}
	}
	return r
}

func shortCall(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// snapshotArg describes what an argument refers to at call time: the bytes of
// a slice, the pointee of a pointer to local memory.
func (in *Interp) snapshotArg(st *State, a *Term) *Term {
	if a.Op == OIface {
		a = a.Args[0]
	}
	switch a.Op {
	case OSlice:
		return mkPure("view", nil, in.content(st, a.Args[0]), a.Args[1], a.Args[2])
	case OAlloc:
		if c, ok := st.mem[a]; ok {
			return c
		}
		if c, ok := in.P.initMem[a]; ok {
			return c
		}
	case OSym, OField, OIndex:
		if a.Typ != nil {
			if _, ok := a.Typ.Underlying().(*types.Slice); ok {
				b, off, ln, _ := sliceParts(st.k, a)
				return mkPure("view", nil, in.content(st, b), off, ln)
			}
		}
	}
	// a struct: what its fields refer to
	if t := a.Typ; t != nil && structOf(t) != nil && (a.Op == OStruct || a.Op == OSym || a.Op == OField) {
		var f []*Term
		some := false
		for i := 0; i < structOf(t).NumFields(); i++ {
			ft := structOf(t).Field(i).Type()
			x := mkNil(nil)
			if _, ok := ft.Underlying().(*types.Slice); ok {
				x = in.snapshotArg(st, mkField(a, i, ft))
			}
			some = some || !x.isNil()
			f = append(f, x)
		}
		if some {
			return mkPure("snap", nil, f...)
		}
	}
	return mkNil(nil)
}

// havocArgs forgets local memory a foreign function may have changed.
func (in *Interp) havocArgs(st *State, fr *Frame, args []*Term) {
	seen := map[*Term]bool{}
	var visit func(t *Term, mem bool)
	visit = func(t *Term, mem bool) {
		t.walk(func(x *Term) bool {
			var root *Term
			switch x.Op {
			case OFieldAddr, OIndexAddr:
				root = x.root()
			case OAlloc, OData:
				root = x
			case OClosure:
				return true
			}
			if root == nil || seen[root] {
				return true
			}
			seen[root] = true
			if c, ok := st.chans[root]; ok {
				c2 := *c
				c2.escaped = true
				st.chans[root] = &c2
			}
			if in.P.initMem[root] != nil && !in.P.mutable[root] {
				return true
			}
			if c, ok := st.mem[root]; ok && root.Op == OAlloc {
				visit(c, true)
				n := freshSym("ext", root.elemTyp())
				n.Src, n.By = root, st.ev
				st.mem[root] = n
			}
			return true
		})
	}
	for _, a := range args {
		visit(a, false)
	}
}

func sharedMem(st *State) map[*Term]*Term {
	if len(st.dirty) == 0 {
		return nil
	}
	m := map[*Term]*Term{}
	for r := range st.dirty {
		m[r] = st.mem[r]
	}
	return m
}

// forget drops knowledge about shared memory other goroutines may change,
// except what a held lock protects.
func (in *Interp) forget(st *State) {
	for r := range st.mem {
		if !in.shared(r) || in.P.private[r] {
			continue
		}
		if r.Op == OSym || r.Op == OData || r.Op == OField || r.Op == OPure || r.Op == OIndex {
			continue // arguments of the call belong to it
		}
		if in.P.protected(r, st.held) {
			continue
		}
		delete(st.mem, r)
	}
}

// ---- builtins ----

func (in *Interp) builtin(st *State, fr *Frame, pos token.Pos, name string, args []*Term, c *ssa.CallCommon) []alt {
	k := st.k
	it := types.Typ[types.Int]
	switch name {
	case "len":
		return one(st, in.lenOf(st, args[0]))
	case "cap":
		if args[0].Op == OAlloc {
			if ch, ok := st.chans[args[0]]; ok {
				return one(st, ch.cap)
			}
		}
		_, _, _, cp := sliceParts(k, args[0])
		return one(st, cp)
	case "append":
		return one(st, in.appendOp(st, fr, pos, args[0], args[1], c.Signature().Results().At(0).Type()))
	case "copy":
		return one(st, in.copyOp(st, fr, pos, args[0], args[1]))
	case "min", "max":
		r := args[0]
		alts := []alt{{st: st, val: r}}
		for _, a := range args[1:] {
			var next []alt
			for _, al := range alts {
				op := token.LSS
				cnd := al.st.k.cmp(op, a, al.val, c.Args[0].Type())
				if name == "max" {
					cnd = al.st.k.cmp(op, al.val, a, c.Args[0].Type())
				}
				s2 := al.st.clone()
				if s2.k.assume(cnd, true) {
					next = append(next, alt{st: s2, val: a})
				}
				if al.st.k.assume(cnd, false) {
					next = append(next, al)
				}
			}
			alts = next
		}
		return alts
	case "delete":
		m := args[0]
		if in.shared(m.root()) {
			in.event(st, fr, pos, Event{Kind: EvStore, Addr: m, Name: "map"})
		}
		if !m.isNil() {
			st.mem[m] = freshSym("map", nil)
		}
		return one(st, nil)
	case "clear":
		a := args[0]
		if a.Op == OSlice {
			if in.shared(a.Args[0].root()) {
				in.event(st, fr, pos, Event{Kind: EvStore, Addr: a.Args[0], Name: "clear"})
			}
			st.mem[a.Args[0].root()] = freshSym("cleared", a.Args[0].root().elemTyp())
		} else if !a.isNil() {
			st.mem[a] = mkPure("map", nil)
		}
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "panic":
		in.oblig(st, fr, pos, "panic", false, "explicit panic is reachable")
		return []alt{{out: &Outcome{Kind: KPanic, St: st, Why: "explicit panic"}}}
	case "recover":
		if st.panicking != nil {
			p := st.panicking
			st.recovered = true
			return one(st, p)
		}
		return one(st, mkNil(nil))
	case "close":
		ch := args[0]
		in.event(st, fr, pos, Event{Kind: EvClose, Addr: ch})
		if s, ok := st.chans[ch]; ok {
			n := *s
			if n.closed {
				in.oblig(st, fr, pos, "close", false, "close of closed channel")
			}
			n.closed = true
			st.chans[ch] = &n
		}
		return one(st, nil)
	case "ssa:wrapnilchk":
		in.nilCheck(st, fr, pos, args[0], "method of nil pointer")
		return one(st, args[0])
	case "real", "imag", "complex":
		return one(st, mkPure(name, c.Signature().Results().At(0).Type(), args...))
	case "String", "StringData", "Slice", "SliceData", "Add":
		return one(st, freshSym("unsafe", c.Signature().Results().At(0).Type()))
	}
	_ = it
	in.giveUp(fr, pos, "builtin %s", name)
	return nil
}

func (in *Interp) lenOf(st *State, x *Term) *Term {
	if x.Op == OAlloc || x.Op == OGlobal || x.Op == OFieldAddr || x.Op == OIndexAddr {
		if _, ok := st.chans[x]; !ok {
			if m := in.contentIfMap(st, x); m != nil {
				return mkInt(int64(len(m.Args)/2), types.Typ[types.Int])
			}
		}
	}
	return in.length(st, x)
}

func (in *Interp) contentIfMap(st *State, x *Term) *Term {
	c := in.content(st, x)
	if c.Op == OPure && c.Name == "map" {
		return c
	}
	return nil
}

// elems lists the elements of a slice of known short length.
func (in *Interp) elems(st *State, s *Term, et types.Type) ([]*Term, bool) {
	if s.isNil() {
		return nil, true
	}
	var c, off, ln *Term
	if isString(s.Typ) && s.Op != OSlice {
		ln = in.length(st, s)
		off = mkInt(0, nil)
		c = s
		if s.Op == OPure && s.Name == "bytes2str" {
			c, off = s.Args[0], s.Args[1]
		}
	} else {
		var b *Term
		b, off, ln, _ = sliceParts(st.k, s)
		if v, ok := constOf(st.k, ln); ok && v == 0 {
			return nil, true
		}
		c = in.content(st, b)
	}
	n, ok := constOf(st.k, ln)
	if !ok || n > maxArr {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		r = append(r, readIdx(st.k, c, addInt(st.k, off, mkInt(i, nil)), et))
	}
	return r, true
}

// viewOf returns content and offset such that element i of the slice is
// content[off+i].
func (in *Interp) viewOf(st *State, s *Term) (c, off, ln *Term) {
	if isString(s.Typ) && s.Op != OSlice {
		if s.Op == OPure && s.Name == "bytes2str" {
			return s.Args[0], s.Args[1], s.Args[2]
		}
		return s, mkInt(0, nil), in.length(st, s)
	}
	b, off, ln, _ := sliceParts(st.k, s)
	return in.content(st, b), off, ln
}

func (in *Interp) appendOp(st *State, fr *Frame, pos token.Pos, a, b *Term, t types.Type) *Term {
	k := st.k
	et := t.Underlying().(*types.Slice).Elem()
	_, _, la, ca := sliceParts(k, a)
	var lb *Term
	if isString(b.Typ) && b.Op != OSlice {
		lb = in.length(st, b)
	} else {
		_, _, lb, _ = sliceParts(k, b)
	}
	if v, ok := constOf(k, lb); ok && v == 0 {
		return a
	}
	ln := addInt(k, la, lb)
	// spare capacity: the elements may be written to the shared array
	if a.Op == OSlice && !k.z.leq(ca, la, 0) {
		root := a.Args[0].root()
		if in.shared(root) {
			in.event(st, fr, pos, Event{Kind: EvStore, Addr: a.Args[0], Name: "append", Msg: "append may write into spare capacity"})
		}
	} else if a.Op != OSlice && !a.isNil() && !k.z.leq(ca, la, 0) {
		in.event(st, fr, pos, Event{Kind: EvStore, Addr: mkData(a, nil), Name: "append", Msg: "append may write into spare capacity"})
	}
	ea, ok1 := in.elems(st, a, et)
	eb, ok2 := in.elems(st, b, et)
	cp := freshSym("cap", types.Typ[types.Int])
	bl, ol := ln.lin()
	k.z.add(bl, cp, -ol)
	bc, bo, _ := in.viewOf(st, b)
	ac, ao, _ := in.viewOf(st, a)
	if !k.z.leq(ca, la, 0) {
		// the elements may be written in place, behind what a covers
		root, _, _, _ := sliceParts(k, a)
		if root = root.root(); root.Op == OAlloc || root.Op == OData {
			if lo, ok := addInt(k, ao, la).intConst(); !ok || lo != 0 || root.Op != OAlloc || in.shared(root) {
				n := freshSym("appended", root.elemTyp())
				n.Src = root
				st.mem[root] = n
			}
		}
	}
	if ok1 && ok2 && len(ea)+len(eb) <= maxArr {
		el := append(append([]*Term{}, ea...), eb...)
		at := types.NewArray(et, int64(len(el)))
		arr := freshAlloc("append", at, nil)
		st.mem[arr] = mkArray(at, el)
		return mkSlice(arr, mkInt(0, nil), mkInt(int64(len(el)), types.Typ[types.Int]), cp, t)
	}
	if v, ok := ao.intConst(); !ok || v != 0 {
		ac = mkPure("sub", nil, ac, ao)
	}
	at := types.NewArray(et, -1)
	arr := freshAlloc("append", at, nil)
	st.mem[arr] = T.mk(Term{Op: OAppend, Args: []*Term{ac, la, bc, bo, lb}, Typ: at}, "app")
	r := mkSlice(arr, mkInt(0, nil), ln, cp, t)
	if a.isNil() {
		// appending nothing to nil gives nil; callers only look at the bytes
		r.NonNil = true
	}
	return r
}

func (in *Interp) copyOp(st *State, fr *Frame, pos token.Pos, d, s *Term) *Term {
	k := st.k
	if d.isNil() || s.isNil() {
		return mkInt(0, types.Typ[types.Int])
	}
	b, off, ld, _ := sliceParts(k, d)
	var et types.Type = types.Typ[types.Byte]
	if d.Typ != nil {
		if sl, ok := d.Typ.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	}
	sc, so, ls := in.viewOf(st, s)
	if in.shared(b.root()) {
		in.event(st, fr, pos, Event{Kind: EvStore, Addr: b, Name: "copy"})
	}
	var n *Term
	switch {
	case k.z.leq(ls, ld, 0):
		n = ls
	case k.z.leq(ld, ls, 0):
		n = ld
	default:
		n = freshSym("copied", types.Typ[types.Int])
		k.z.add(nil, n, 0)
		for _, l := range []*Term{ls, ld} {
			bl, ol := l.lin()
			k.z.add(n, bl, ol)
		}
	}
	old := in.content(st, b.root())
	if b != b.root() {
		st.mem[b.root()] = freshSym("copied", b.root().elemTyp())
		return n
	}
	if v, ok := constOf(k, n); ok && v <= maxArr {
		var vals []*Term
		for i := int64(0); i < v; i++ {
			vals = append(vals, readIdx(k, sc, addInt(k, so, mkInt(i, nil)), et))
		}
		c := old
		for i := int64(0); i < v; i++ {
			c = storeIdx(k, c, addInt(k, off, mkInt(i, nil)), vals[i])
		}
		st.mem[b] = c
		return mkInt(v, types.Typ[types.Int])
	}
	st.mem[b] = T.mk(Term{Op: OPure, Name: "cpy", Typ: old.Typ, Args: []*Term{old, off, sc, so, n}}, "cpy")
	return n
}

// ---- locks ----

func (in *Interp) lock(st *State, fr *Frame, pos token.Pos, l *Term, mode byte) []alt {
	for _, h := range st.held {
		if h.Lock == l && !(h.Mode == 'r' && mode == 'r' && false) {
			in.event(st, fr, pos, Event{Kind: EvOblig, Name: "relock", OK: false, Msg: "acquires " + l.String() + " while holding it", Addr: l})
			return []alt{{out: &Outcome{Kind: KBlocked, St: st, Why: "relock"}}}
		}
	}
	in.forget(st)
	ev := in.event(st, fr, pos, Event{Kind: EvLock, Addr: l, Mode: mode})
	st.held = append(st.held[:len(st.held):len(st.held)], Held{l, mode, ev})
	if len(st.held) == 1 {
		st.dirty = map[*Term]bool{}
	}
	return one(st, mkTuple(nil))
}

func (in *Interp) unlock(st *State, fr *Frame, pos token.Pos, l *Term, mode byte) []alt {
	for i, h := range st.held {
		if h.Lock == l && h.Mode == mode {
			ev := in.event(st, fr, pos, Event{Kind: EvUnlock, Addr: l, Mode: mode, Match: h.Ev})
			ev.Mem = sharedMem(st)
			n := append([]Held{}, st.held[:i]...)
			st.held = append(n, st.held[i+1:]...)
			in.forget(st)
			return one(st, mkTuple(nil))
		}
	}
	in.event(st, fr, pos, Event{Kind: EvOblig, Name: "unlock", OK: false, Msg: "releases " + l.String() + " without holding it", Addr: l})
	return []alt{{out: &Outcome{Kind: KPanic, St: st, Why: "unlock of unlocked mutex"}}}
}

// ---- goroutines and channels ----

func (in *Interp) goStmt(st *State, fr *Frame, i *ssa.Go) []alt {
	fn, args, inv := in.callee(st, fr, i.Common())
	var f *ssa.Function
	switch {
	case inv == nil && (fn.Op == OFunc || fn.Op == OClosure):
		f = fn.fn()
	case inv != nil && fn.Op == OIface:
		f = in.P.prog.LookupMethod(fn.Typ, inv.Pkg(), inv.Name())
		args = append([]*Term{fn.Args[0]}, args...)
	}
	ev := in.event(st, fr, i.Pos(), Event{Kind: EvGo, Callee: f, Args: args, Addr: fn})
	if f != nil {
		ev.Name = fnName(f)
	}
	ev.Mem = sharedMem(st)
	ev.Heap = maps.Clone(st.mem)
	if f == nil || len(f.Blocks) == 0 {
		return one(st, nil)
	}
	if in.spawned != nil {
		in.spawned[fn] = ev
	}
	if !canReturn(f) || (in.opaque != nil && in.opaque(f)) {
		return one(st, nil) // analysed as a thread of its own
	}
	st.threads++
	saveHeld, saveThread := st.held, st.thread
	st.held = nil
	st.thread = ev.N
	var bind []*Term
	if fn.Op == OClosure {
		bind = fn.Args
	}
	before := st.clone()
	outs := in.callFn(st, fr, f, args, bind, i.Pos())
	var res []alt
	for _, o := range outs {
		switch o.Kind {
		case KRet:
			if len(o.St.held) > 0 {
				in.event(o.St, fr, i.Pos(), Event{Kind: EvOblig, Name: "unreleased", Msg: "goroutine ends holding " + o.St.held[0].Lock.String()})
			}
			o.St.held = saveHeld
			o.St.thread = saveThread
			res = append(res, alt{st: o.St})
		case KPanic:
			in.event(o.St, fr, i.Pos(), Event{Kind: EvOblig, Name: "panic", Msg: "goroutine panics: " + o.Why})
			o2 := o
			o2.Kind = KExit
			res = append(res, alt{out: &o2})
		default:
			o2 := o
			if o.Kind == KBlocked {
				o.St.held = saveHeld
				o.St.thread = saveThread
				res = append(res, alt{st: o.St})
				continue
			}
			res = append(res, alt{out: &o2})
		}
	}
	hasRet := false
	for _, a := range res {
		if a.out == nil {
			hasRet = true
		}
	}
	if !hasRet {
		before.held = saveHeld
		before.thread = saveThread
		res = append(res, alt{st: before})
	}
	return res
}

// canReturn: some return is reachable in the control flow graph.
func canReturn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
	}
	return false
}

func (in *Interp) send(st *State, fr *Frame, pos token.Pos, ch, v *Term) []alt {
	if ch.isNil() {
		in.event(st, fr, pos, Event{Kind: EvBlocked, Msg: "send on nil channel"})
		return []alt{{out: &Outcome{Kind: KBlocked, St: st, Why: "send on nil channel"}}}
	}
	var res []alt
	for _, s := range in.splitBool(st, v) {
		res = append(res, in.send1(s.st, fr, pos, ch, s.val)...)
	}
	return res
}

// splitBool gives one alternative per truth value of an undecided condition.
func (in *Interp) splitBool(st *State, v *Term) []alt {
	if v == nil || !isBoolT(v) {
		return one(st, v)
	}
	v = st.k.decide(v)
	if _, ok := v.boolConst(); ok {
		return one(st, v)
	}
	if v.Op == OSym || v.Op == OField && v.Args[0].Op == OSym {
		return one(st, v) // a plain unknown stays one
	}
	var res []alt
	s := st.clone()
	if s.k.assume(v, true) {
		res = append(res, alt{st: s, val: mkBool(true)})
	}
	if st.k.assume(v, false) {
		res = append(res, alt{st: st, val: mkBool(false)})
	}
	return res
}

func (in *Interp) send1(st *State, fr *Frame, pos token.Pos, ch, v *Term) []alt {
	ev := in.event(st, fr, pos, Event{Kind: EvSend, Addr: ch, Val: v})
	ev.Mem = sharedMem(st)
	if c, ok := st.chans[ch]; ok {
		n := *c
		if n.closed {
			in.oblig(st, fr, pos, "send", false, "send on closed channel")
		}
		ev.Cap = n.cap
		n.pending = append(n.pending[:len(n.pending):len(n.pending)], pend{v, ev})
		st.chans[ch] = &n
		if st.thread == 0 && !n.escaped {
			if cv, ok := n.cap.intConst(); ok && int64(len(n.pending)) > cv {
				// nobody can take it unless a running goroutine does
				ev.Msg = "main-send"
			}
		}
	} else {
		if c, ok := in.P.initChans[ch]; ok {
			ev.Cap = c.cap
		}
		in.forget(st)
	}
	return one(st, nil)
}

func (in *Interp) recv(st *State, fr *Frame, pos token.Pos, ch *Term, commaOk bool, t types.Type) []alt {
	et := t
	if commaOk {
		et = t.(*types.Tuple).At(0).Type()
	}
	wrap := func(v *Term, ok *Term) *Term {
		if commaOk {
			return mkTuple([]*Term{v, ok})
		}
		return v
	}
	if ch.isNil() {
		in.event(st, fr, pos, Event{Kind: EvBlocked, Msg: "receive from nil channel"})
		return []alt{{out: &Outcome{Kind: KBlocked, St: st, Why: "receive from nil channel"}}}
	}
	v, ok, avail := in.take(st, fr, pos, ch, et)
	if st.thread != 0 && et.String() == "os.Signal" {
		avail = false // what a signal sets off is not part of any run considered
	}
	if !avail {
		in.event(st, fr, pos, Event{Kind: EvBlocked, Msg: "receive from channel nobody sends on", Addr: ch})
		return []alt{{out: &Outcome{Kind: KBlocked, St: st, Why: "receive blocks for ever"}}}
	}
	return one(st, wrap(v, ok))
}

// take receives one value from a channel.
func (in *Interp) take(st *State, fr *Frame, pos token.Pos, ch *Term, et types.Type) (v, ok *Term, avail bool) {
	if c, have := st.chans[ch]; have {
		if len(c.pending) > 0 {
			n := *c
			p := n.pending[0]
			n.pending = append([]pend{}, n.pending[1:]...)
			st.chans[ch] = &n
			in.event(st, fr, pos, Event{Kind: EvRecv, Addr: ch, Val: p.val, Match: p.ev})
			return p.val, mkBool(true), true
		}
		if c.closed {
			in.event(st, fr, pos, Event{Kind: EvRecv, Addr: ch, Val: zeroTerm(et)})
			return zeroTerm(et), mkBool(false), true
		}
		if !c.escaped {
			return nil, nil, false
		}
	}
	v = freshSym("recv", et)
	ev := in.event(st, fr, pos, Event{Kind: EvRecv, Addr: ch, Val: v})
	ev.Mem = sharedMem(st)
	v.Org = ev
	in.forget(st)
	return v, freshSym("recvok", types.Typ[types.Bool]), true
}

func (in *Interp) sel(st *State, fr *Frame, i *ssa.Select) []alt {
	tt := i.Type().(*types.Tuple)
	var chans []*Term
	for _, s := range i.States {
		chans = append(chans, in.get(fr, s.Chan))
	}
	fork := in.event(st, fr, i.Pos(), Event{Kind: EvFork, Cases: chans})
	if !i.Blocking {
		fork.Mode = 'd'
	}
	var res []alt
	nrecv := 0
	for n, s := range i.States {
		ch := chans[n]
		my := st.clone()
		idx := mkInt(int64(n), types.Typ[types.Int])
		if s.Dir == types.RecvOnly {
			slot := nrecv
			nrecv++
			if ch.isNil() {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			v, ok, avail := in.take(my, fr, i.Pos(), ch, et)
			if !avail {
				continue
			}
			tup := []*Term{idx, ok}
			for j := 2; j < tt.Len(); j++ {
				if j-2 == slot {
					tup = append(tup, v)
				} else {
					tup = append(tup, zeroTerm(tt.At(j).Type()))
				}
			}
			res = append(res, alt{st: my, val: mkTuple(tup)})
			continue
		}
		if ch.isNil() {
			continue
		}
		for _, a := range in.send1(my, fr, i.Pos(), ch, in.get(fr, s.Send)) {
			tup := []*Term{idx, mkBool(false)}
			for j := 2; j < tt.Len(); j++ {
				tup = append(tup, zeroTerm(tt.At(j).Type()))
			}
			if a.out == nil {
				a.val = mkTuple(tup)
			}
			res = append(res, a)
		}
	}
	if !i.Blocking {
		tup := []*Term{mkInt(-1, types.Typ[types.Int]), mkBool(false)}
		for j := 2; j < tt.Len(); j++ {
			tup = append(tup, zeroTerm(tt.At(j).Type()))
		}
		res = append(res, alt{st: st, val: mkTuple(tup)})
	}
	if len(res) == 0 {
		in.event(st, fr, i.Pos(), Event{Kind: EvBlocked, Msg: "select blocks for ever"})
		return []alt{{out: &Outcome{Kind: KBlocked, St: st, Why: "select blocks for ever"}}}
	}
	return res
}

// ---- models of library functions ----

type model func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool)

var models map[string]model

func lockModel(mode byte) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		in.nilCheck(st, fr, pos, args[0], "lock of nil mutex")
		return in.lock(st, fr, pos, args[0], mode), true
	}
}
func unlockModel(mode byte) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		return in.unlock(st, fr, pos, args[0], mode), true
	}
}
func tryModel(mode byte) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		s := st.clone()
		res := []alt{{st: s, val: mkBool(false)}}
		for _, h := range st.held {
			if h.Lock == args[0] {
				return res, true
			}
		}
		for _, a := range in.lock(st, fr, pos, args[0], mode) {
			if a.out == nil {
				a.val = mkBool(true)
			}
			res = append(res, a)
		}
		return res, true
	}
}

func beModel(n int64, little bool) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		b := args[len(args)-1]
		c, off, ln := in.viewOf(st, b)
		ok := st.k.z.leq(mkInt(n, nil), ln, 0)
		in.oblig(st, fr, pos, "index", ok, fmt.Sprintf("%s needs %d bytes, has %s", fnName(f), n, ln))
		var el []*Term
		for i := int64(0); i < n; i++ {
			el = append(el, readIdx(st.k, c, addInt(st.k, off, mkInt(i, nil)), types.Typ[types.Byte]))
		}
		if little {
			for i, j := 0, len(el)-1; i < j; i, j = i+1, j-1 {
				el[i], el[j] = el[j], el[i]
			}
		}
		for len(el) > 2 {
			if v, ok := el[0].intConst(); !ok || v != 0 {
				break
			}
			el = el[1:]
		}
		hi := int64(1)<<(8*uint(len(el))) - 1
		if n == 8 && len(el) == 8 {
			hi = inf
		}
		t := mkPure("be", f.Signature.Results().At(0).Type(), el...)
		if !t.ranged {
			t.lo, t.hi, t.ranged = 0, hi, true
		}
		return one(st, t), true
	}
}

func init() {
	models = map[string]model{
		"(*sync.Mutex).Lock":       lockModel('w'),
		"(*sync.Mutex).Unlock":     unlockModel('w'),
		"(*sync.Mutex).TryLock":    tryModel('w'),
		"(*sync.RWMutex).Lock":     lockModel('w'),
		"(*sync.RWMutex).Unlock":   unlockModel('w'),
		"(*sync.RWMutex).RLock":    lockModel('r'),
		"(*sync.RWMutex).RUnlock":  unlockModel('r'),
		"(*sync.RWMutex).TryLock":  tryModel('w'),
		"(*sync.RWMutex).TryRLock": tryModel('r'),

		"(encoding/binary.bigEndian).Uint16":    beModel(2, false),
		"(encoding/binary.bigEndian).Uint32":    beModel(4, false),
		"(encoding/binary.bigEndian).Uint64":    beModel(8, false),
		"(encoding/binary.littleEndian).Uint16": beModel(2, true),
		"(encoding/binary.littleEndian).Uint32": beModel(4, true),
		"(encoding/binary.littleEndian).Uint64": beModel(8, true),

		"(*sync.Once).Do":                   onceModel,
		"(*bufio.Scanner).Scan":             scanModel,
		"(*bufio.Scanner).Split":            splitModel,
		"(*bufio.Scanner).Buffer":           splitModel,
		"(*bufio.Scanner).Bytes":            scanBytesModel,
		"(*bufio.Scanner).Text":             scanTextModel,
		"(*bufio.Scanner).Err":              scanErrModel,
		"(*net/http.HandlerFunc).ServeHTTP": nil,
		"bytes.IndexByte":                   indexModel(1),
		"bytes.Index":                       indexModel(0),
		"strings.IndexByte":                 indexModel(1),
		"strings.Index":                     indexModel(0),
		"strings.LastIndex":                 indexModel(0),
		"strings.LastIndexByte":             indexModel(1),
		"bytes.LastIndex":                   indexModel(0),
		"bytes.LastIndexByte":               indexModel(1),
		"strings.IndexRune":                 indexModel(1),
		"strings.IndexAny":                  indexModel(0),
		"bytes.Count":                       countModel,
		"bytes.Equal":                       matchModel(0),
		"bytes.HasPrefix":                   matchModel(1),
		"bytes.HasSuffix":                   matchModel(2),
		"bytes.TrimSpace":                   textModel,
		"bytes.Trim":                        textModel,
		"bytes.TrimLeft":                    textModel,
		"bytes.TrimRight":                   textModel,
		"bytes.TrimPrefix":                  textModel,
		"bytes.TrimSuffix":                  textModel,
		"bytes.TrimFunc":                    textModel,
		"bytes.ToValidUTF8":                 textModel,
		"bytes.ToLower":                     textModel,
		"bytes.ToUpper":                     textModel,
		"errors.New":                        errNewModel,
		"errors.As":                         errorsAsModel,
		"(*github.com/twitchtv/twirp.ServerOptions).ReadOpt": readOptModel,
		"(*github.com/twitchtv/twirp.ClientOptions).ReadOpt": readOptModel,
		"path.Join": pathJoinModel,
		"github.com/twitchtv/twirp.ChainInterceptors": chainModel,
		"(net/http.HandlerFunc).ServeHTTP":            handlerFuncModel,
	}
	delete(models, "(*net/http.HandlerFunc).ServeHTTP")
}

func handlerFuncModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	h := args[0]
	if (h.Op == OFunc || h.Op == OClosure) && len(h.fn().Blocks) > 0 {
		return in.callStatic(st, fr, pos, h.fn(), args[1:], h.Args, nil), true
	}
	return nil, false
}

func errNewModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	s := freshAlloc("error("+args[0].String()+")", types.Typ[types.String], nil)
	s.Args = args
	return one(st, mkIface(in.P.errType, s)), true
}

// errorsAsModel: on success the target holds an error found in the chain.
func errorsAsModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	p := args[1]
	for p.Op == OIface {
		p = p.Args[0]
	}
	if p.Op != OAlloc {
		return nil, false
	}
	ev := in.event(st, fr, pos, Event{Kind: EvCall, Name: fnName(f), Callee: f, Args: args})
	no := st.clone()
	ev.Res = mkBool(true)
	v := freshSym("found", p.elemTyp())
	v.Org, v.NonNil = ev, true
	st.mem[p] = v
	return []alt{{st: st, val: mkBool(true)}, {st: no, val: mkBool(false)}}, true
}

// readOptModel: options that hold nothing have no setting.
func readOptModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	if args[0].Op != OAlloc {
		return nil, false
	}
	m := contField(in.content(st, args[0]), "m")
	if m == nil || !m.isNil() {
		return nil, false
	}
	return one(st, mkBool(false)), true
}

func onceModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	s := st.clone()
	res := []alt{{st: s, val: mkTuple(nil)}}
	return append(res, in.call(st, fr, pos, nil2common, args[1], nil, nil)...), true
}

var nil2common = &ssa.CallCommon{}

// indexModel: a position within the first argument or -1.
func countModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	c, off, ln := in.viewOf(st, args[0])
	c2, o2, l2 := in.viewOf(st, args[1])
	r := mkPure(fnName(f), types.Typ[types.Int], c, off, ln, c2, o2, l2)
	if !r.ranged {
		r.lo, r.hi, r.ranged = 0, inf-2048, true
	}
	st.k.z.add(r, ln, 1)
	return []alt{{st: st, val: r}}, true
}

func indexModel(width int64) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		c, off, ln := in.viewOf(st, args[0])
		a := []*Term{c, off, ln}
		if isString(args[1].Typ) || isInteger(args[1].Typ) {
			a = append(a, args[1])
		} else {
			c2, o2, l2 := in.viewOf(st, args[1])
			a = append(a, c2, o2, l2)
		}
		r := mkPure(fnName(f), types.Typ[types.Int], a...)
		if !r.ranged {
			r.lo, r.hi, r.ranged = -1, inf-2048, true
		}
		w := mkInt(width, nil)
		if width == 0 {
			if isString(args[1].Typ) {
				w = in.length(st, args[1])
			} else {
				_, _, w = in.viewOf(st, args[1])
			}
		}
		// r == -1, or 0 <= r <= len-w
		s := st.clone()
		var res []alt
		it := types.Typ[types.Int]
		if s.k.assume(s.k.cmp(token.EQL, r, mkInt(-1, nil), it), true) {
			res = append(res, alt{st: s, val: r})
		}
		if st.k.assume(st.k.cmp(token.LSS, r, mkInt(0, nil), it), false) &&
			st.k.assume(st.k.cmp(token.LSS, subInt(st.k, ln, w), r, it), false) {
			k := st.k
			at := addInt(k, off, r)
			if z, ok := constOf(k, off); !ok || z != 0 {
				// the same of the position in the whole
				k.assume(k.cmp(token.LSS, at, off, it), false)
				k.assume(k.cmp(token.LSS, subInt(k, addInt(k, off, ln), w), at, it), false)
			}
			// what is found there
			if !isString(args[0].Typ) && (width == 0 && len(a) == 6 || width == 1 && len(a) == 4 && fnName(f) == "bytes.IndexByte") {
				if n, ok := constOf(k, w); ok && n <= 4 {
					for j := range n {
						b := args[1]
						if len(a) == 6 {
							b = byteAt(k, a[3], addInt(k, a[4], mkInt(j, nil)))
						}
						if x := byteAt(k, c, addInt(k, at, mkInt(j, nil))); !k.assume(k.cmp(token.EQL, x, b, types.Typ[types.Byte]), true) {
							return res, true
						}
					}
				}
			}
			res = append(res, alt{st: st, val: r})
		}
		return res, true
	}
}

// textModel: functions of package bytes that trim or repair the text in a
// slice, as the function of that name of package strings on the text. What
// they return has its own memory here, which matters only to code that
// writes into it and then reads the argument again.
func textModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	str := types.Typ[types.String]
	bs := f.Signature.Params().At(0).Type()
	var a []*Term
	for i, x := range args {
		if types.Identical(f.Signature.Params().At(i).Type(), bs) {
			if el, ok := in.elems(st, x, types.Typ[types.Byte]); ok && len(el) <= 16 {
				b := make([]byte, 0, len(el))
				for _, e := range el {
					if v, ok := e.intConst(); ok {
						b = append(b, byte(v))
					}
				}
				if len(b) == len(el) {
					a = append(a, mkStr(string(b)))
					continue
				}
			}
			x = in.convert(st, x, bs, str)
		}
		a = append(a, x)
	}
	s := mkPure("strings."+f.Name(), str, a...)
	n := in.length(st, s)
	r := in.newSlice(st, bs, n, n, "text")
	st.mem[r.Args[0]] = mkPure("strbytes", r.Args[0].Typ, s)
	return one(st, r), true
}

// matchModel: comparison with a short constant sequence, as a whole (0), at
// the start (1) or at the end (2).
func matchModel(where int) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		k, it := st.k, types.Typ[types.Int]
		c, off, ln := in.viewOf(st, args[0])
		c2, o2, l2 := in.viewOf(st, args[1])
		n, ok := constOf(k, l2)
		if m, ok1 := constOf(k, ln); where == 0 && ok1 && (!ok || m < n) {
			n, ok = m, true
		}
		r := mkPure(fnName(f), types.Typ[types.Bool], c, off, ln, c2, o2, l2)
		s := st.clone()
		var res []alt
		if s.k.assume(r, false) {
			res = append(res, alt{st: s, val: mkBool(false)})
		}
		if !k.assume(r, true) {
			return res, true
		}
		if where == 0 {
			if !k.assume(k.cmp(token.EQL, ln, l2, it), true) {
				return res, true
			}
		} else if !k.assume(k.cmp(token.LSS, ln, l2, it), false) {
			return res, true
		}
		if ok && n <= 8 {
			at := off
			if where == 2 {
				at = subInt(k, addInt(k, off, ln), l2)
			}
			for j := range n {
				a := byteAt(k, c, addInt(k, at, mkInt(j, nil)))
				b := byteAt(k, c2, addInt(k, o2, mkInt(j, nil)))
				if !k.assume(k.cmp(token.EQL, a, b, types.Typ[types.Byte]), true) {
					return res, true
				}
			}
		}
		return append(res, alt{st: st, val: mkBool(true)}), true
	}
}

// ---- bufio.Scanner ----

// A SplitOut is one way a split function returns.
type SplitOut struct {
	St              *State
	Start           *Event
	Data, AtEOF     *Term
	Adv, Token, Err *Term
}

func splitKey(scanner *Term) *Term { return mkPure("splitfn", nil, scanner) }

func splitModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	in.nilCheck(st, fr, pos, args[0], "nil scanner")
	in.oblig(st, fr, pos, "panic", st.aux[args[0]] == nil, f.Name()+" after the first Scan")
	ev := in.event(st, fr, pos, Event{Kind: EvCall, Name: fnName(f), Callee: f, Recv: args[0], Args: args[1:]})
	ev.Res = mkTuple(nil)
	if f.Name() == "Split" {
		st.aux[splitKey(args[0])] = ev
	}
	return one(st, mkTuple(nil)), true
}

// scanModel describes Scan: the split function is analysed for every buffer.
func scanModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	in.nilCheck(st, fr, pos, args[0], "nil scanner")
	ev := in.event(st, fr, pos, Event{Kind: EvCall, Name: fnName(f), Callee: f, Recv: args[0]})
	v := freshSym("Scan", types.Typ[types.Bool])
	v.Org = ev
	ev.Res = v
	tok := freshSym("token", types.NewSlice(types.Typ[types.Byte]))
	tok.Org = ev
	ev.Val = tok
	er := freshSym("scanErr", types.Universe.Lookup("error").Type())
	er.Org = ev
	ev.Cont = er
	st.aux[args[0]] = ev
	if in.onOpaque != nil {
		in.onOpaque(in, st, ev)
	}
	sp := st.aux[splitKey(args[0])]
	if sp == nil {
		return one(st, v), true
	}
	fn := sp.Args[0]
	if fn.Op != OFunc && fn.Op != OClosure || len(fn.fn().Blocks) == 0 || !in.P.isRepo(fn.fn()) {
		return one(st, v), true
	}
	var bind []*Term
	if fn.Op == OClosure {
		bind = fn.Args
	}
	ev.Use = in.splitUse(st, fn.fn(), bind)
	s := st.clone()
	data := freshSym("data", types.NewSlice(types.Typ[types.Byte]))
	eof := freshSym("atEOF", types.Typ[types.Bool])
	var groups [][]SplitOut
	var mems []map[*Term]*Term
	for _, o := range in.callFn(s, fr, fn.fn(), []*Term{data, eof}, bind, pos) {
		in.side = append(in.side, o.St)
		if o.Kind != KRet {
			continue
		}
		so := SplitOut{St: o.St, Start: ev, Data: data, AtEOF: eof, Adv: o.Ret.Args[0], Token: o.Ret.Args[1], Err: o.Ret.Args[2]}
		ch := map[*Term]*Term{}
		for r, c := range o.St.mem {
			if old, ok := st.mem[r]; ok && old != c {
				ch[r] = c
			} else if !ok && in.shared(r) && !(c.Op == OSym && c.Src == r) && in.P.initMem[r] != c {
				ch[r] = c
			}
		}
		if so.Token.isNil() && len(ch) > 0 {
			in.giveUp(fr, pos, "split function changes state when it asks for more data")
		}
		if len(ch) == 0 && len(mems) > 0 && len(mems[0]) == 0 {
			groups[0] = append(groups[0], so)
			continue
		}
		if len(ch) == 0 {
			mems = append([]map[*Term]*Term{ch}, mems...)
			groups = append([][]SplitOut{{so}}, groups...)
			continue
		}
		mems = append(mems, ch)
		groups = append(groups, []SplitOut{so})
	}
	ev.Split = nil
	if len(groups) == 0 {
		return one(st, v), true
	}
	if len(mems) == 1 && len(mems[0]) == 0 {
		ev.Split = groups[0]
		return one(st, v), true
	}
	var res []alt
	fs := st.clone()
	fs.k.assume(v, false)
	for i, g := range groups {
		has := false
		for _, so := range g {
			if !so.Token.isNil() {
				has = true
			}
		}
		if !has {
			continue
		}
		n := st.clone()
		n.k.assume(v, true)
		e2 := *ev
		e2.Split = g
		n.ev = &e2
		n.aux[args[0]] = &e2
		for r, c := range mems[i] {
			n.mem[r] = c
		}
		res = append(res, alt{st: n, val: v})
	}
	return append(res, alt{st: fs, val: v}), true
}

func scanBytesModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	if ev := st.aux[args[0]]; ev != nil {
		return one(st, ev.Val), true
	}
	return one(st, mkNil(types.NewSlice(types.Typ[types.Byte]))), true
}

func scanTextModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	if ev := st.aux[args[0]]; ev != nil {
		return one(st, in.convert(st, ev.Val, ev.Val.Typ, types.Typ[types.String])), true
	}
	return one(st, mkStr("")), true
}

func scanErrModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	if ev := st.aux[args[0]]; ev != nil {
		return one(st, ev.Cont), true
	}
	return one(st, mkNil(nil)), true
}

var exitFuncs = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "runtime.Goexit": true, "syscall.Exit": true,
}

// detFuncs are deterministic and free of side effects: equal arguments give
// the same result.
var detFuncs = map[string]bool{
	"strings.TrimSpace": true, "strings.ToValidUTF8": true, "strings.TrimRight": true, "strings.TrimLeft": true,
	"strings.Trim": true, "strings.TrimFunc": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.ToLower": true, "strings.ToUpper": true,
	"strings.Contains": true, "strings.EqualFold": true,
	"bytes.Contains": true, "bytes.TrimSpace": false, "(time.Time).Sub": true, "(time.Time).Add": true, "(time.Time).After": true,
	"(time.Time).Before": true, "(time.Time).Equal": true, "(time.Time).IsZero": true, "(time.Duration).Seconds": true,
	"unicode/utf8.ValidString": true, "unicode/utf8.Valid": true, "strconv.Itoa": true, "math.Round": true, "math.Floor": true,
	"math.Ceil": true, "math.Trunc": true, "math.Abs": true, "errors.Is": true, "(time.Duration).Truncate": true,
	"(time.Duration).Round": true, "strings.Count": false, "bytes.Compare": true, "strings.Compare": true,
	"fmt.Sprint": false,
}

var errMakers = map[string]bool{
	"fmt.Errorf": true, "errors.New": true,
	"github.com/twitchtv/twirp.InvalidArgumentError": true, "github.com/twitchtv/twirp.InternalError": true,
	"github.com/twitchtv/twirp.InternalErrorWith": true, "github.com/twitchtv/twirp.NewError": true,
	"github.com/twitchtv/twirp.NewErrorf": true, "github.com/twitchtv/twirp.RequiredArgumentError": true,
	"github.com/twitchtv/twirp.InternalErrorf": true, "github.com/twitchtv/twirp.NotFoundError": true,
	"github.com/twitchtv/twirp.WrapError":         true,
	"(github.com/twitchtv/twirp.ErrorCode).Error": true, "(github.com/twitchtv/twirp.ErrorCode).Errorf": true,
	"errors.Join": false,
	"(github.com/twitchtv/twirp.Error).WithMeta": true,
}

var nonNilMethods = map[string]bool{
	"(net/http.ResponseWriter).Header": true,
}
