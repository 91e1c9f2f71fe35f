package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Root is a function analysed for all inputs: every path through it and the
// functions it calls, with loops summarised by invariants.
type Root struct {
	Name   string
	Fn     *ssa.Function
	Params []*Term
	In     *Interp
	Outs   []Outcome
	Err    string // analysis could not decide
	Iters  []*LoopRec
}

// Analysis runs and caches the roots.
type Analysis struct {
	P     *Program
	roots map[string]*Root
	order []string

	wrappers []*Root        // the functions HTTP requests were last seen to pass through
	set      map[*Term]bool // see setByMain
}

func newAnalysis(P *Program) *Analysis { return &Analysis{P: P, roots: map[string]*Root{}} }

type rootCfg struct {
	opaque   func(*ssa.Function) bool
	onOpaque func(in *Interp, st *State, ev *Event)
	stopAt   func(ev *Event) bool
	prep     func(in *Interp, st *State, params []*Term)
	params   map[int]*Term  // parameters fixed to a value
	set      map[*Term]bool // variables that are not nil
}

// run analyses one root.
func (A *Analysis) run(key string, f *ssa.Function, cfg rootCfg) (r *Root) {
	if r, ok := A.roots[key]; ok {
		return r
	}
	r = &Root{Name: key, Fn: f}
	A.roots[key] = r
	A.order = append(A.order, key)
	in := newInterp(A.P)
	in.set = cfg.set
	in.opaque, in.onOpaque, in.stopAt = cfg.opaque, cfg.onOpaque, cfg.stopAt
	in.spawned = map[*Term]*Event{}
	r.In = in
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecidedErr)
			if !ok {
				if debugPanics {
					panic(x)
				}
				u = undecidedErr{fmt.Sprintf("%s: internal error: %v", fnName(f), x)}
			}
			r.Err = u.msg
		}
		r.Iters = in.loops
	}()
	st := newState()
	for i, p := range f.Params {
		name := p.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("arg%d", i)
		}
		s := T.mk(Term{Op: OSym, Typ: p.Type(), Name: name}, "param|"+key+"|"+itoa(int64(i))+"|"+name)
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			s.NonNil = true
		}
		if c, ok := cfg.params[i]; ok {
			s = c
		}
		r.Params = append(r.Params, s)
	}
	if cfg.prep != nil {
		cfg.prep(in, st, r.Params)
	}
	var bind []*Term
	for i, p := range f.FreeVars {
		b := T.mk(Term{Op: OSym, Typ: p.Type(), Name: p.Name(), NonNil: true}, "freevar|"+key+"|"+itoa(int64(i)))
		if c, ok := cfg.params[len(f.Params)+i]; ok {
			b = c
		}
		bind = append(bind, b)
	}
	for _, o := range in.callFn(st, nil, f, r.Params, bind, f.Pos()) {
		if o.Kind != KIter && o.Kind != KLeave {
			r.Outs = append(r.Outs, o)
		}
	}
	return r
}

var debugPanics = false

// ends lists the states at the ends of all paths, including loop iterations.
func (r *Root) ends() []*State {
	var s []*State
	for _, o := range r.Outs {
		s = append(s, o.St)
	}
	for _, l := range r.Iters {
		s = append(s, l.Iters...)
	}
	return append(s, r.In.side...)
}

// eachEvent visits every event on every path once.
func (r *Root) eachEvent(f func(e *Event)) {
	seen := map[*Event]bool{}
	for _, s := range r.ends() {
		var l []*Event
		for e := s.ev; e != nil && !seen[e]; e = e.Prev {
			seen[e] = true
			l = append(l, e)
		}
		for i := len(l) - 1; i >= 0; i-- {
			f(l[i])
		}
	}
}

// eachTurn visits the events up to the end of an iteration of a loop.
func (r *Root) eachTurn(f func(e *Event)) {
	seen := map[*Event]bool{}
	for _, l := range r.Iters {
		for _, s := range l.Iters {
			for _, e := range s.events() {
				if !seen[e] {
					seen[e] = true
					f(e)
				}
			}
		}
	}
}

// ---- selecting functions ----

func hasMethod(t types.Type, name string) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for j := 0; j < i.NumMethods(); j++ {
		if i.Method(j).Name() == name {
			return true
		}
	}
	return false
}

// isConnType: an interface values of which are read from and written to.
func isConnType(t types.Type) bool { return hasMethod(t, "Read") && hasMethod(t, "Write") }

func takesConn(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isConnType(p.Type()) {
			return true
		}
	}
	return false
}

func isNamed(t types.Type, pkg *ssa.Package, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() == pkg.Pkg
}

// isExchange: the functions that carry out one exchange have the shape
// (Packet, connection) (Packet, error).
func (P *Program) isExchange(f *ssa.Function) bool {
	if f.Pkg != P.Lib || f.Parent() != nil {
		return false
	}
	s := f.Signature
	pk, cn := 0, 0
	for i := 0; i < s.Params().Len(); i++ {
		if isNamed(s.Params().At(i).Type(), P.Lib, "Packet") {
			pk++
		}
		if isConnType(s.Params().At(i).Type()) {
			cn++
		}
	}
	if pk != 1 || cn != 1 {
		return false
	}
	n := s.Results().Len()
	return n == 2 && isNamed(s.Results().At(0).Type(), P.Lib, "Packet") && isErrorType(s.Results().At(1).Type())
}

func isExported(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && f.Parent() == nil
}

// methods of exported types and exported functions
func (P *Program) apiFuncs(p *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range P.all {
		if f.Pkg == p && f.Parent() == nil && isExported(f) && !isInitFn(f) {
			r = append(r, f)
		}
	}
	return r
}

// ---- exchange layer ----

func (A *Analysis) exchange(f *ssa.Function) *Root {
	return A.run("exchange:"+f.Name(), f, rootCfg{})
}

// exchangeRoots: the exchange functions that are exported or called from the
// outside of the exchange layer.
func (A *Analysis) exchangeRoots() []*Root {
	set := map[*ssa.Function]bool{}
	for _, f := range A.P.apiFuncs(A.P.Lib) {
		if A.P.isExchange(f) {
			set[f] = true
		}
	}
	for _, r := range A.libRoots() {
		r.eachEvent(func(e *Event) {
			if e.Kind == EvCall && e.Callee != nil && A.P.isExchange(e.Callee) {
				set[e.Callee] = true
			}
		})
	}
	var fs []*ssa.Function
	for f := range set {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	var rs []*Root
	for _, f := range fs {
		rs = append(rs, A.exchange(f))
	}
	return rs
}

// exchangeContract: what an exchange guarantees to its callers; verified for
// the exchange functions themselves (properties C04 and C05).
func exchangeContract(in *Interp, st *State, ev *Event) {
	if ev.Callee == nil || !in.P.isExchange(ev.Callee) {
		return
	}
	out := ev.result(0)
	s := structOf(out.Typ)
	if pkt := in.P.packetArg(ev.Args); pkt == nil || in.P.pfield(pkt, "Expect") == nil || !knownTrue(st.k, in.P.pfield(pkt, "Expect")) {
		return // no data expected
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Command" {
			var pkt *Term
			for _, a := range ev.Args {
				if a.Typ != nil && isNamed(a.Typ, in.P.Lib, "Packet") || a.Op == OStruct {
					pkt = a
				}
			}
			if pkt == nil {
				return
			}
			c := mkField(out, i, s.Field(i).Type())
			q := mkField(pkt, i, s.Field(i).Type())
			if v, ok := q.intConst(); ok {
				ev.Cases = []*Term{c, mkInt((v+1)&255, c.Typ)}
			}
		}
	}
}

// ---- library calls above the exchange layer ----

func (A *Analysis) libRoots() []*Root {
	var rs []*Root
	for _, f := range A.P.apiFuncs(A.P.Lib) {
		if !takesConn(f) || A.P.isExchange(f) {
			continue
		}
		rs = append(rs, A.run("lib:"+f.Name(), f, rootCfg{opaque: A.P.isExchange, onOpaque: exchangeOnOpaque, prep: prepArgs}))
	}
	return rs
}

func exchangeOnOpaque(in *Interp, st *State, ev *Event) { exchangeContract(in, st, ev) }

// prepArgs: nothing to prepare by default; contents of arguments are unknown.
func prepArgs(in *Interp, st *State, params []*Term) {}

// libOther: the other exported functions of the library.
func (A *Analysis) libOther() []*Root {
	var rs []*Root
	for _, f := range A.P.apiFuncs(A.P.Lib) {
		if takesConn(f) {
			continue
		}
		n := f.Name()
		if f.Signature.Recv() != nil {
			n = shortType(f.Signature.Recv().Type()) + "." + n
		}
		rs = append(rs, A.run("libfn:"+n, f, rootCfg{}))
	}
	return rs
}

// ---- service ----

func (P *Program) libBoundary(f *ssa.Function) bool {
	return f.Pkg == P.Lib && takesConn(f)
}

// handlers: the methods of the RPC interface on the type that is registered
// with the RPC server.
func (A *Analysis) handlers() []*ssa.Function {
	P := A.P
	var concrete types.Type
	for _, f := range P.all {
		if P.Rpc == f.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil || cal.Pkg != P.Rpc || cal.Name() != "NewComfoServer" {
					continue
				}
				if t := concreteOf(c.Common().Args[0], 0); t != nil {
					concrete = t
				}
			}
		}
	}
	if concrete == nil {
		if m, ok := P.Srv.Members["Server"].(*ssa.Type); ok {
			concrete = types.NewPointer(m.Type())
		}
	}
	if concrete == nil {
		return nil
	}
	m, ok := P.Rpc.Members["Comfo"].(*ssa.Type)
	if !ok {
		return nil
	}
	it, ok := m.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var fs []*ssa.Function
	for i := 0; i < it.NumMethods(); i++ {
		f := P.prog.LookupMethod(concrete, P.Rpc.Pkg, it.Method(i).Name())
		if f != nil {
			fs = append(fs, f)
		}
	}
	return fs
}

func concreteOf(v ssa.Value, d int) types.Type {
	if d > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return v.X.Type()
	case *ssa.ChangeInterface:
		return concreteOf(v.X, d+1)
	case *ssa.Phi:
		return concreteOf(v.Edges[0], d+1)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					if t := concreteOf(r.Results[0], d+1); t != nil {
						return t
					}
				}
			}
		}
	}
	return nil
}

// libContract: what library calls guarantee to the service.
func (A *Analysis) srvCfg() rootCfg {
	return rootCfg{
		opaque: A.P.libBoundary,
	}
}

// servingCfg: what requests and workers find. Variables that main sets before
// it starts them are set.
func (A *Analysis) servingCfg() rootCfg {
	c := A.srvCfg()
	c.set = A.setByMain()
	return c
}

// setByMain: the pointer variables that are nil at first, that are only ever
// set to something that is not nil, and that main sets before it starts a
// goroutine or serves.
func (A *Analysis) setByMain() map[*Term]bool {
	if A.set != nil {
		return A.set
	}
	A.set = map[*Term]bool{}
	sites := map[*Term][]token.Pos{}
	for _, p := range []*ssa.Package{A.P.Srv, A.P.Main} {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := mkGlobal(g)
			switch g.Type().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			default:
				continue
			}
			if c := A.P.initMem[t]; c != nil && !c.isNil() && c.Op != OZero {
				continue
			}
			sites[t] = nil
		}
	}
	if len(sites) == 0 {
		return A.set
	}
	for _, f := range A.P.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops [8]*ssa.Value
				for _, v := range i.Operands(ops[:0]) {
					g, ok := (*v).(*ssa.Global)
					if !ok {
						continue
					}
					t := mkGlobal(g)
					if _, ok := sites[t]; !ok {
						continue
					}
					switch i := i.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if i.Addr != g || i.Val == g {
							delete(sites, t)
						} else {
							sites[t] = append(sites[t], i.Pos())
						}
					default:
						delete(sites, t) // its address is taken
					}
				}
			}
		}
	}
	main := A.mainRoot()
	for t, at := range sites {
		good := map[token.Pos]bool{}
		bad := len(at) == 0
		main.eachEvent(func(e *Event) {
			if e.Kind == EvStore && e.Addr == t {
				good[e.Pos] = true
				bad = bad || e.Snap == nil || !e.Snap.nonNil(e.Val)
			}
		})
		for _, p := range at {
			bad = bad || !good[p]
		}
		for _, st := range main.ends() {
			for _, e := range st.events() {
				if e.Kind == EvStore && e.Addr == t {
					break
				}
				if e.Kind == EvGo || servesHTTP(e) {
					bad = true
				}
			}
		}
		if !bad {
			A.set[t] = true
		}
	}
	return A.set
}

func (A *Analysis) handlerRoots() []*Root {
	var rs []*Root
	for _, f := range A.handlers() {
		rs = append(rs, A.run("rpc:"+f.Name(), f, A.servingCfg()))
	}
	return rs
}

// workerFns: functions the service starts as goroutines of their own.
func (A *Analysis) workerFns() []*ssa.Function {
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range A.P.all {
		if f.Pkg != A.P.Srv && (f.Parent() == nil || f.Parent().Pkg != A.P.Srv) && f.Pkg != A.P.Main {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				if t := g.Call.StaticCallee(); t != nil && !seen[t] {
					seen[t] = true
					fs = append(fs, t)
				}
			}
		}
	}
	return fs
}

func (A *Analysis) workerRoots() []*Root {
	var rs []*Root
	for _, f := range A.workerFns() {
		key := "worker:" + f.Name()
		if r := A.roots[key]; r != nil {
			rs = append(rs, r)
			continue
		}
		rs = append(rs, A.run(key, f, A.workerCfg(f)))
	}
	return rs
}

// workerCfg: tickers handed to a worker when it is started, as arguments,
// captured variables or inside of a structure, are known to it.
func (A *Analysis) workerCfg(f *ssa.Function) rootCfg {
	c := A.servingCfg()
	if len(f.Params)+len(f.FreeVars) == 0 {
		return c
	}
	main := A.mainRoot()
	var gos []*Event
	stores := map[*Term]int{}
	main.eachEvent(func(e *Event) {
		if e.Kind == EvGo && e.Callee == f && e.Thread == 0 {
			gos = append(gos, e)
		}
		if e.Kind == EvStore {
			stores[e.Addr.root()] = max(stores[e.Addr.root()], e.N)
		}
	})
	if len(gos) == 0 {
		return c
	}
	args := func(g *Event) []*Term {
		a := append([]*Term(nil), g.Args...)
		if g.Addr.Op == OClosure {
			a = append(a, g.Addr.Args...)
		}
		return a
	}
	c.params = map[int]*Term{}
	heap := map[*Term]*Term{}
	as := args(gos[0])
	for i, a := range as {
		if !tickShape(a.Typ, 0) && a.Op != OAlloc && a.Op != OStruct {
			continue
		}
		n := ""
		for j, g := range gos {
			b := args(g)
			m := handed(b[i], g, stores, 0)
			if j == 0 {
				n = m
			}
			if m != n {
				n = ""
			}
		}
		if n == "" || !strings.Contains(n, "every ") {
			continue
		}
		c.params[i] = seed(a, gos[0].Heap, heap)
	}
	if len(heap) > 0 {
		c.prep = func(in *Interp, st *State, _ []*Term) {
			for r, v := range heap {
				st.mem[r] = v
			}
		}
	}
	return c
}

// tickShape: the type is that of a ticker or its channel.
func tickShape(t types.Type, d int) bool {
	if t == nil || d > 2 {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if c, ok := t.Underlying().(*types.Chan); ok {
		t = c.Elem()
		return t.String() == "time.Time"
	}
	return t.String() == "time.Ticker"
}

// madeTicker: the ticker t is or is part of.
func madeTicker(t *Term) *Event {
	for t.Op == OField {
		t = t.Args[0]
	}
	for d := 0; d < 4 && t != nil; d++ {
		if t.Org != nil && t.Org.Kind == EvCall && (t.Org.Name == "time.NewTicker" || t.Org.Name == "time.Tick") {
			return t.Org
		}
		if t.Src == nil {
			return nil
		}
		t = t.Src.root()
	}
	return nil
}

// handed describes what a goroutine is given, the same way on every path; ""
// if it cannot be told.
func handed(t *Term, g *Event, stores map[*Term]int, d int) string {
	if e := madeTicker(t); e != nil {
		p, ok := e.Args[0].intConst()
		if !ok {
			return ""
		}
		return fmt.Sprintf("every %d (%v)", p, t.Typ)
	}
	switch {
	case d > 4:
		return ""
	case t.Op == OAlloc:
		c := g.Heap[t]
		if c == nil || stores[t] > g.N {
			return ""
		}
		return "&" + handed(c, g, stores, d+1)
	case t.Op == OStruct:
		s := "{"
		for _, a := range t.Args {
			s += handed(a, g, stores, d+1) + ","
		}
		return s + "}"
	case t.Op == OConst, t.Op == OFunc, t.Op == OGlobal:
		return t.String()
	}
	return "?"
}

// seed: what a goroutine is given, with unknowns where paths may differ.
func seed(t *Term, heap, out map[*Term]*Term) *Term {
	if madeTicker(t) != nil {
		for r := t; r != nil; r = r.Src {
			for r.Op == OField {
				r = r.Args[0]
			}
			if r.Src == nil {
				break
			}
			if v := heap[r.Src.root()]; v != nil {
				out[r.Src.root()] = v
			}
		}
		if v := heap[t]; v != nil {
			out[t] = v
		}
		return t
	}
	switch t.Op {
	case OAlloc:
		if _, ok := out[t]; !ok {
			out[t] = nil
			out[t] = seed(heap[t], heap, out)
		}
		return t
	case OStruct:
		var f []*Term
		for _, a := range t.Args {
			f = append(f, seed(a, heap, out))
		}
		return mkStruct(t.Typ, f)
	case OConst, OFunc, OGlobal:
		return t
	}
	return freshSym("given", t.Typ)
}

func (A *Analysis) mainRoot() *Root {
	f := A.P.Main.Func("main")
	c := A.srvCfg()
	return A.run("main", f, c)
}

// srvFnRoots: the exported functions of the service nothing else covers.
func (A *Analysis) srvFnRoots() []*Root {
	var rs []*Root
	done := map[*ssa.Function]bool{}
	for _, l := range [][]*Root{A.handlerRoots(), A.workerRoots(), {A.mainRoot()}} {
		for _, r := range l {
			for f := range r.In.entered {
				done[f] = true
			}
		}
	}
	for _, f := range A.P.apiFuncs(A.P.Srv) {
		if done[f] {
			continue
		}
		n := f.Name()
		if f.Signature.Recv() != nil {
			n = shortType(f.Signature.Recv().Type()) + "." + n
		}
		rs = append(rs, A.run("srv:"+n, f, A.srvCfg()))
	}
	return rs
}

// dump prints the paths of a root for debugging.
func (r *Root) dump(P *Program) {
	fmt.Printf("== %s: %d paths, %d steps, %d loops err=%q\n", r.Name, len(r.Outs), r.In.steps, len(r.Iters), r.Err)
	kinds := map[EvKind]string{EvCall: "call", EvLock: "lock", EvUnlock: "unlock", EvLoad: "load", EvStore: "store", EvSend: "send", EvRecv: "recv", EvGo: "go", EvOblig: "oblig", EvLoop: "loop", EvExit: "exit", EvEnter: "enter", EvClose: "close", EvFork: "fork", EvReturn: "return", EvCoded: "coded", EvBlocked: "blocked"}
	for i, o := range r.Outs {
		fmt.Printf("-- path %d kind=%d ret=%v why=%s held=%d\n", i, o.Kind, o.Ret, o.Why, len(o.St.held))
		for _, e := range o.St.events() {
			if e.Kind == EvEnter || e.Kind == EvReturn || e.Kind == EvCoded || e.Kind == EvLoad || e.Kind == EvOblig && e.OK {
				continue
			}
			var a []string
			for _, x := range e.Args {
				a = append(a, x.String())
			}
			if e.Split != nil {
				for _, so := range e.Split {
					fmt.Printf("      split adv=%v token=%v err=%v\n", so.Adv, so.Token, so.Err)
					for _, f := range so.St.k.f[len(e.Snap.f):] {
						fmt.Printf("          fact %v = %v\n", f.t, f.v)
					}
				}
			}
			if e.Cont != nil && e.Cont.Op == OTuple {
				for _, c := range e.Cont.Args {
					if !c.isNil() {
						fmt.Printf("      cont %v\n", c)
					}
				}
			}
			fmt.Printf("   %s %s t%d %s(%s) addr=%v val=%v res=%v %s\n", P.pos(e.Pos), kinds[e.Kind], e.Thread, e.Name, strings.Join(a, ", "), e.Addr, e.Val, e.Res, e.Msg)
		}
		for _, f := range o.St.k.f {
			fmt.Printf("     fact %v = %v\n", f.t, f.v)
		}
	}
}

var _ = token.NoPos
