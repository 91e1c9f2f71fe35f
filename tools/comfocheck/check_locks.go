package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C12: lock sets of shared variables ----

// memKey names a shared memory object and the path of an access inside it in
// a way that is the same on every path.
func (P *Program) memKey(e *Event) (root string, path string, ok bool) {
	a := e.Addr
	rt, steps := addrPath(a)
	switch {
	case rt.Op == OGlobal:
		if g := rt.globalRoot(); g.Pkg == nil || !P.repoPkg[g.Pkg] || strings.HasPrefix(g.Name(), "init$") {
			return "", "", false
		}
		root = rootName(rt)
		if g := rt.globalRoot(); g.Pkg == P.Lib {
			root = "libcomfo." + root
		}
	case e.Recv != nil && e.Recv.Op != OSym && rt.Op == OAlloc:
		// published local object
		pr := e.Recv.root()
		if pr.Op != OGlobal && P.initMem[pr] == nil {
			return "", "", false
		}
		root = "object in " + strings.TrimPrefix(e.Recv.String(), "&")
	case rt.Op == OAlloc && P.initMem[rt] != nil:
		if P.syncMem(rt) {
			return "", "", false
		}
		root = "start-up object " + rt.Name
	case rt.Op == OData || rt.Op == OSym || rt.Op == OField:
		// reached through a pointer or slice kept in a shared variable
		n, ok := P.viaGlobal(rt, 0)
		if !ok {
			return "", "", false
		}
		root = "object in " + n
	default:
		return "", "", false
	}
	for _, s := range steps {
		if s.Op == OFieldAddr {
			path += fmt.Sprintf(".%d", s.Off)
		} else if v, ok := s.Args[1].intConst(); ok {
			path += fmt.Sprintf("[%d]", v)
		} else {
			path += "[?"
			break
		}
	}
	return root, path, true
}

// viaGlobal: the value was read from package variable memory.
func (P *Program) viaGlobal(t *Term, d int) (string, bool) {
	if d > 12 {
		return "", false
	}
	switch t.Op {
	case OSym:
		if t.Src == nil {
			return "", false
		}
		if g := t.Src.globalRoot(); g != nil {
			if g.Pkg == nil || !P.repoPkg[g.Pkg] {
				return "", false
			}
			return g.Name(), true
		}
		return P.viaGlobal(t.Src, d+1)
	case OField:
		n, ok := P.viaGlobal(t.Args[0], d+1)
		return fmt.Sprintf("%s.%d", n, t.Off), ok
	case OIndex, OData, OFieldAddr, OIndexAddr:
		n, ok := P.viaGlobal(t.Args[0], d+1)
		return n + "[]", ok
	}
	return "", false
}

type access struct {
	class string
	root  string
	path  string
	write bool
	locks string // sorted identities with mode
	held  []Held
	ev    *Event
	st    *State
	x     *Root
}

func overlap(a, b string) bool {
	if strings.HasSuffix(a, "[?") {
		return strings.HasPrefix(b, strings.TrimSuffix(a, "[?")) || strings.HasPrefix(a, b)
	}
	if strings.HasSuffix(b, "[?") {
		return overlap(b, a)
	}
	return a == b || strings.HasPrefix(a, b+".") || strings.HasPrefix(b, a+".") || strings.HasPrefix(a, b+"[") || strings.HasPrefix(b, a+"[")
}

func servesHTTP(e *Event) bool {
	if e.Kind != EvCall {
		return false
	}
	n := e.Name[strings.LastIndex(e.Name, ".")+1:]
	return strings.Contains(e.Name, "net/http") && (strings.HasPrefix(n, "ListenAndServe") || strings.HasPrefix(n, "Serve"))
}

// startedOnce: the worker goroutine is started by main, once.
func (A *Analysis) startedOnce(f *ssa.Function) bool {
	for _, x := range A.allRoots() {
		max := 0
		for _, s := range x.ends() {
			n := 0
			loop := false
			for e := s.ev; e != nil; e = e.Prev {
				if e.Kind == EvGo && e.Callee == f {
					n++
				}
			}
			for _, l := range x.Iters {
				for _, is := range l.Iters {
					if is == s {
						for _, e := range eventsUpTo(s.ev, l.Start) {
							if e.Kind == EvGo && e.Callee == f {
								loop = true
							}
						}
					}
				}
			}
			if loop {
				n = 2
			}
			if n > max {
				max = n
			}
		}
		if max > 1 || max == 1 && x.Name != "main" {
			if strings.HasPrefix(x.Name, "srv:") {
				continue // start-up functions are covered through main
			}
			return false
		}
	}
	return true
}

func (A *Analysis) accesses(r *Rep) []*access {
	P := A.P
	m := map[string]*access{}
	var order []string
	add := func(x *Root, s *State, e *Event, class string) {
		root, path, ok := P.memKey(e)
		if !ok {
			return
		}
		if t := typeOfAddr(e.Addr); t != nil && isSyncType(t) {
			return
		}
		held := e.Held
		var ls []string
		for _, h := range held {
			if P.globalLock(h.Lock) {
				ls = append(ls, string(h.Mode)+lockName(P, h.Lock))
			}
		}
		sort.Strings(ls)
		a := &access{class: class, root: root, path: path, write: e.Kind == EvStore, locks: strings.Join(ls, ","), held: held, ev: e, st: &State{ev: e, k: e.Snap}, x: x}
		k := fmt.Sprint(a.class, "|", a.root, "|", a.path, "|", a.write, "|", a.locks)
		if _, ok := m[k]; !ok {
			m[k] = a
			order = append(order, k)
		}
	}
	scan := func(x *Root, class func(e *Event, gone, serving bool) string) {
		seen := map[*Event]bool{}
		for _, s := range x.ends() {
			gone, serving := false, false
			for _, e := range s.events() {
				if e.Kind == EvGo {
					gone = true
				}
				if servesHTTP(e) {
					serving = true
				}
				if (e.Kind == EvLoad || e.Kind == EvStore) && !seen[e] {
					seen[e] = true
					add(x, s, e, class(e, gone, serving))
				}
			}
		}
	}
	for _, x := range r.use(A.handlerRoots()...) {
		scan(x, func(*Event, bool, bool) string { return "rpc" })
	}
	for _, x := range r.use(A.workerRoots()...) {
		c := "worker " + x.Fn.Name()
		if !A.startedOnce(x.Fn) {
			c = "workers"
		}
		scan(x, func(e *Event, _, _ bool) string {
			if e.Thread != 0 {
				return "workers"
			}
			return c
		})
	}
	for _, x := range r.use(A.mainRoot()) {
		scan(x, func(e *Event, gone, serving bool) string {
			switch {
			case e.Thread != 0:
				return "workers"
			case !gone && !serving:
				return "start"
			case !serving:
				return "main before serving, with " + startedBy(e)
			}
			return "main"
		})
	}
	var lib []*Root
	lib = append(append(lib, A.exchangeRoots()...), A.libRoots()...)
	for _, x := range r.use(lib...) {
		scan(x, func(*Event, bool, bool) string { return "library" })
	}
	var res []*access
	for _, k := range order {
		res = append(res, m[k])
	}
	return res
}

// startedBy: the goroutines started before e.
func startedBy(e *Event) string {
	var ns []string
	for p := e.Prev; p != nil; p = p.Prev {
		if p.Kind != EvGo {
			continue
		}
		n := "?"
		if p.Callee != nil {
			n = p.Callee.Name()
		}
		if !slices.Contains(ns, n) {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	return strings.Join(ns, " and ") + " running"
}

func concurrent(a, b string) bool {
	if a == "start" || b == "start" {
		return false
	}
	if a > b {
		a, b = b, a
	}
	if a == b {
		return a == "rpc" || a == "library" || a == "workers"
	}
	if w, ok := strings.CutPrefix(b, "worker "); ok && strings.HasPrefix(a, "main before") {
		return strings.Contains(a, " "+w+" ") || strings.Contains(a, " ? ")
	}
	if strings.HasPrefix(a, "main") && strings.HasPrefix(b, "main") {
		return false
	}
	if strings.HasPrefix(a, "main before") && (b == "rpc" || b == "library" || b == "main") || a == "main" && strings.HasPrefix(b, "main before") {
		return false
	}
	return true
}

func checkC12(A *Analysis, r *Rep) {
	P := A.P
	r.rule("common-lock", "two accesses to the same memory by goroutines that can run at the same time, one of them a write, are made under a common process-wide lock, the write holding it exclusively")
	r.rule("start-before-go", "memory written without a lock is written only before the goroutines that read it are started")
	r.rule("response-not-shared", "the message an RPC returns is not reachable from shared variables, since it is encoded after the handler's locks are released")
	acc := A.accesses(r)
	byRoot := map[string][]*access{}
	for _, a := range acc {
		byRoot[a.root] = append(byRoot[a.root], a)
	}
	var names []string
	for n := range byRoot {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l := byRoot[n]
		written, unprot := false, false
		for _, a := range l {
			written = written || a.write
			if a.write && a.locks == "" {
				unprot = true
			}
		}
		rule := "common-lock"
		if unprot {
			rule = "start-before-go"
		}
		for i, a := range l {
			for _, b := range l[i:] {
				if !a.write && !b.write || !overlap(a.path, b.path) || !concurrent(a.class, b.class) {
					continue
				}
				ok := false
				for _, h := range a.held {
					if !P.globalLock(h.Lock) || a.write && h.Mode != 'w' {
						continue
					}
					if g := heldLock(b.held, h.Lock); g != nil && !(b.write && g.Mode != 'w') {
						ok = true
					}
				}
				w, o := a, b
				if !w.write {
					w, o = b, a
				}
				bad := o
				if o.locks != "" && w.locks == "" {
					bad = w
				}
				r.check(rule, n+" in "+fnOf(bad.ev), bad.ev.Pos, ok, bad.st, "%s is written at %s (%s, holding {%s}) and accessed at %s (%s, holding {%s}) with no common lock", n, P.pos(w.ev.Pos), w.class, w.locks, P.pos(o.ev.Pos), o.class, o.locks)
			}
		}
		if written {
			r.check(rule, n, token.NoPos, true, nil, "")
		}
	}
	for _, x := range r.use(A.handlerRoots()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet || x.Fn.Signature.Results().Len() == 0 {
				continue
			}
			v := x.ret(o, 0)
			if v.isNil() {
				continue
			}
			rt := v.root()
			ok := rt.Op == OAlloc && P.initMem[rt] == nil && o.St.pub[rt] == nil
			if rt.Op == OSym && rt.Org != nil && rt.Org.Kind == EvCall {
				ok = true
			}
			r.check("response-not-shared", x.Fn.Name(), x.Fn.Pos(), ok, o.St, "the response %v can be reached by other goroutines", v)
		}
	}
	r.atLeast("common-lock", 6)
	r.atLeast("response-not-shared", 10)
}

func typeOfAddr(a *Term) types.Type { return a.elemTyp() }

// ---- C13: release, order, waiting ----

// libLocks: the locks a library call may take, with what it holds then.
func (A *Analysis) libLocks() map[*ssa.Function]map[*Term]token.Pos {
	m := map[*ssa.Function]map[*Term]token.Pos{}
	ex := map[*ssa.Function]map[*Term]token.Pos{}
	collect := func(x *Root) map[*Term]token.Pos {
		l := map[*Term]token.Pos{}
		x.eachEvent(func(e *Event) {
			if e.Kind == EvLock && A.P.globalLock(e.Addr) {
				l[e.Addr] = e.Pos
			}
		})
		return l
	}
	for _, x := range A.exchangeRoots() {
		ex[x.Fn] = collect(x)
		m[x.Fn] = ex[x.Fn]
	}
	for _, x := range A.libRoots() {
		l := collect(x)
		x.eachEvent(func(e *Event) {
			if e.Kind == EvCall && e.Callee != nil {
				for k, p := range ex[e.Callee] {
					l[k] = p
				}
			}
		})
		m[x.Fn] = l
	}
	return m
}

type edge struct{ a, b *Term }

func checkC13(A *Analysis, r *Rep) {
	P := A.P
	r.rule("released-on-return", "every lock taken is released on every path to a return")
	r.rule("released-on-panic", "a lock held where the program's own code may panic is released on the way out, in code that request handlers run")
	r.rule("not-taken-twice", "a lock is never acquired by a goroutine that holds it")
	r.rule("balanced", "only locks that are held are released; a loop iteration keeps the set of held locks")
	r.rule("acyclic-order", "the relation 'acquired while holding' has no cycle")
	r.rule("no-wait-on-holder", "no lock that the other side of a channel may need is held while waiting on the channel")
	locksOf := A.libLocks()
	edges := map[edge]*Event{}
	edgeRoot := map[edge]*Root{}
	nlocks := map[*Term]bool{}
	order := func(x *Root, held []Held, l *Term, e *Event) {
		for _, h := range held {
			if P.globalLock(h.Lock) && P.globalLock(l) && h.Lock != l {
				k := edge{h.Lock, l}
				if edges[k] == nil {
					edges[k] = e
					edgeRoot[k] = x
				}
			}
		}
	}
	short := func(x *Root) string { return x.Fn.Name() }
	isHandler := map[*Root]bool{}
	for _, x := range A.handlerRoots() {
		isHandler[x] = true
	}
	for _, x := range A.libRoots() {
		isHandler[x] = true
	}
	for _, x := range A.exchangeRoots() {
		isHandler[x] = true
	}
	for _, x := range r.use(A.allRoots()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			switch o.Kind {
			case KRet:
				r.check("released-on-return", short(x), x.Fn.Pos(), len(o.St.held) == 0, o.St, "returns holding %s", heldNames(P, o.St.held))
			case KPanic:
				if isHandler[x] {
					r.check("released-on-panic", short(x), x.Fn.Pos(), len(o.St.held) == 0, o.St, "a panic (%s) leaves %s held", o.Why, heldNames(P, o.St.held))
				}
			case KBlocked:
				if o.Why == "relock" {
					continue
				}
				r.check("no-wait-on-holder", short(x)+" blocks", x.Fn.Pos(), false, o.St, "waits for ever: %s", o.Why)
			}
		}
		x.eachEvent(func(e *Event) {
			st := &State{ev: e, k: e.Snap}
			switch {
			case e.Kind == EvOblig && e.Name == "relock":
				r.check("not-taken-twice", lockName(P, e.Addr)+" in "+fnOf(e), e.Pos, false, st, "%s (through %s)", e.Msg, x.Name)
			case e.Kind == EvOblig && (e.Name == "unlock" || e.Name == "loop-lock" || e.Name == "unreleased"):
				r.check("balanced", fnOf(e), e.Pos, false, st, "%s (through %s)", e.Msg, x.Name)
			case e.Kind == EvLock:
				nlocks[e.Addr] = true
				r.check("not-taken-twice", lockName(P, e.Addr)+" in "+fnOf(e), e.Pos, true, st, "")
				r.check("balanced", fnOf(e), e.Pos, true, nil, "")
				order(x, effHeld(st, e), e.Addr, e)
			case e.Kind == EvCall && e.Callee != nil:
				for l := range locksOf[e.Callee] {
					held := effHeld(st, e)
					if h := heldLock(held, l); h != nil {
						r.check("not-taken-twice", lockName(P, l)+" in "+fnOf(e), e.Pos, false, st, "calls %s, which takes %s, while holding it", e.Name, lockName(P, l))
					}
					order(x, held, l, e)
				}
			}
		})
	}
	A.releaseRule(r)
	// cycles
	for _, c := range lockCycles(edges) {
		var names []string
		for _, k := range c {
			names = append(names, fmt.Sprintf("%s then %s (%s at %s)", lockName(P, k.a), lockName(P, k.b), edgeRoot[k].Name, P.pos(edges[k].Pos)))
		}
		e := edges[c[0]]
		r.check("acyclic-order", lockName(P, c[0].a)+" and "+lockName(P, c[0].b), e.Pos, false, &State{ev: e, k: e.Snap}, "locks are acquired in a cycle: %s", strings.Join(names, "; "))
	}
	for k := range edges {
		r.check("acyclic-order", lockName(P, k.a)+" > "+lockName(P, k.b), edges[k].Pos, true, nil, "")
	}
	A.waitRule(r, locksOf)
	if len(nlocks) < 8 {
		r.add(&Finding{Rule: "instances", Construct: "locks", Message: fmt.Sprintf("only %d locks found", len(nlocks))})
	}
	r.atLeast("released-on-return", 20)
	r.atLeast("acyclic-order", 6)
}

// releaseRule looks at every function that takes a lock by itself, for all
// arguments: the callers may never lead it down the path that keeps the lock.
// A function may be meant to return with a lock held, but not when it fails,
// and not on some of the paths with the same result only.
func (A *Analysis) releaseRule(r *Rep) {
	for _, f := range A.P.all {
		if f.Pkg != A.P.Srv && f.Pkg != A.P.Lib || f.Parent() != nil || isInitFn(f) || !takesLock(f) {
			continue
		}
		x := A.run("fn:"+fnName(f), f, A.srvCfg())
		if x.Err != "" {
			continue // its callers are analysed
		}
		r.use(x)
		free := false // some path that succeeds holds nothing in the end
		for i := range x.Outs {
			o := &x.Outs[i]
			free = free || o.Kind == KRet && len(o.St.held) == 0 && x.success(o) != nil
		}
		plain := f.Signature.Results().Len() == 0 || f.Signature.Results().Len() == 1 && x.errIdx() == 0
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind == KRet {
				bad := len(o.St.held) > 0 && (x.success(o) == nil || free && plain)
				r.check("released-on-return", fnName(f)+" for any arguments", f.Pos(), !bad, o.St, "returns holding %s", heldNames(A.P, o.St.held))
			}
		}
	}
}

func takesLock(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && (g.Name() == "Lock" || g.Name() == "RLock") {
					return true
				}
			}
		}
	}
	return false
}

func heldNames(P *Program, h []Held) string {
	var s []string
	for _, x := range h {
		s = append(s, lockName(P, x.Lock))
	}
	return strings.Join(s, ", ")
}

// lockCycles finds one cycle per strongly connected component.
func lockCycles(edges map[edge]*Event) [][]edge {
	next := map[*Term][]*Term{}
	var nodes []*Term
	seenN := map[*Term]bool{}
	for k := range edges {
		next[k.a] = append(next[k.a], k.b)
		for _, n := range []*Term{k.a, k.b} {
			if !seenN[n] {
				seenN[n] = true
				nodes = append(nodes, n)
			}
		}
	}
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].ID < nodes[j].ID })
	for n := range next {
		l := next[n]
		sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	}
	var res [][]edge
	done := map[*Term]bool{}
	for _, n := range nodes {
		if done[n] {
			continue
		}
		// shortest cycle through n
		prev := map[*Term]*Term{}
		q := []*Term{n}
		vis := map[*Term]bool{n: true}
		var hit *Term
		for len(q) > 0 && hit == nil {
			x := q[0]
			q = q[1:]
			for _, y := range next[x] {
				if y == n {
					hit = x
					break
				}
				if !vis[y] {
					vis[y] = true
					prev[y] = x
					q = append(q, y)
				}
			}
		}
		if hit == nil {
			continue
		}
		var c []edge
		b := n
		for a := hit; ; a = prev[a] {
			c = append([]edge{{a, b}}, c...)
			done[a] = true
			if a == n {
				break
			}
			b = a
		}
		res = append(res, c)
	}
	return res
}

// waitRule: locks held at channel operations against the locks the goroutines
// on the other side may take.
func (A *Analysis) waitRule(r *Rep, locksOf map[*ssa.Function]map[*Term]token.Pos) {
	P := A.P
	type side struct {
		x *Root
		s *State
		e *Event
	}
	sends, recvs := map[*Term][]side{}, map[*Term][]side{}
	need := map[*Root]map[*Term]bool{}
	for _, x := range A.allRoots() {
		n := map[*Term]bool{}
		x.eachEvent(func(e *Event) {
			if e.Kind == EvLock {
				n[e.Addr] = true
			}
			if e.Kind == EvCall && e.Callee != nil {
				for l := range locksOf[e.Callee] {
					n[l] = true
				}
			}
			st := &State{ev: e, k: e.Snap}
			switch e.Kind {
			case EvSend:
				if k := P.chanKey(e.Addr); k != nil {
					sends[k] = append(sends[k], side{x, st, e})
				}
			case EvRecv:
				if k := P.chanKey(e.Addr); k != nil {
					recvs[k] = append(recvs[k], side{x, st, e})
				}
			}
		})
		need[x] = n
	}
	pair := func(w, o []side, what string) {
		for _, a := range w {
			for _, b := range o {
				if strings.HasPrefix(b.x.Name, "srv:") && len(b.x.Fn.Blocks) > 0 {
					continue
				}
				for _, h := range effHeld(a.s, a.e) {
					r.check("no-wait-on-holder", fmt.Sprintf("%s in %s", what, fnOf(a.e)), a.e.Pos, !need[b.x][h.Lock], a.s, "holds %s while waiting on a channel served by %s, which may need that lock", lockName(P, h.Lock), b.x.Name)
				}
				r.check("no-wait-on-holder", fmt.Sprintf("%s in %s", what, fnOf(a.e)), a.e.Pos, true, nil, "")
			}
		}
	}
	for _, k := range sortedKeys(sends) {
		pair(sends[k], recvs[k], "send")
	}
	for _, k := range sortedKeys(recvs) {
		pair(recvs[k], sends[k], "receive")
	}
}

func sortedKeys[V any](m map[*Term]V) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// chanKey identifies channels that exist once in the process.
func (P *Program) chanKey(c *Term) *Term {
	if c.Op == OAlloc {
		if P.initMem[c] != nil {
			return c
		}
		return nil
	}
	// read from a package variable that is set at start-up
	if c.Op == OSym && c.Src != nil && c.Src.Op == OGlobal {
		return c.Src
	}
	return nil
}
