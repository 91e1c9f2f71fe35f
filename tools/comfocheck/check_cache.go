package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the caches of the service ----

// A cacheKind is a kind of data the service keeps: where it is, when it was
// fetched, and with which library call.
type cacheKind struct {
	getter string // library call
	rpc    string // method that returns it
	T      types.Type
	fn     *ssa.Function
	root   *Term
	path   []int
	time   []int
	lock   *Term // a lock beside the data, if any
	wlocks []*Term
}

var kindTable = []struct{ getter, rpc string }{
	{"GetBootloader", "GetBootInfo"},
	{"GetBypass", "GetBypass"},
	{"GetErrors", "GetErrors"},
	{"GetFans", "GetFans"},
	{"GetFanProfiles", "GetFanProfiles"},
	{"GetTemperatures", "GetTemps"},
}

func fieldAt(t *Term, typ types.Type, path []int) (*Term, types.Type) {
	for _, i := range path {
		s := structOf(typ)
		if s == nil || i >= s.NumFields() {
			return nil, nil
		}
		typ = s.Field(i).Type()
		t = mkField(t, i, typ)
	}
	return t, typ
}

func addrAt(root *Term, path []int) *Term {
	a := root
	typ := root.Typ
	for _, i := range path {
		typ = structOf(typ).Field(i).Type()
		a = mkFieldAddr(a, i, typ)
	}
	return a
}

// cacheKinds finds where the service keeps each kind of data.
func (A *Analysis) cacheKinds(r *Rep) []*cacheKind {
	P := A.P
	var ks []*cacheKind
	for _, e := range kindTable {
		f := P.Lib.Func(e.getter)
		if f == nil || f.Signature.Results().Len() != 2 {
			r.undecided(e.getter, "library call not found")
			continue
		}
		k := &cacheKind{getter: e.getter, rpc: e.rpc, T: f.Signature.Results().At(0).Type(), fn: f}
		n := 0
		var names []string
		for _, m := range P.Srv.Members {
			if g, ok := m.(*ssa.Global); ok {
				names = append(names, g.Name())
			}
		}
		sort.Strings(names)
		for _, nm := range names {
			g := mkGlobal(P.Srv.Members[nm].(*ssa.Global))
			var w func(t types.Type, p []int)
			w = func(t types.Type, p []int) {
				if types.Identical(t, k.T) {
					n++
					k.root, k.path = g, append([]int{}, p...)
					return
				}
				if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != P.Srv.Pkg {
					return
				}
				if s := structOf(t); s != nil && len(p) < 5 {
					for i := 0; i < s.NumFields(); i++ {
						w(s.Field(i).Type(), append(append([]int{}, p...), i))
					}
				}
			}
			w(g.Typ, nil)
		}
		if n != 1 {
			r.undecided(e.getter, fmt.Sprintf("%d package variables of the service hold data of this kind, one expected", n))
			continue
		}
		// siblings on the way up
		for d := len(k.path) - 1; d >= 0; d-- {
			pre := k.path[:d]
			_, pt := fieldAt(k.root, k.root.Typ, nil)
			for _, i := range pre {
				pt = structOf(pt).Field(i).Type()
			}
			s := structOf(pt)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if k.time == nil && isTime(ft) {
					k.time = append(append([]int{}, pre...), i)
				}
				if k.lock == nil && (ft.String() == "sync.Mutex" || ft.String() == "sync.RWMutex") {
					k.lock = addrAt(k.root, append(append([]int{}, pre...), i))
				}
			}
		}
		if k.time == nil {
			r.undecided(e.getter, "no update time is kept beside the data")
			continue
		}
		ks = append(ks, k)
	}
	A.storeLocks(ks)
	return ks
}

func isTime(t types.Type) bool { return t.String() == "time.Time" }

// storeLocks: the locks held exclusively at every store to a cache.
func (A *Analysis) storeLocks(ks []*cacheKind) {
	for _, k := range ks {
		first := true
		var set []*Term
		for _, x := range A.srvRoots() {
			x.eachEvent(func(e *Event) {
				if e.Kind != EvStore || e.Addr.root() != k.root {
					return
				}
				var l []*Term
				for _, h := range e.Held {
					if h.Mode == 'w' {
						l = append(l, h.Lock)
					}
				}
				if first {
					set, first = l, false
					return
				}
				var n []*Term
				for _, a := range set {
					for _, b := range l {
						if a == b {
							n = append(n, a)
						}
					}
				}
				set = n
			})
		}
		k.wlocks = set
	}
}

// srvRoots: everything the service runs.
func (A *Analysis) srvRoots() []*Root {
	var rs []*Root
	rs = append(rs, A.handlerRoots()...)
	rs = append(rs, A.workerRoots()...)
	rs = append(rs, A.mainRoot())
	return append(rs, A.srvFnRoots()...)
}

// fresh: the symbol that stands for the contents of a cache as found in a
// critical section, from which t was read.
func snapOf(t *Term, root *Term) *Term {
	var s *Term
	t.walk(func(x *Term) bool {
		if x.Op == OSym && x.Src == root {
			s = x
		}
		return true
	})
	return s
}

// sameVal: equal values, structs compared field by field.
func sameVal(k *Facts, a, b *Term, t types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if s := structOf(t); s != nil && !isTime(t) {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if !sameVal(k, mkField(a, i, ft), mkField(b, i, ft), ft) {
				return false
			}
		}
		return true
	}
	if isInteger(t) {
		return eqInt(k, a, b)
	}
	return knownTrue(k, k.cmp(token.EQL, a, b, t))
}

// ends of a root that go on: returns and loop iterations.
func (r *Root) normalEnds() []*State {
	var s []*State
	for _, o := range r.Outs {
		if o.Kind == KRet || o.Kind == KExit {
			s = append(s, o.St)
		}
	}
	for _, l := range r.Iters {
		s = append(s, l.Iters...)
	}
	return s
}

// isGet: the event is the query for data of the kind.
func (k *cacheKind) isGet(e *Event) bool { return e.Kind == EvCall && e.Callee == k.fn }

func (k *cacheKind) name() string { return k.root.Obj.(*ssa.Global).Name() }

// logs: the event reports the error.
func logsErr(e *Event, err *Term) bool {
	if e.Kind != EvCall {
		return false
	}
	n := strings.TrimLeft(e.Name, "(*")
	if !strings.HasPrefix(n, "log") && !strings.HasPrefix(n, "fmt.Fprint") && !strings.HasPrefix(n, "fmt.Print") {
		return false
	}
	seen := map[*Term]bool{}
	var from func(t *Term) bool
	from = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == err {
			return true
		}
		if t.Org != nil && t.Org.Kind == EvCall {
			if from(t.Org.Recv) || from(t.Org.Cont) {
				return true
			}
			for _, a := range t.Org.Args {
				if from(a) {
					return true
				}
			}
		}
		for _, a := range t.Args {
			if from(a) {
				return true
			}
		}
		return false
	}
	for _, a := range e.Args {
		if from(a) {
			return true
		}
	}
	return from(e.Recv) || from(e.Cont)
}

func checkC15(A *Analysis, r *Rep) {
	P := A.P
	r.rule("stored-together", "whenever a lock is released or a path ends, a cache's data and update time are either both what they were when the critical section began, or the data is exactly the value returned by a query of that kind known to have succeeded and the time was taken before that query")
	r.rule("query-under-lock", "a query and the store of its result happen in one hold of a lock common to all stores of that cache, so replies are kept in the order in which they were obtained")
	r.rule("success-is-stored", "the result of every query that succeeded is stored")
	r.rule("failure-is-logged", "the error of every query that failed is logged, and nothing is stored")
	ks := A.cacheKinds(r)
	kindOf := map[*Term]*cacheKind{}
	for _, k := range ks {
		kindOf[k.root] = k
	}
	seenStore := map[*cacheKind]bool{}
	for _, x := range r.use(A.srvRoots()...) {
		visited := map[*Event]bool{}
		check := func(st *State, facts *Facts, c *cacheKind, content *Term, before *Event, stored []*Event) {
			where := c.name()
			pos := stored[len(stored)-1].Pos
			if content == nil {
				r.check("stored-together", where, pos, false, st, "contents of %s when it becomes visible are not known", where)
				return
			}
			data, _ := fieldAt(content, c.root.Typ, c.path)
			tm, tt := fieldAt(content, c.root.Typ, c.time)
			// as it was at the beginning of this critical section
			var cur *Term
			if c.lock != nil {
				cur = snapOf(mkFieldOfLock(content, c), c.root)
			}
			if cur == nil {
				cur = snapOf(content, c.root)
			}
			if cur != nil {
				d0, _ := fieldAt(cur, c.root.Typ, c.path)
				t0, _ := fieldAt(cur, c.root.Typ, c.time)
				if sameVal(facts, data, d0, c.T) && sameVal(facts, tm, t0, tt) {
					r.check("stored-together", where, pos, true, nil, "")
					return
				}
			}
			var get *Event
			for e := before; e != nil; e = e.Prev {
				if c.isGet(e) && sameVal(facts, data, e.result(0), c.T) {
					get = e
					break
				}
			}
			if !r.check("stored-together", where, pos, get != nil, st, "the data kept, %v, is not a value returned by %s", data, c.getter) {
				return
			}
			r.check("stored-together", where+": success", pos, knownNil(facts, get.errTerm()), st, "the result of a query that may have failed is kept")
			now := timeBefore(get, tm)
			r.check("stored-together", where+": time", pos, now, st, "the update time %v was not taken before the query", tm)
			ok := false
			for _, l := range c.wlocks {
				h := heldLock(get.Held, l)
				for _, s := range stored {
					if h == nil || heldLock(s.Held, l) == nil || heldLock(s.Held, l).Ev != h.Ev {
						h = nil
					}
				}
				ok = ok || h != nil
			}
			r.check("query-under-lock", where, get.Pos, ok, st, "no lock common to all stores of %s is held from the query to the store", where)
			seenStore[c] = true
		}
		for _, st := range x.ends() {
			pending := map[*cacheKind][]*Event{}
			for _, e := range st.events() {
				switch e.Kind {
				case EvStore:
					if c := kindOf[e.Addr.root()]; c != nil {
						pending[c] = append(pending[c], e)
					}
				case EvUnlock:
					for c, s := range pending {
						still := false
						for _, l := range c.wlocks {
							if l != e.Addr && heldLock(e.Held, l) != nil {
								still = true
							}
						}
						if still {
							continue
						}
						delete(pending, c)
						if !visited[e] {
							check(&State{ev: e, k: e.Snap}, e.Snap, c, e.Mem[c.root], e, s)
						}
					}
				}
			}
			for c, s := range pending {
				check(st, st.k, c, st.mem[c.root], st.ev, s)
			}
			for e := st.ev; e != nil && !visited[e]; e = e.Prev {
				visited[e] = true
			}
		}
		// queries and what became of them
		if strings.HasPrefix(x.Name, "srv:") && len(x.Outs) == 0 {
			continue
		}
		for _, st := range x.normalEnds() {
			ev := st.events()
			for i, e := range ev {
				for _, c := range ks {
					if !c.isGet(e) {
						continue
					}
					// known on this path
					err := e.errTerm()
					failed := !st.k.mayNil(err)
					stored := false
					for _, s := range ev[i+1:] {
						if s.Kind == EvStore && s.Addr.root() == c.root {
							stored = true
						}
					}
					if failed {
						logged := false
						for _, l := range ev[i+1:] {
							logged = logged || logsErr(l, err)
						}
						r.check("failure-is-logged", c.name()+" in "+fnOf(e), e.Pos, logged, st, "the error of %s is not logged (through %s)", c.getter, x.Name)
						continue
					}
					r.check("success-is-stored", c.name()+" in "+fnOf(e), e.Pos, stored && knownNil(st.k, err), st, "a reply to %s is dropped or its error is not examined (through %s)", c.getter, x.Name)
				}
			}
		}
	}
	_ = P
	for _, c := range ks {
		r.check("stored-together", c.name()+" is filled", c.fn.Pos(), seenStore[c], nil, "no store of a %s result into %s found", c.getter, c.name())
	}
	r.atLeast("stored-together", 18)
	r.atLeast("query-under-lock", 6)
	r.atLeast("success-is-stored", 6)
	r.atLeast("failure-is-logged", 6)
	r.borrow("C04", checkC04, "exchange-error-kept")
}

func mkFieldOfLock(content *Term, c *cacheKind) *Term {
	var p []int
	for a := c.lock; a.Op == OFieldAddr; a = a.Args[0] {
		p = append([]int{int(a.Off)}, p...)
	}
	t, _ := fieldAt(content, c.root.Typ, p)
	return t
}

// timeBefore: the time is the result of a clock reading made before the event.
func timeBefore(get *Event, tm *Term) bool {
	for tm != nil && tm.Op == OPure && (strings.HasSuffix(tm.Name, "time.Time).UTC") || strings.HasSuffix(tm.Name, "time.Time).Local") || strings.HasSuffix(tm.Name, "time.Time).Round")) && len(tm.Args) > 0 {
		tm = tm.Args[0]
	}
	if tm == nil || tm.Org == nil || tm.Org.Kind != EvCall || tm.Org.Name != "time.Now" {
		return false
	}
	return tm.Org.N < get.N
}

// ---- C14 ----

func protoField(s *types.Struct, i int) bool {
	return strings.Contains(s.Tag(i), "protobuf:")
}

// exactConv strips conversions that keep the value.
func exactConv(k *Facts, t *Term) *Term {
	for {
		if t.Op == OConv {
			if t.Name == "exact" {
				t = t.Args[0]
				continue
			}
			if isInteger(t.Typ) && isInteger(t.Args[0].Typ) {
				lo, hi := typeRange(t.Typ)
				l, h := k.z.rng(t.Args[0])
				if l >= lo && h <= hi {
					t = t.Args[0]
					continue
				}
			}
			if isFloat(t.Typ) && isFloat(t.Args[0].Typ) && types.SizesFor("gc", "amd64").Sizeof(t.Typ) >= types.SizesFor("gc", "amd64").Sizeof(t.Args[0].Typ) {
				t = t.Args[0]
				continue
			}
		}
		if t.Op == OPure && t.Name == "strings.ToValidUTF8" && len(t.Args) > 0 {
			t = t.Args[0] // text is kept valid (C25), for which this is the identity
			continue
		}
		return t
	}
}

func (A *Analysis) handler(name string) *Root {
	for _, x := range A.handlerRoots() {
		if x.Fn.Name() == name {
			return x
		}
	}
	return nil
}

// response: the message a path of a handler returns, by field name.
func (x *Root) response(o *Outcome) (map[string]*Term, *types.Struct, *Term) {
	v := x.ret(o, 0)
	p, ok := x.Fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
	if !ok || v.isNil() || v.Op != OAlloc {
		return nil, nil, v
	}
	s := structOf(p.Elem())
	c := x.In.content(o.St, v)
	m := map[string]*Term{}
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if protoField(s, i) {
			m[s.Field(i).Name()] = mkField(c, i, s.Field(i).Type())
		}
	}
	return m, s, v
}

func checkC14(A *Analysis, r *Rep) {
	P := A.P
	r.rule("no-error", "a getter RPC returns a nil error and a message allocated by the call")
	r.rule("same-name-same-value", "every field of the message is the field of the same name of the matching cache, converted without change of value")
	r.rule("one-snapshot", "all fields of a response were read in one critical section of a lock held at every store of that cache")
	r.rule("read-only", "a getter RPC neither queries the unit nor changes a cache")
	for _, c := range A.cacheKinds(r) {
		x := A.handler(c.rpc)
		if x == nil {
			r.undecided(c.rpc, "handler not found")
			continue
		}
		if len(r.use(x)) == 0 {
			continue
		}
		rets := 0
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet {
				continue
			}
			rets++
			m, s, v := x.response(o)
			fresh := m != nil && P.initMem[v] == nil && !x.ret(o, 0).isNil()
			if !r.check("no-error", c.rpc, x.Fn.Pos(), fresh && knownNil(o.St.k, x.ret(o, 1)), o.St, "returns %v, %v", x.ret(o, 0), x.ret(o, 1)) {
				continue
			}
			r.check("read-only", c.rpc, x.Fn.Pos(), len(P.libCalls(o.St)) == 0, o.St, "queries the unit")
			var snap *Term
			for i := 0; i < s.NumFields(); i++ {
				n := s.Field(i).Name()
				t, ok := m[n]
				if !ok {
					continue
				}
				f := c.rpc + "." + n
				st := structOf(c.T)
				j := -1
				for q := 0; q < st.NumFields(); q++ {
					if st.Field(q).Name() == n {
						j = q
					}
				}
				if j < 0 {
					r.check("same-name-same-value", f, x.Fn.Pos(), false, o.St, "%s has no field %s", c.T, n)
					continue
				}
				sy := snapOf(t, c.root)
				if sy == nil {
					r.check("same-name-same-value", f, x.Fn.Pos(), false, o.St, "%s is %v, which is not read from %s", n, t, c.name())
					continue
				}
				d, dt := fieldAt(sy, c.root.Typ, c.path)
				want := mkField(d, j, structOf(dt).Field(j).Type())
				got := exactConv(o.St.k, t)
				r.check("same-name-same-value", f, x.Fn.Pos(), got == want, o.St, "%s is %v, not %v", n, t, want)
				if snap == nil {
					snap = sy
				}
				r.check("one-snapshot", f, x.Fn.Pos(), sy == snap, o.St, "%s is read in another critical section than the fields before it", n)
			}
			// the locks held while reading
			var hold *Event
			for _, e := range o.St.events() {
				if e.Kind != EvLoad || e.Addr.root() != c.root {
					continue
				}
				ok := false
				for _, l := range c.wlocks {
					if h := heldLock(e.Held, l); h != nil && (hold == nil || hold == h.Ev) {
						hold = h.Ev
						ok = true
					}
				}
				r.check("one-snapshot", c.rpc+" reads under the lock", e.Pos, ok, o.St, "%s is read without the lock that its stores hold, or under two holds of it", c.name())
			}
			for _, e := range o.St.events() {
				if e.Kind == EvStore && e.Addr.root() == c.root {
					r.check("read-only", c.rpc, e.Pos, false, o.St, "changes %s", c.name())
				}
			}
		}
		r.check("no-error", c.rpc+" returns", x.Fn.Pos(), rets > 0, nil, "never returns")
	}
	r.atLeast("no-error", 6)
	r.atLeast("same-name-same-value", 28)
	r.atLeast("one-snapshot", 28)
}
