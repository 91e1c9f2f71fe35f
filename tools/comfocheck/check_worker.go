package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the background worker ----

// periods: the possible periods of the tickers a channel belongs to.
func (A *Analysis) periods(ch *Term, d int) []*Term {
	if d > 8 || ch == nil {
		return nil
	}
	for ch.Op == OField {
		ch = ch.Args[0]
	}
	if e := ch.Org; e != nil && e.Kind == EvCall {
		if e.Name == "time.NewTicker" || e.Name == "time.Tick" {
			return []*Term{e.Args[0]}
		}
		return nil
	}
	src := ch.Src
	if src == nil {
		return nil
	}
	r := src.root()
	if r.Op == OGlobal || A.P.initMem[r] != nil {
		var ps []*Term
		seen := map[*Term]bool{}
		for _, x := range A.srvRoots() {
			x.eachEvent(func(e *Event) {
				if e.Kind != EvStore || e.Addr.root() != r || e.Val == nil || seen[e.Val] {
					return
				}
				seen[e.Val] = true
				p := A.periods(e.Val, d+1)
				if p == nil {
					p = []*Term{nil}
				}
				ps = append(ps, p...)
			})
		}
		if v := A.P.initMem[r]; v != nil && len(ps) == 0 {
			if v.Op == OStruct || v.Op == OZero {
				return nil
			}
			return A.periods(v, d+1)
		}
		return ps
	}
	return A.periods(src, d+1)
}

// tickerRoot: the package variable a tick channel was read from.
func tickerVar(ch *Term) *Term {
	for d := 0; d < 8 && ch != nil; d++ {
		for ch.Op == OField {
			ch = ch.Args[0]
		}
		if ch.Op == OGlobal {
			return ch
		}
		if ch.Src == nil {
			return nil
		}
		ch = ch.Src.root()
	}
	return nil
}

// ageBound: the path facts bound the age of data fetched at last by max.
func ageBound(k *Facts, last *Term, max int64) bool {
	isAge := func(t *Term) bool {
		if t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall && t.Org.Name == "time.Since" && t.Org.Args[0] == last {
			return true
		}
		if t.Op != OPure {
			return false
		}
		n := t.Name
		switch {
		case n == "(time.Time).Sub" && len(t.Args) == 2 && t.Args[1] == last:
			return true
		case n == "time.Since" && len(t.Args) == 1 && t.Args[0] == last:
			return true
		}
		return false
	}
	found := false
	seen := map[*Term]bool{}
	try := func(t *Term) {
		t.walk(func(x *Term) bool {
			if seen[x] || found {
				return false
			}
			seen[x] = true
			if isAge(x) && k.z.leq(x, mkInt(max, nil), 0) {
				found = true
			}
			return true
		})
	}
	for _, f := range k.f {
		try(f.t)
		// now before last+d
		if f.t.Op == OPure && len(f.t.Args) == 2 {
			x, y := f.t.Args[0], f.t.Args[1]
			due := func(t *Term) bool {
				if t.Op == OPure && t.Name == "(time.Time).Add" && len(t.Args) == 2 && t.Args[0] == last {
					v, ok := t.Args[1].intConst()
					return ok && v <= max
				}
				return false
			}
			switch {
			case f.t.Name == "(time.Time).After" && !f.v && due(y),
				f.t.Name == "(time.Time).Before" && f.v && due(y),
				f.t.Name == "(time.Time).Before" && !f.v && due(x),
				f.t.Name == "(time.Time).After" && f.v && due(x):
				found = true
			}
		}
	}
	for _, c := range k.z.cons {
		for _, t := range []*Term{c.a, c.b} {
			if t != nil {
				try(t)
			}
		}
	}
	return found
}

// ageFloor: the path facts say that data fetched at last is at least min old.
func ageFloor(k *Facts, last *Term, min int64) bool {
	isAge := func(t *Term) bool {
		if t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall && t.Org.Name == "time.Since" && t.Org.Args[0] == last {
			return true
		}
		return t.Op == OPure && (t.Name == "(time.Time).Sub" && len(t.Args) == 2 && t.Args[1] == last ||
			t.Name == "time.Since" && len(t.Args) == 1 && t.Args[0] == last)
	}
	found := false
	seen := map[*Term]bool{}
	try := func(t *Term) {
		t.walk(func(x *Term) bool {
			if seen[x] || found {
				return false
			}
			seen[x] = true
			if isAge(x) && k.z.leq(mkInt(min, nil), x, 0) {
				found = true
			}
			return true
		})
	}
	for _, f := range k.f {
		try(f.t)
		if f.t.Op == OPure && len(f.t.Args) == 2 {
			x, y := f.t.Args[0], f.t.Args[1]
			due := func(t *Term) bool {
				if t.Op == OPure && t.Name == "(time.Time).Add" && len(t.Args) == 2 && t.Args[0] == last {
					v, ok := t.Args[1].intConst()
					return ok && v >= min
				}
				return false
			}
			switch {
			case f.t.Name == "(time.Time).After" && f.v && due(y),
				f.t.Name == "(time.Time).Before" && !f.v && due(y),
				f.t.Name == "(time.Time).Before" && f.v && due(x),
				f.t.Name == "(time.Time).After" && !f.v && due(x):
				found = true
			}
		}
	}
	for _, c := range k.z.cons {
		for _, t := range []*Term{c.a, c.b} {
			if t != nil {
				try(t)
			}
		}
	}
	return found
}

// a tick: iterations of the worker that begin with a receive.
type tick struct {
	x    *Root
	ch   string
	chT  *Term
	its  []*State
	from []*Event // start of each iteration
}

func (A *Analysis) ticks(r *Rep, xs []*Root) []*tick {
	m := map[string]*tick{}
	var order []string
	for _, x := range xs {
		for _, l := range x.Iters {
			for _, st := range l.Iters {
				var rc *Event
				for _, e := range eventsUpTo(st.ev, l.Start) {
					if e.Kind == EvRecv && e.Thread == 0 {
						rc = e
						break
					}
				}
				if rc == nil {
					continue
				}
				key := x.Name + " " + chanName(rc.Addr)
				t := m[key]
				if t == nil {
					t = &tick{x: x, ch: chanName(rc.Addr), chT: rc.Addr}
					m[key] = t
					order = append(order, key)
				}
				t.its = append(t.its, st)
				t.from = append(t.from, l.Start)
			}
		}
	}
	var ts []*tick
	for _, k := range order {
		ts = append(ts, m[k])
	}
	return ts
}

// chanName names a channel independently of when it was read.
func chanName(t *Term) string {
	switch t.Op {
	case OField:
		return chanName(t.Args[0]) + "." + fieldName(t.Args[0].Typ, int(t.Off))
	case OSym:
		if t.Src != nil {
			return chanName(t.Src)
		}
		if t.Org != nil {
			return fmt.Sprintf("%s@%d", t.Org.Name, t.Org.Pos)
		}
		return t.Name
	case OGlobal:
		return t.Obj.(*ssa.Global).Name()
	}
	return strings.TrimPrefix(t.String(), "&")
}

// ownTicker: the ticker was made in this root and is not handed to others.
func ownTicker(x *Root, e *Event) bool {
	t := e.Recv
	if t == nil && len(e.Args) > 0 {
		t = e.Args[0]
	}
	if t == nil || t.Org == nil || t.Org.Kind != EvCall || t.Org.Name != "time.NewTicker" {
		return false
	}
	own := true
	x.eachEvent(func(g *Event) {
		switch g.Kind {
		case EvStore, EvSend:
			if g.Val != nil && g.Val.contains(func(y *Term) bool { return y == t }) {
				own = false
			}
		case EvGo:
			own = false
		}
	})
	return own
}

func checkC16(A *Analysis, r *Rep) {
	P := A.P
	r.rule("filled-at-start", "on every path of main that starts the background worker, each kind of data has been queried before")
	r.rule("ticking-before-start", "every ticker the worker waits for has a constant positive period and is created before the worker starts (or by the worker before its loop), and is never stopped or changed")
	r.rule("refreshed-when-due", "each kind of data has a ticker every tick of which queries the unit unless the data is known to be no older than the ticker's period")
	r.rule("serves-for-ever", "the worker never returns, and does all its work in its own goroutine, one event at a time")
	r.rule("worker-started", "main starts the worker, once, on every path on which it serves")
	ks := A.cacheKinds(r)
	ws := r.use(A.workerRoots()...)
	mr := r.use(A.mainRoot())
	ts := A.ticks(r, ws)
	// tickers
	isTicker := map[*tick][]*Term{}
	workers := map[*ssa.Function]bool{}
	for _, t := range ts {
		ps := A.periods(t.chT, 0)
		if len(ps) == 0 {
			continue
		}
		isTicker[t] = ps
		workers[t.x.Fn] = true
		ok := true
		for _, p := range ps {
			if p == nil {
				ok = false
				continue
			}
			v, isc := p.intConst()
			ok = ok && isc && v > 0
		}
		r.check("ticking-before-start", t.ch, t.x.Fn.Pos(), ok, nil, "the period of %s is not a positive constant: %v", t.ch, ps)
	}
	for _, x := range mr {
		for _, st := range x.ends() {
			ev := st.events()
			for i, g := range ev {
				if g.Kind != EvGo || g.Callee == nil || !workers[g.Callee] {
					continue
				}
				for _, c := range ks {
					found := false
					for _, e := range ev[:i] {
						found = found || c.isGet(e)
					}
					r.check("filled-at-start", c.name(), g.Pos, found, &State{ev: g, k: g.Snap}, "%s is not queried before the worker is started", c.name())
				}
				for t := range isTicker {
					v := tickerVar(t.chT)
					if v == nil {
						continue // made by the worker
					}
					if A.P.initMem[v] != nil && A.periods(A.P.initMem[v], 0) != nil {
						continue
					}
					found := false
					for _, e := range ev[:i] {
						found = found || e.Kind == EvStore && e.Addr.root() == v
					}
					r.check("ticking-before-start", t.ch+" is set", g.Pos, found, &State{ev: g, k: g.Snap}, "the worker is started before %s", t.ch)
				}
			}
			for i, e := range ev {
				if !servesHTTP(e) {
					continue
				}
				n := 0
				for _, g := range ev[:i] {
					if g.Kind == EvGo && workers[g.Callee] {
						n++
					}
				}
				r.check("worker-started", "main", e.Pos, n == 1 && len(workers) == 1, &State{ev: e, k: e.Snap}, "%d background workers run when the server starts to listen", n)
			}
		}
	}
	for _, x := range A.srvRoots() {
		visit := x.eachEvent
		if workers[x.Fn] {
			visit = x.eachTurn // what happens when the worker ends is no matter
		}
		visit(func(e *Event) {
			if e.Kind == EvCall && (strings.HasSuffix(e.Name, "time.Ticker).Stop") || strings.HasSuffix(e.Name, "time.Ticker).Reset")) {
				if strings.HasPrefix(x.Name, "rpc:") && ownTicker(x, e) {
					return // made by the request for itself
				}
				r.check("ticking-before-start", "stopped in "+fnOf(e), e.Pos, false, &State{ev: e, k: e.Snap}, "a ticker is stopped or changed")
			}
			if e.Kind == EvStore && e.Thread == 0 && !strings.HasPrefix(x.Name, "main") {
				for t := range isTicker {
					if v := tickerVar(t.chT); v != nil && e.Addr.root() == v {
						gone := false
						for p := e.Prev; p != nil; p = p.Prev {
							gone = gone || p.Kind == EvLoop
						}
						r.check("ticking-before-start", t.ch+" replaced in "+fnOf(e), e.Pos, !gone && workers[x.Fn], &State{ev: e, k: e.Snap}, "%s is replaced at run time", t.ch)
					}
				}
			}
		})
	}
	for _, c := range ks {
		good := ""
		var msg string
		var bad *State
		var pos token.Pos
		for _, t := range ts {
			ps := isTicker[t]
			if len(ps) == 0 {
				continue
			}
			period := int64(inf)
			for _, p := range ps {
				if p == nil {
					period = 0
					continue
				}
				if v, ok := p.intConst(); ok && v < period {
					period = v
				}
			}
			ok, any := true, false
			for i, st := range t.its {
				got := false
				for _, e := range eventsUpTo(st.ev, t.from[i]) {
					got = got || c.isGet(e)
				}
				if got {
					any = true
					continue
				}
				// not queried: must be fresh
				fresh := false
				for _, e := range eventsUpTo(st.ev, t.from[i]) {
					if e.Kind != EvLoad || e.Addr.root() != c.root || e.Val == nil {
						continue
					}
					s := snapOf(e.Val, c.root)
					if s == nil {
						continue
					}
					last, _ := fieldAt(s, c.root.Typ, c.time)
					fresh = fresh || ageBound(st.k, last, period)
				}
				if !fresh {
					ok = false
					bad, pos = st, t.x.Fn.Pos()
					msg = fmt.Sprintf("a tick of %s neither queries the unit nor finds %s younger than %d ns", t.ch, c.name(), period)
				}
			}
			if ok && any {
				good = t.ch
			} else if !any && msg == "" {
				msg = "no tick queries the unit"
			}
		}
		if good != "" {
			bad = nil
		}
		r.check("refreshed-when-due", c.name(), pos, good != "", bad, "%s is not refreshed: %s", c.name(), msg)
	}
	for _, x := range ws {
		if !workers[x.Fn] {
			continue
		}
		for _, o := range x.Outs {
			r.check("serves-for-ever", x.Fn.Name()+" returns", x.Fn.Pos(), o.Kind != KRet && o.Kind != KExit && o.Kind != KBlocked, o.St, "the worker can stop serving")
		}
		r.check("serves-for-ever", x.Fn.Name(), x.Fn.Pos(), len(x.Iters) > 0, nil, "no loop")
		x.eachEvent(func(e *Event) {
			if e.Kind == EvGo {
				r.check("serves-for-ever", x.Fn.Name()+" starts goroutines", e.Pos, false, &State{ev: e, k: e.Snap}, "work is moved to another goroutine")
			}
		})
		r.check("worker-started", x.Fn.Name(), x.Fn.Pos(), A.startedOnce(x.Fn), nil, "the worker may be started more than once")
	}
	_ = P
	r.atLeast("filled-at-start", 6)
	r.atLeast("ticking-before-start", 2)
	r.atLeast("refreshed-when-due", 6)
	r.atLeast("serves-for-ever", 1)
	r.atLeast("worker-started", 2)
}

// ---- flushing ----

// selectors of a flush request, from the RPC package.
func (A *Analysis) flushEnum() map[string]int64 {
	m := map[string]int64{}
	for _, mem := range A.P.Rpc.Members {
		c, ok := mem.(*ssa.NamedConst)
		if !ok || !strings.Contains(shortType(c.Type()), "FlushCacheRequest_") {
			continue
		}
		n := c.Name()
		n = n[strings.LastIndex(n, "_")+1:]
		if v, ok := constant.Int64Val(c.Value.Value); ok {
			m[n] = v
		}
	}
	return m
}

// what each selector means, in terms of library calls
var flushTable = map[string][]string{
	"BootInfo": {"GetBootloader"},
	"Bypass":   {"GetBypass"},
	"Fans":     {"GetFans"},
	"Temps":    {"GetTemperatures"},
	"Profiles": {"GetFanProfiles"},
	"All":      {"GetBootloader", "GetBypass", "GetErrors", "GetFans", "GetFanProfiles", "GetTemperatures"},
}

func checkC17(A *Analysis, r *Rep) {
	P := A.P
	r.rule("request-then-answer", "the flush RPC sends its selector unaltered to the worker, once, then waits unconditionally for one answer and returns exactly that")
	r.rule("own-answer", "request and answer channel are unbuffered, made once at start-up, used by nobody else, and served by a single worker (or request and answer are made under one lock)")
	r.rule("queries-what-is-asked", "for each known selector the worker queries exactly the caches it names, unconditionally, before it answers")
	r.rule("one-answer", "every request taken by the worker is answered exactly once, in the same turn")
	r.rule("truthful", "true is answered only to a known selector all of whose queries succeeded, false only to an unknown one or one with a failed query")
	enum := A.flushEnum()
	for n := range flushTable {
		if _, ok := enum[n]; !ok {
			r.undecided("FlushCacheRequest_"+n, "selector not found in the RPC package")
			return
		}
	}
	if len(enum) != len(flushTable) {
		r.undecided("FlushCacheRequest", "selectors the analysis has no rule for")
		return
	}
	h := A.handler("FlushCache")
	if h == nil || len(r.use(h)) == 0 {
		r.undecided("FlushCache", "handler not found")
		return
	}
	req, rep := map[*Term]bool{}, map[*Term]bool{}
	locked := true
	var reqP *Term
	for i, p := range h.Fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && strings.Contains(shortType(p.Type()), "FlushCacheRequest") {
			_ = pt
			reqP = h.Params[i]
		}
	}
	if reqP == nil {
		r.undecided("FlushCache", "request not found")
		return
	}
	sel := func(st *State) *Term {
		t := reqP.elemTyp()
		s := structOf(t)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Cache" {
				return mkField(h.In.content(st, reqP), i, s.Field(i).Type())
			}
		}
		return nil
	}
	done := 0
	for i := range h.Outs {
		o := &h.Outs[i]
		if o.Kind != KRet {
			continue
		}
		var sends, recvs []*Event
		cancelled := false
		for _, e := range o.St.events() {
			switch e.Kind {
			case EvSend:
				sends = append(sends, e)
			case EvRecv:
				if isDone(e.Addr) {
					cancelled = true
					continue
				}
				recvs = append(recvs, e)
			}
		}
		errNil := knownNil(o.St.k, h.ret(o, 1))
		if len(sends) == 0 && len(recvs) == 0 && h.success(o) == nil {
			// refused before anything was asked
			k := o.St.k
			unknown := true
			for _, v := range enum {
				c := k.clone()
				if c.assume(c.cmp(token.EQL, sel(o.St), mkInt(v, sel(o.St).Typ), sel(o.St).Typ), true) {
					unknown = false
				}
			}
			r.check("request-then-answer", "refused", h.Fn.Pos(), cancelled || unknown, o.St, "a request for a known cache is refused")
			continue
		}
		ok := len(sends) == 1 && len(recvs) == 1 && sends[0].N < recvs[0].N && !cancelled
		if !r.check("request-then-answer", "one request, one answer", h.Fn.Pos(), ok, o.St, "%d values sent, %d received; cancelled: %v", len(sends), len(recvs), cancelled) {
			continue
		}
		done++
		s, a := sends[0], recvs[0]
		r.check("request-then-answer", "selector", s.Pos, eqInt(o.St.k, s.Val, sel(o.St)), o.St, "sends %v instead of the selector of the request", s.Val)
		m, _, _ := h.response(o)
		got := m["Success"]
		val := a.Val
		same := got != nil && (got == val || knownBoolEq(o.St.k, got, val))
		r.check("request-then-answer", "answer", a.Pos, errNil && same, o.St, "returns %v instead of the answer %v of the worker", got, val)
		req[s.Addr], rep[a.Addr] = true, true
		l := false
		for _, hd := range s.Held {
			if x := heldLock(a.Held, hd.Lock); x != nil && x.Ev == hd.Ev && hd.Mode == 'w' && P.globalLock(hd.Lock) {
				l = true
			}
		}
		locked = locked && l
	}
	r.check("request-then-answer", "answers", h.Fn.Pos(), done > 0, nil, "the flush RPC never asks the worker")
	if len(req) != 1 || len(rep) != 1 {
		r.check("own-answer", "channels", h.Fn.Pos(), false, nil, "%d request and %d answer channels", len(req), len(rep))
		return
	}
	var rq, rp *Term
	for t := range req {
		rq = t
	}
	for t := range rep {
		rp = t
	}
	for _, c := range []struct {
		n string
		t *Term
	}{{"request", rq}, {"answer", rp}} {
		ic, ok := P.initChans[c.t]
		if !r.check("own-answer", c.n+" channel", h.Fn.Pos(), ok && rq != rp, nil, "the %s channel is not made once at start-up", c.n) {
			continue
		}
		v, isc := ic.cap.intConst()
		r.check("own-answer", c.n+" channel unbuffered", h.Fn.Pos(), locked || isc && v == 0, nil, "the %s channel is buffered: one client's answer can reach another", c.n)
	}
	// users of the channels
	var worker *Root
	for _, x := range r.use(A.srvRoots()...) {
		x.eachEvent(func(e *Event) {
			st := &State{ev: e, k: e.Snap}
			isW := false
			for _, w := range A.workerRoots() {
				isW = isW || w == x
			}
			if strings.HasPrefix(x.Name, "srv:") {
				return
			}
			switch {
			case e.Kind == EvSend && e.Addr == rq, e.Kind == EvRecv && e.Addr == rp:
				r.check("own-answer", "client end in "+fnOf(e), e.Pos, x == h, st, "%s uses the client's end of the channels", x.Name)
			case e.Kind == EvRecv && e.Addr == rq, e.Kind == EvSend && e.Addr == rp:
				r.check("own-answer", "worker end in "+fnOf(e), e.Pos, isW && e.Thread == 0 && (worker == nil || worker == x), st, "%s uses the worker's end of the channels", x.Name)
				if isW {
					worker = x
				}
			case e.Kind == EvClose && (e.Addr == rq || e.Addr == rp):
				r.check("own-answer", "closed in "+fnOf(e), e.Pos, false, st, "a channel is closed")
			}
		})
	}
	if worker == nil {
		r.check("one-answer", "worker", h.Fn.Pos(), false, nil, "no worker takes flush requests")
		return
	}
	r.check("own-answer", "single worker", worker.Fn.Pos(), A.startedOnce(worker.Fn), nil, "several workers serve the channels")
	byGetter := map[*ssa.Function]string{}
	fnOfGetter := map[string]*ssa.Function{}
	for _, e := range kindTable {
		if f := P.Lib.Func(e.getter); f != nil {
			byGetter[f] = e.getter
			fnOfGetter[e.getter] = f
		}
	}
	var names []string
	for n := range enum {
		names = append(names, n)
	}
	sort.Strings(names)
	nIt := 0
	for _, l := range worker.Iters {
		for _, st := range l.Iters {
			ev := eventsUpTo(st.ev, l.Start)
			var rc *Event
			var sends []*Event
			n := 0
			gets := map[string]*Event{}
			for _, e := range ev {
				switch {
				case e.Kind == EvRecv && e.Addr == rq:
					n++
					rc = e
				case e.Kind == EvSend && e.Addr == rp:
					sends = append(sends, e)
				case e.Kind == EvCall && e.Callee != nil && byGetter[e.Callee] != "":
					if rc != nil && len(sends) == 0 {
						gets[byGetter[e.Callee]] = e
					} else if rc != nil {
						gets["late "+byGetter[e.Callee]] = e
					}
				}
			}
			if rc == nil {
				r.check("one-answer", "unasked", worker.Fn.Pos(), len(sends) == 0, st, "an answer is given without a request")
				continue
			}
			nIt++
			if !r.check("one-answer", "turn", rc.Pos, n == 1 && len(sends) == 1, st, "%d requests are taken and %d answers given in one turn", n, len(sends)) {
				continue
			}
			ans := sends[0].Val
			k := st.k
			rest := k.clone()
			for _, sn := range names {
				v := enum[sn]
				c := k.clone()
				eq := c.cmp(token.EQL, rc.Val, mkInt(v, rc.Val.Typ), rc.Val.Typ)
				if rest != nil && !rest.assume(rest.cmp(token.EQL, rc.Val, mkInt(v, rc.Val.Typ), rc.Val.Typ), false) {
					rest = nil
				}
				if !c.assume(eq, true) {
					continue
				}
				want := map[string]bool{}
				allOK, someFail := true, false
				for _, g := range flushTable[sn] {
					want[g] = true
					e := gets[g]
					if !r.check("queries-what-is-asked", sn+": "+g, rc.Pos, e != nil, st, "a flush of %s does not query %s before the answer", sn, g) {
						allOK = false
						continue
					}
					if !knownNil(c, e.errTerm()) {
						allOK = false
					}
					if !c.mayNil(e.errTerm()) {
						someFail = true
					}
				}
				for g := range gets {
					r.check("queries-what-is-asked", sn+": nothing else", rc.Pos, want[g], st, "a flush of %s also queries %s", sn, g)
				}
				switch {
				case knownTrue(c, ans):
					r.check("truthful", sn+": true", sends[0].Pos, allOK, st, "success is answered although a query may have failed")
				case knownFalse(c, ans):
					r.check("truthful", sn+": false", sends[0].Pos, someFail, st, "failure is answered although no query failed")
				default:
					r.check("truthful", sn, sends[0].Pos, false, st, "the answer %v is not decided by the queries", ans)
				}
			}
			if rest != nil {
				r.check("truthful", "unknown selector", sends[0].Pos, knownFalse(rest, ans), st, "an unknown selector is not answered with false")
				r.check("queries-what-is-asked", "unknown selector", rc.Pos, len(gets) == 0, st, "an unknown selector queries the unit")
			}
		}
	}
	r.check("one-answer", "requests are taken", worker.Fn.Pos(), nIt > 0, nil, "no turn of the worker takes a request")
	r.atLeast("request-then-answer", 4)
	r.atLeast("own-answer", 6)
	r.atLeast("queries-what-is-asked", 12)
	r.atLeast("truthful", 12)
	r.atLeast("one-answer", 2)
}

func knownBoolEq(k *Facts, a, b *Term) bool {
	x, ok1 := k.known(a)
	y, ok2 := k.known(b)
	return ok1 && ok2 && x == y
}

// isDone: the channel of a context.
func isDone(t *Term) bool {
	return t != nil && t.Org != nil && t.Org.Kind == EvCall && strings.HasSuffix(t.Org.Name, "context.Context).Done")
}

// ---- how often ----

const second = 1000000000

// documented refresh periods
var refreshPeriod = map[string]int64{
	"GetTemperatures": 5 * second,
	"GetFans":         5 * second,
	"GetFanProfiles":  5 * 60 * second,
	"GetBypass":       5 * 60 * second,
	"GetBootloader":   3600 * second,
	"GetErrors":       3600 * second,
}

func checkC37(A *Analysis, r *Rep) {
	r.rule("often-enough", "each kind of data has a ticker of at most its documented period every tick of which queries the unit unless the data is known to be younger than that period")
	r.rule("not-while-fresh", "a tick queries the unit only for data known to be at least a second old")
	ks := A.cacheKinds(r)
	ws := r.use(A.workerRoots()...)
	loaded := func(c *cacheKind, st *State, from *Event) (ls []*Term) {
		for _, e := range eventsUpTo(st.ev, from) {
			if e.Kind != EvLoad || e.Addr.root() != c.root || e.Val == nil {
				continue
			}
			if s := snapOf(e.Val, c.root); s != nil {
				last, _ := fieldAt(s, c.root.Typ, c.time)
				ls = append(ls, last)
			}
		}
		return
	}
	ts := A.ticks(r, ws)
	for _, c := range ks {
		max := refreshPeriod[c.getter]
		good, any, msg := false, false, "no tick queries the unit"
		var bad *State
		for _, t := range ts {
			ps := A.periods(t.chT, 0)
			if len(ps) == 0 {
				continue
			}
			short, long := int64(inf), int64(0)
			for _, p := range ps {
				v, ok := int64(0), false
				if p != nil {
					v, ok = p.intConst()
				}
				if !ok {
					v = int64(inf)
				}
				if v < short {
					short = v
				}
				if v > long {
					long = v
				}
			}
			ok, queries := true, false
			var b *State
			for i, st := range t.its {
				ls := loaded(c, st, t.from[i])
				var g *Event
				for _, e := range eventsUpTo(st.ev, t.from[i]) {
					if c.isGet(e) && g == nil {
						g = e
					}
				}
				if g != nil {
					queries = true
					old := false
					for _, l := range ls {
						old = old || ageFloor(g.Snap, l, second)
					}
					r.check("not-while-fresh", t.ch+": "+c.name(), g.Pos, old, &State{ev: g, k: g.Snap}, "a tick of %s queries the unit for %s although it may just have been fetched", t.ch, c.name())
					continue
				}
				young := false
				for _, l := range ls {
					young = young || ageBound(st.k, l, short)
				}
				if !young {
					ok, b = false, st
				}
			}
			if !queries {
				continue
			}
			any = true
			switch {
			case !ok:
				if msg != "" {
					msg, bad = "a tick of "+t.ch+" skips it although it may be due", b
				}
			case long > max:
				if bad == nil {
					msg = fmt.Sprintf("%s ticks every %d ns", t.ch, long)
				}
			default:
				good = true
			}
		}
		_ = any
		if good {
			bad = nil
		}
		r.check("often-enough", c.name(), c.fn.Pos(), good, bad, "%s is not refreshed every %d s: %s", c.name(), max/second, msg)
	}
	r.atLeast("often-enough", 6)
	r.atLeast("not-while-fresh", 6)
	r.borrow("C16", checkC16, "ticking-before-start", "serves-for-ever")
}

func init() {
	checks["C37"] = propCheck{checkC37, "Every turn of the worker that begins with a tick: which kinds of data it queries, what the path says about their age (as a bound of the time since the stored update time), and the constant period of the ticker, compared with the documented periods of 5 seconds (temperatures, fans), 5 minutes (fan profiles, bypass) and an hour (boot info, errors)."}
}
