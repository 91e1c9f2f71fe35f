package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (A *Analysis) entryHeld(r *Root) []Held { return nil }

// C01: one exchange at a time on the link to the unit.
func checkC01(A *Analysis, r *Rep) {
	P := A.P
	r.rule("io-under-link-lock", "every read and write of the connection in an exchange happens while one and the same exclusive process-wide lock is held, taken before the first and not given back before the last of them")
	r.rule("one-link-lock", "all exchanges use the same lock")
	r.rule("lock-given-back", "the link lock is not held on any way out of an exchange")
	r.rule("io-only-in-exchange", "library calls above the exchange layer, the service and main touch the connection only through exchanges")
	locks := map[*Term]bool{}
	for _, x := range r.use(A.exchangeRoots()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			io := connEvents(P, o.St)
			if len(io) == 0 {
				r.check("lock-given-back", x.Fn.Name()+" without I/O", x.Fn.Pos(), len(o.St.held) == 0 || o.Kind == KExit || o.Kind == KBlocked, o.St, "returns holding a lock")
				continue
			}
			// the lock common to all of them
			var link *Held
			for _, h := range effHeld(o.St, io[0]) {
				if h.Mode != 'w' || !P.globalLock(h.Lock) {
					continue
				}
				all := true
				for _, e := range io {
					g := heldLock(effHeld(o.St, e), h.Lock)
					if g == nil || g.Ev != h.Ev || g.Mode != 'w' {
						all = false
					}
				}
				if all {
					c := h
					link = &c
					break
				}
			}
			if link == nil {
				for _, e := range io {
					ok := false
					for _, h := range effHeld(o.St, e) {
						if h.Mode == 'w' && P.globalLock(h.Lock) && heldLock(effHeld(o.St, io[0]), h.Lock) != nil {
							ok = true
						}
					}
					if !ok {
						r.check("io-under-link-lock", x.Fn.Name()+": "+e.Name+" in "+fnOf(e), e.Pos, false, o.St, "%s touches the connection without the exclusive lock that covers the whole exchange", e.Name)
					}
				}
				r.check("io-under-link-lock", x.Fn.Name(), io[0].Pos, false, o.St, "no single hold of an exclusive process-wide lock covers all reads and writes of the exchange")
				continue
			}
			// A goroutine that is not joined may still be at work after the
			// lock was released. What a time-out leaves behind is C02's.
			evs := o.St.events()
			late := false
			for _, w := range waitsOf(o.St) {
				late = late || w.late
			}
			for _, e := range io {
				over := e.Thread != 0 && (!late || P.connIO(e) == ioWrite) && !joinedAfter(evs, e)
				r.check("io-under-link-lock", x.Fn.Name()+": "+e.Name+" in "+fnOf(e), e.Pos, !over, o.St, "%s in a goroutine may come after the end of the exchange, when the lock is given back", e.Name)
			}
			locks[link.Lock] = true
			if o.Kind == KRet || o.Kind == KPanic {
				r.check("lock-given-back", fmt.Sprintf("%s: %s", x.Fn.Name(), lockName(P, link.Lock)), x.Fn.Pos(), heldLock(o.St.held, link.Lock) == nil, o.St, "an exchange ends while still holding the link lock")
			}
			if o.Kind == KBlocked {
				r.check("lock-given-back", fmt.Sprintf("%s: %s", x.Fn.Name(), lockName(P, link.Lock)), x.Fn.Pos(), false, o.St, "an exchange can block for ever (%s) while holding the link lock", o.Why)
			}
		}
	}
	r.check("one-link-lock", "all exchanges", 0, len(locks) <= 1, nil, "exchanges use %d different locks", len(locks))
	n := 0
	for _, x := range r.use(A.libRoots()...) {
		for _, s := range x.ends() {
			for _, e := range connEvents(P, s) {
				r.check("io-only-in-exchange", x.Fn.Name()+": "+e.Name+" in "+fnOf(e), e.Pos, false, s, "%s outside an exchange", e.Name)
			}
			n += len(P.exchangeCalls(s))
		}
		r.check("io-only-in-exchange", x.Fn.Name(), x.Fn.Pos(), true, nil, "")
	}
	var srv []*Root
	srv = append(srv, A.handlerRoots()...)
	srv = append(srv, A.workerRoots()...)
	srv = append(srv, A.mainRoot())
	srv = append(srv, A.srvFnRoots()...)
	for _, x := range r.use(srv...) {
		for _, s := range x.ends() {
			for _, e := range connEvents(P, s) {
				if e.Recv != nil && !isConnType(typeOf(e.Recv)) && !strings.Contains(e.Name, "Scanner") {
					continue // a response writer or the like
				}
				r.check("io-only-in-exchange", x.Name+": "+e.Name+" in "+fnOf(e), e.Pos, false, s, "the service uses the connection itself")
			}
		}
		r.check("io-only-in-exchange", x.Name, x.Fn.Pos(), true, nil, "")
	}
	r.atLeast("io-under-link-lock", 2)
	r.atLeast("lock-given-back", 1)
	if n == 0 {
		r.add(&Finding{Rule: "instances", Construct: "exchange calls", Message: "no library call carries out an exchange"})
	}
}

func typeOf(t *Term) types.Type {
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ
}

// fullRoots: every library call with the exchanges it makes analysed in place.
func (A *Analysis) fullRoots() []*Root {
	var rs []*Root
	for _, x := range A.exchangeRoots() {
		rs = append(rs, x)
	}
	return rs
}

// deadline of a wait: the timer or time-out channel among its cases.
func timerOf(ch *Term) *Event {
	// timer.C: field of the contents of the timer
	t := ch
	for t.Op == OField {
		t = t.Args[0]
	}
	for i := 0; i < 8 && t != nil; i++ {
		if t.Org != nil && t.Org.Kind == EvCall {
			switch t.Org.Name {
			case "time.NewTimer", "time.After":
				return t.Org
			case "context.WithTimeout", "context.WithDeadline":
				return t.Org
			case "(context.Context).Done":
				t = t.Org.Recv
				for t != nil && t.Op == OField {
					t = t.Args[0]
				}
				continue
			}
			return nil
		}
		if t.Src != nil {
			t = t.Src
			for t.Op == OField || t.Op == OFieldAddr {
				t = t.Args[0]
			}
			continue
		}
		break
	}
	return nil
}

func timerDur(e *Event) *Term {
	switch e.Name {
	case "time.NewTimer", "time.After":
		return e.Args[0]
	case "context.WithTimeout":
		return e.Args[1]
	}
	return nil
}

// waits lists the waits of the calling goroutine on a path.
type wait struct {
	ev    *Event // fork, or a plain receive
	timer *Event
	taken *Event // the receive that ended a fork
	late  bool   // the deadline ended it
}

func waitsOf(st *State) []wait {
	var ws []wait
	var fork *Event
	evs := st.events()
	for _, e := range evs {
		if e.Thread != 0 {
			continue
		}
		switch e.Kind {
		case EvFork:
			if e.Mode == 'd' { // does not wait
				fork = nil
				continue
			}
			w := wait{ev: e}
			for _, c := range e.Cases {
				if t := timerOf(c); t != nil {
					w.timer = t
				}
			}
			ws = append(ws, w)
			fork = e
		case EvRecv:
			if fork != nil && e.Pos == fork.Pos && ws[len(ws)-1].taken == nil {
				w := &ws[len(ws)-1]
				w.taken = e
				w.late = timerOf(e.Addr) != nil
				fork = nil
				continue
			}
			if t := timerOf(e.Addr); t != nil {
				ws = append(ws, wait{ev: e, timer: t, taken: e, late: true})
				continue
			}
			ws = append(ws, wait{ev: e, taken: e})
		}
	}
	return ws
}

// C02: nothing started by an exchange outlives it.
func checkC02(A *Analysis, r *Rep) {
	P := A.P
	r.rule("reader-joined", "a goroutine that reads from the connection has handed over its result before the call that started it returns")
	r.rule("send-never-stuck", "every value a goroutine hands over is received, or the channel has room for it")
	r.rule("goroutine-ends", "every goroutine an exchange starts comes to its end")
	for _, x := range r.use(A.exchangeRoots()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet && o.Kind != KPanic {
				continue
			}
			st := o.St
			late := ""
			for _, w := range waitsOf(st) {
				if w.late {
					late = "deadline-expired"
				}
			}
			if late == "" {
				late = "no-deadline"
			}
			evs := st.events()
			// sends of goroutines
			open := map[*Term]int64{}
			matched := map[*Event]bool{}
			for _, e := range evs {
				if e.Kind == EvRecv && e.Match != nil {
					matched[e.Match] = true
				}
			}
			for _, e := range evs {
				switch {
				case e.Kind == EvSend && e.Thread != 0:
					if matched[e] {
						r.check("send-never-stuck", x.Fn.Name()+": send in "+fnOf(e), e.Pos, true, st, "")
						continue
					}
					open[e.Addr]++
					c, ok := int64(0), false
					if e.Cap != nil {
						c, ok = e.Cap.intConst()
					}
					r.check("send-never-stuck", x.Fn.Name()+": send in "+fnOf(e), e.Pos, ok && open[e.Addr] <= c, st, "on this path (%s) nobody receives the value and the channel has no room for it: the goroutine stays for ever", late)
				case e.Kind == EvBlocked && e.Thread != 0:
					r.check("goroutine-ends", x.Fn.Name()+": "+fnOf(e), e.Pos, false, st, "goroutine blocks for ever: %s", e.Msg)
				case e.Kind == EvRecv && e.Thread != 0 && e.Match == nil:
					t := timerOf(e.Addr)
					r.check("goroutine-ends", x.Fn.Name()+": receive in "+fnOf(e), e.Pos, t != nil, st, "goroutine waits for a value nobody is bound to send")
					if s := disarmed(evs, e, t); s != nil {
						r.check("goroutine-ends", x.Fn.Name()+": receive in "+fnOf(e), e.Pos, false, st, "goroutine waits for a timer that may be stopped, or taken, before it fires (%s in %s)", s.Name, fnOf(s))
					}
				case e.Kind == EvGo:
					ok := e.Callee != nil && len(e.Callee.Blocks) > 0 && canReturn(e.Callee)
					r.check("goroutine-ends", x.Fn.Name()+": go in "+fnOf(e), e.Pos, ok, st, "a goroutine that never ends, or that cannot be analysed, is started by an exchange")
				case e.Thread != 0 && P.connIO(e) != ioNone:
					if joinedAfter(evs, e) {
						r.check("reader-joined", x.Fn.Name()+": "+e.Name+" in "+fnOf(e)+" "+late, e.Pos, true, st, "")
					} else {
						r.check("reader-joined", "late reader: "+late, e.Pos, false, st, "%s may still be using the connection after %s returned (%s)", e.Name, x.Fn.Name(), late)
					}
				case e.Kind == EvCall && strings.HasPrefix(e.Name, "time.AfterFunc"):
					r.check("goroutine-ends", x.Fn.Name()+": AfterFunc in "+fnOf(e), e.Pos, false, st, "work is left to a timer")
				}
			}
		}
	}
	A.scansEnd(r)
	for _, x := range r.use(A.libRoots()...) {
		x.eachEvent(func(e *Event) {
			if e.Kind == EvGo {
				r.check("goroutine-ends", x.Fn.Name()+": go in "+fnOf(e), e.Pos, false, nil, "a library call starts a goroutine outside an exchange")
			}
		})
		r.check("goroutine-ends", x.Fn.Name(), x.Fn.Pos(), true, nil, "")
	}
	r.atLeast("goroutine-ends", 8)
}

// scansEnd: a loop of the library that reads with a scanner is left when the
// scanner has nothing more; otherwise it would go round for ever, or start
// reading again after the call that started it is over.
func (A *Analysis) scansEnd(r *Rep) {
	P := A.P
	for _, f := range P.all {
		if f.Pkg != P.Lib {
			continue
		}
		for _, li := range P.loopsOf(f) {
			for b := range li.blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().String() != "(*bufio.Scanner).Scan" {
						continue
					}
					for b := range li.blocks {
						br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
						if !ok {
							continue
						}
						fail := 1
						v := br.Cond
						for {
							u, ok := v.(*ssa.UnOp)
							if !ok || u.Op != token.NOT {
								break
							}
							v, fail = u.X, 1-fail
						}
						if v == c && li.blocks[b.Succs[fail]] {
							r.check("goroutine-ends", "loop in "+f.Name(), c.Pos(), false, nil, "goes on reading after the scanner has come to its end")
						}
					}
				}
			}
		}
	}
}

// joinedAfter: another goroutine has seen a sign of e's goroutine given after e.
func joinedAfter(evs []*Event, e *Event) bool {
	for _, s := range evs {
		if s.Thread != e.Thread || s.N <= e.N {
			continue
		}
		if s.Kind == EvClose && closeSeen(evs, s) {
			return true
		}
		if s.Kind == EvSend {
			for _, v := range evs {
				if v.Kind == EvRecv && v.Match == s {
					return true
				}
			}
		}
	}
	return false
}

// disarmed returns what may keep the timer t from waking e up, unless
// something else is bound to end that wait.
func disarmed(evs []*Event, e, t *Event) *Event {
	if t == nil || t.Name != "time.NewTimer" {
		return nil
	}
	var by, fork *Event
	for _, s := range evs {
		switch {
		case s.Thread == e.Thread:
			if s.Kind == EvFork && s.Pos == e.Pos && s.N < e.N {
				fork = s
			}
		case s.Kind == EvCall && s.Recv != nil && strings.HasPrefix(s.Name, "(*time.Timer).") && timerOf(s.Recv) == t, s.Kind == EvRecv && timerOf(s.Addr) == t:
			by = s
		}
	}
	if by == nil {
		return nil
	}
	if fork != nil {
		for _, s := range evs {
			if s.Thread != e.Thread && (s.Kind == EvClose || s.Kind == EvSend) && s.Addr != e.Addr {
				for _, c := range fork.Cases {
					if c == s.Addr {
						return nil
					}
				}
			}
		}
	}
	return by
}

// closeSeen: a receive notices that the channel was closed.
func closeSeen(evs []*Event, c *Event) bool {
	for _, e := range evs {
		if e.Kind == EvRecv && e.Addr == c.Addr && e.N > c.N && e.Thread != c.Thread {
			return true
		}
	}
	return false
}

// C03: waiting for the unit is bounded by one deadline per exchange.
func checkC03(A *Analysis, r *Rep) {
	P := A.P
	r.rule("wait-has-deadline", "every wait of the calling goroutine can be ended by the deadline of the exchange; it never reads from the connection itself")
	r.rule("one-deadline", "all waits of an exchange share one timer, started once")
	r.rule("deadline-at-most-1s", "the timer is set to a constant above zero and at most one second")
	r.rule("deadline-after-write", "the timer is started after the request was written")
	r.rule("deadline-not-extended", "the timer is never reset or stopped while it is still needed")
	r.rule("deadline-is-error", "when the deadline ends a wait the call waits no more and returns a non-nil error")
	for _, x := range r.use(A.exchangeRoots()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			st := o.St
			if o.Kind == KBlocked {
				r.check("wait-has-deadline", x.Fn.Name()+": "+o.Why, x.Fn.Pos(), false, st, "the exchange can wait for ever: %s", o.Why)
				continue
			}
			if o.Kind == KExit {
				continue
			}
			evs := st.events()
			var timer, firstWrite *Event
			ws := waitsOf(st)
			for _, e := range evs {
				if e.Thread != 0 {
					continue
				}
				k := P.connIO(e)
				if k == ioWrite && firstWrite == nil {
					firstWrite = e
				}
				if k == ioRead || k == ioOther {
					r.check("wait-has-deadline", x.Fn.Name()+": "+e.Name+" in "+fnOf(e), e.Pos, false, st, "%s waits for the unit without a deadline", e.Name)
				}
				if e.Kind == EvCall && (e.Name == "(*sync.WaitGroup).Wait" || e.Name == "(*sync.Cond).Wait" || e.Name == "time.Sleep") {
					r.check("wait-has-deadline", x.Fn.Name()+": "+e.Name+" in "+fnOf(e), e.Pos, false, st, "%s waits without a deadline", e.Name)
				}
			}
			for j, w := range ws {
				c := x.Fn.Name() + ": wait in " + fnOf(w.ev)
				if w.timer == nil {
					ok := false
					if w.taken != nil && w.taken.Match != nil {
						for _, v := range ws[:j] {
							if v.timer != nil && v.taken != nil && v.taken.Match != nil && v.taken.Match.Thread == w.taken.Match.Thread && v.taken.Match.N > w.taken.Match.N {
								ok = true // sent before something already received
							}
						}
					}
					r.check("wait-has-deadline", c, w.ev.Pos, ok, st, "the calling goroutine waits without a deadline")
					continue
				}
				r.check("wait-has-deadline", c, w.ev.Pos, true, st, "")
				if timer == nil {
					timer = w.timer
				}
				r.check("one-deadline", c, w.ev.Pos, timer == w.timer, st, "waits of one exchange use different timers, so the total wait is longer than one time-out")
				r.check("deadline-after-write", c, w.timer.Pos, firstWrite != nil && firstWrite.N < w.timer.N, st, "the timer is started before the request has been written")
				d := timerDur(w.timer)
				ok := false
				if d != nil {
					lo, hi := st.k.z.rng(d)
					ok = lo > 0 && hi <= 1000000000
				}
				r.check("deadline-at-most-1s", c, w.timer.Pos, ok, st, "the time-out is not bounded by one second: %v", d)
				for _, e := range evs {
					if e.Kind == EvRecv && e.Thread != 0 && timerOf(e.Addr) == w.timer {
						r.check("deadline-not-extended", c+": receive in "+fnOf(e), e.Pos, false, st, "a goroutine takes the value of the deadline's timer")
					}
					if e.Kind != EvCall || e.Recv == nil {
						continue
					}
					if t := timerOf(e.Recv); t != nil && t != w.timer {
						continue // another timer
					}
					rst := strings.HasSuffix(e.Name, "time.Timer).Reset")
					stp := strings.HasSuffix(e.Name, "time.Timer).Stop")
					if (rst || stp && e.N < w.ev.N) && e.Thread == 0 {
						r.check("deadline-not-extended", c+" "+e.Name, e.Pos, false, st, "the deadline is changed by %s", e.Name)
					}
				}
				r.check("deadline-not-extended", c, w.ev.Pos, true, st, "")
				if w.late {
					ei := x.errIdx()
					er := o.Kind != KRet || ei >= 0 && !st.k.mayNil(x.ret(o, ei))
					r.check("deadline-is-error", c, w.ev.Pos, er, st, "the deadline expired but the error returned may be nil")
					r.check("deadline-is-error", c+" (last wait)", w.ev.Pos, j == len(ws)-1, st, "waits again after the deadline expired: the timer does not fire twice")
				}
			}
			for _, e := range evs {
				if e.Kind == EvCall && e.Thread == 0 && strings.HasSuffix(e.Name, "time.Timer).Reset") && len(ws) == 0 {
					r.check("deadline-not-extended", x.Fn.Name()+": Reset", e.Pos, false, st, "timer reset")
				}
			}
		}
	}
	for _, x := range r.use(A.libRoots()...) {
		x.eachEvent(func(e *Event) {
			if e.Kind == EvFork && e.Mode != 'd' || e.Kind == EvRecv || e.Kind == EvBlocked || P.connIO(e) != ioNone {
				r.check("wait-has-deadline", x.Fn.Name()+": "+fnOf(e), e.Pos, false, nil, "a library call waits outside an exchange")
			}
		})
		r.check("wait-has-deadline", x.Fn.Name(), x.Fn.Pos(), true, nil, "")
	}
	r.atLeast("deadline-at-most-1s", 1)
	r.atLeast("deadline-is-error", 1)
}
