package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- how long an RPC can take ----

// A timing sums up the waits of known length on paths: pauses, and the
// time-outs of the exchanges with the unit.
type timing struct {
	A     *Analysis
	loops map[*LoopRec]int64
	calls map[*ssa.Function]int64
	turns map[*Term]int64 // worker: longest turn that begins with a receive from a channel
	bad   []string
}

const forEver = int64(1) << 50

func (t *timing) unbounded(pos token.Pos, f string, a ...any) int64 {
	t.bad = append(t.bad, t.A.P.pos(pos)+": "+fmt.Sprintf(f, a...))
	return forEver
}

// waited: the time an event can take by itself.
func (t *timing) waited(e *Event) int64 {
	dur := func(d *Term) int64 {
		k := e.Snap
		if k == nil {
			k = newFacts()
		}
		_, hi := k.z.rng(d)
		if hi >= int64(24*time.Hour) {
			return t.unbounded(e.Pos, "%s in %s waits for a time that is not bounded", e.Name, fnOf(e))
		}
		return max(hi, 0)
	}
	switch e.Kind {
	case EvLoop:
		l := e.Loop
		if c, ok := t.loops[l]; ok {
			return c
		}
		t.loops[l] = 0
		var m int64
		for _, st := range l.Iters {
			m = max(m, t.sum(eventsUpTo(st.ev, l.Start)))
		}
		if m > 0 && l.Turns < 0 {
			t.loops[l] = forEver
			return t.unbounded(e.Pos, "the loop in %s takes up to %v per turn and the number of its turns is not bounded by a counter", l.Fn.Name(), time.Duration(m))
		}
		if m > 0 && l.Turns > 0 && m > forEver/l.Turns {
			m = forEver
		} else if m > 0 {
			m *= l.Turns
		}
		t.loops[l] = m
		return m
	case EvSend:
		return t.turns[e.Addr]
	case EvRecv:
		if e.Addr == nil {
			return 0
		}
		if o := madeBy(e.Addr); o != nil && (o.Name == "time.NewTicker" || o.Name == "time.Tick") {
			return dur(o.Args[0])
		}
		return 0
	case EvCall:
		switch e.Name {
		case "time.Sleep", "time.After", "time.NewTimer":
			return dur(e.Args[0])
		case "context.WithTimeout":
			return dur(e.Args[1])
		case "(*time.Timer).Reset":
			return dur(e.Args[len(e.Args)-1])
		}
		if e.Callee == nil {
			return 0
		}
		if t.A.P.isExchange(e.Callee) {
			return t.root(e.Callee, func() *Root { return t.A.exchange(e.Callee) })
		}
		if t.A.P.libBoundary(e.Callee) {
			return t.root(e.Callee, func() *Root {
				for _, x := range t.A.libRoots() {
					if x.Fn == e.Callee {
						return x
					}
				}
				return nil
			})
		}
	}
	return 0
}

func (t *timing) root(f *ssa.Function, get func() *Root) int64 {
	if c, ok := t.calls[f]; ok {
		return c
	}
	t.calls[f] = forEver
	x := get()
	if x == nil {
		return t.unbounded(f.Pos(), "the time %s takes is not known", f.Name())
	}
	if x.Err != "" {
		return t.unbounded(f.Pos(), "the time %s takes is not known: %s", f.Name(), x.Err)
	}
	var m int64
	for i := range x.Outs {
		m = max(m, t.sum(x.Outs[i].St.events()))
	}
	t.calls[f] = m
	return m
}

func (t *timing) sum(evs []*Event) (s int64) {
	for _, e := range evs {
		s = min(s+t.waited(e), forEver)
	}
	return
}

// madeBy: the call that made the timer or ticker a channel belongs to.
func madeBy(c *Term) *Event {
	for c.Op == OField {
		c = c.Args[0]
	}
	if c.Src != nil && c.Src.root().Org != nil {
		c = c.Src.root()
	}
	if o := c.Org; o != nil && o.Kind == EvCall && len(o.Args) > 0 {
		return o
	}
	return nil
}

func checkC35(A *Analysis, r *Rep) {
	r.rule("exchange-bounded", "the time-out of an exchange bounds every wait for the unit (the rules of C03)")
	r.rule("within-write-timeout", "on every path of an RPC handler, the pauses, the time-outs of the exchanges it makes and, for a request handed to the worker, those of the turn that serves it, loops multiplied by the bound of their turns, sum to less than the HTTP server's WriteTimeout (none if it is not set)")
	// exchanges
	sub := newRep("C03", A)
	checkC03(A, sub)
	for _, k := range sub.forder {
		f := sub.findings[k]
		r.add(&Finding{Rule: "exchange-bounded", Construct: f.Rule + " " + f.Construct, Where: f.Where, Message: f.Message, Path: f.Path})
	}
	xs := r.use(A.exchangeRoots()...)
	for _, x := range xs {
		r.check("exchange-bounded", x.Fn.Name(), x.Fn.Pos(), true, nil, "")
	}
	// the server
	main := A.mainRoot()
	if len(r.use(main)) == 0 {
		return
	}
	limit, served := int64(-1), false
	main.eachEvent(func(e *Event) {
		s := serveOf(e)
		if s == nil {
			return
		}
		served = true
		if !strings.HasPrefix(e.Name, "(*net/http.Server).") {
			return // the default server has no time-outs
		}
		if e.Cont == nil || len(e.Cont.Args) == 0 {
			r.undecided("server", "the settings of the HTTP server are not known")
			return
		}
		w := contField(e.Cont.Args[0], "WriteTimeout")
		if w == nil {
			r.undecided("server", "the write time-out of the HTTP server is not known")
			return
		}
		lo, hi := e.Snap.z.rng(w)
		if hi <= 0 {
			return
		}
		if lo <= 0 {
			r.undecided("server", "the write time-out of the HTTP server is not known: "+w.String())
			return
		}
		if limit < 0 || lo < limit {
			limit = lo
		}
	})
	if !served {
		r.undecided("server", "no HTTP server is started")
		return
	}
	t := &timing{A: A, loops: map[*LoopRec]int64{}, calls: map[*ssa.Function]int64{}, turns: map[*Term]int64{}}
	for _, w := range r.use(A.workerRoots()...) {
		for _, l := range w.Iters {
			for _, st := range l.Iters {
				evs := eventsUpTo(st.ev, l.Start)
				for i, e := range evs {
					if e.Kind == EvRecv && e.Thread == 0 && e.Addr != nil {
						if madeBy(e.Addr) == nil {
							t.turns[e.Addr] = max(t.turns[e.Addr], t.sum(evs[i+1:]))
						}
						break
					}
				}
			}
		}
	}
	hs := r.use(A.handlerRoots()...)
	sort.Slice(hs, func(i, j int) bool { return hs[i].Fn.Name() < hs[j].Fn.Name() })
	for _, h := range hs {
		var worst int64
		var at *State
		for i := range h.Outs {
			o := &h.Outs[i]
			if c := t.sum(o.St.events()); at == nil || c > worst {
				worst, at = c, o.St
			}
		}
		ok := limit < 0 || worst < limit
		what := time.Duration(worst).String()
		if worst >= forEver {
			what = "unboundedly long (" + strings.Join(t.bad, "; ") + ")"
		}
		r.check("within-write-timeout", h.Fn.Name(), h.Fn.Pos(), ok, at, "%s can take %s by itself, the HTTP server cuts the connection after %v", h.Fn.Name(), what, time.Duration(limit))
		if limit >= 0 && ok {
			r.samples = append(r.samples, fmt.Sprintf("%s: at most %v of %v", h.Fn.Name(), time.Duration(worst), time.Duration(limit)))
		}
	}
	r.atLeast("exchange-bounded", 1)
	r.atLeast("within-write-timeout", 10)
}

func init() {
	checks["C35"] = propCheck{checkC35, "The waits of known length (constant pauses, timers and deadlines created) on every path of every RPC handler are added up: library calls by the longest path through them, loops by the longest turn times the bound of the turns that a counter gives, a request handed to the worker by the longest turn of the worker that takes it. The sum is compared with the WriteTimeout of the http.Server the main function serves with. C03's rules are applied to every exchange, so that its time-out does bound it. Waiting for locks, for the current turn of the worker and for writes to the connection is not counted."}
}
