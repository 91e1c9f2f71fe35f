package main

import "strings"

// C06: no byte from the unit and no argument can cause a panic.

var panicKinds = map[string]string{
	"nil": "nil dereference", "index": "index out of range", "slice": "slice bounds out of range", "div": "division by zero",
	"shift": "negative shift count", "nilmap": "assignment to an entry of a nil map", "assert": "failing type assertion",
	"panic": "panic", "close": "close of a closed channel", "send": "send on a closed channel", "makeslice": "make with a bad length",
}

func (A *Analysis) allRoots() []*Root {
	var rs []*Root
	rs = append(rs, A.exchangeRoots()...)
	rs = append(rs, A.libRoots()...)
	rs = append(rs, A.libOther()...)
	rs = append(rs, A.handlerRoots()...)
	rs = append(rs, A.workerRoots()...)
	rs = append(rs, A.mainRoot())
	rs = append(rs, A.srvFnRoots()...)
	return rs
}

func checkC06(A *Analysis, r *Rep) {
	for _, k := range []string{"nil", "index", "slice", "div", "shift", "nilmap", "assert", "panic", "close", "send", "makeslice"} {
		r.rule("no-"+k, "never a "+panicKinds[k]+", for any input")
	}
	for _, x := range r.use(A.allRoots()...) {
		x.eachEvent(func(e *Event) {
			if e.Kind != EvOblig || panicKinds[e.Name] == "" {
				return
			}
			if e.Fn != nil && e.Fn.Pkg == A.P.Main {
				return // start-up may give up with a panic
			}
			st := &State{ev: e, k: e.Snap}
			fn := x.Fn.Name()
			if e.Fn != nil {
				fn = fnName(e.Fn)
			}
			ok := e.OK
			if !ok && (e.Name == "index" || e.Name == "slice" || e.Name == "makeslice") && e.Fn != nil && codecShape(e.Fn) {
				// decided by the induction over the input (codec.go)
				ok = A.P.codecProof(e.Fn, false) == nil && A.P.codecSafe[e.Fn]
			}
			r.check("no-"+e.Name, strings.TrimPrefix(fn, "github.com/ti-mo/comfo/")+" at "+A.P.pos(e.Pos), e.Pos, ok, st, "%s possible when called through %s: %s", panicKinds[e.Name], x.Name, e.Msg)
		})
	}
	// the roots everything else is reached from
	if len(A.handlerRoots()) == 0 || len(A.workerRoots()) == 0 || len(A.libRoots()) == 0 {
		r.add(&Finding{Rule: "instances", Construct: "roots", Message: "library, handlers or worker not found"})
	}
	r.atLeast("no-index", 10)
	r.atLeast("no-slice", 5)
	r.atLeast("no-nil", 4)
}
