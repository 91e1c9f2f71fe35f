package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the setter RPCs ----

type setterSpec struct {
	rpc, msg, set string
	kind          string   // getter of the data the decision is based on
	refresh       []string // queries that show the change
	resource      string
}

var setterTable = []*setterSpec{
	{"SetFanSpeed", "FanSpeedTarget", "SetSpeed", "GetFanProfiles", []string{"GetFans", "GetFanProfiles"}, "fan"},
	{"SetFanProfile", "FanProfileTarget", "SetFanProfile", "GetFanProfiles", []string{"GetFanProfiles"}, "fan"},
	{"SetComfortTemp", "ComfortTarget", "SetComfort", "GetTemperatures", []string{"GetTemperatures"}, "temperature"},
}

// A setter is a setter RPC with its paths.
type setter struct {
	*setterSpec
	A    *Analysis
	x    *Root
	kind *cacheKind
	reqP *Term
	msgS *types.Struct
}

// an input case of a setter: the inputs it stands for and what they ask for
type setCase struct {
	name   string
	valid  bool
	assume func(k *Facts) bool
	args   []*Term // arguments of the command
	target *Term   // target reported
	orig   *Term   // cached value the decision is based on
	value  *Term   // value it is compared with
}

func (A *Analysis) setters(r *Rep) []*setter {
	var ss []*setter
	ks := A.cacheKinds(r)
	for _, sp := range setterTable {
		x := A.handler(sp.rpc)
		if x == nil {
			r.undecided(sp.rpc, "handler not found")
			continue
		}
		if len(r.use(x)) == 0 {
			continue
		}
		s := &setter{setterSpec: sp, A: A, x: x}
		for _, k := range ks {
			if k.getter == sp.kind {
				s.kind = k
			}
		}
		for i, p := range x.Fn.Params {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && strings.HasSuffix(shortType(pt.Elem()), sp.msg) {
				s.reqP = x.Params[i]
				s.msgS = structOf(pt.Elem())
			}
		}
		if s.kind == nil || s.reqP == nil || s.msgS == nil {
			r.undecided(sp.rpc, "request or cache not found")
			continue
		}
		ss = append(ss, s)
	}
	return ss
}

func (s *setter) req(st *State, name string) *Term {
	for i := 0; i < s.msgS.NumFields(); i++ {
		if s.msgS.Field(i).Name() == name {
			return mkField(s.x.In.content(st, s.reqP), i, s.msgS.Field(i).Type())
		}
	}
	panic(undecidedErr{s.rpc + ": the request has no field " + name})
}

func (s *setter) data(sym *Term, name string) *Term {
	d, dt := fieldAt(sym, s.kind.root.Typ, s.kind.path)
	st := structOf(dt)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(d, i, st.Field(i).Type())
		}
	}
	panic(undecidedErr{s.rpc + ": the cached data has no field " + name})
}

// snapshots of the cache read on the path before an event.
func (k *cacheKind) snapshots(st *State, until *Event) (syms []*Term, loads map[*Term][]*Event) {
	loads = map[*Term][]*Event{}
	for _, e := range st.events() {
		if e == until {
			break
		}
		if e.Kind != EvLoad || e.Addr == nil || e.Addr.root() != k.root || e.Val == nil {
			continue
		}
		if sy := snapOf(e.Val, k.root); sy != nil {
			if loads[sy] == nil {
				syms = append(syms, sy)
			}
			loads[sy] = append(loads[sy], e)
		}
	}
	return
}

func between(t *Term, lo, hi int64) func(k *Facts) bool {
	return func(k *Facts) bool {
		return k.assume(k.cmp(token.LSS, t, mkInt(lo, t.Typ), t.Typ), false) && k.assume(k.cmp(token.LSS, mkInt(hi, t.Typ), t, t.Typ), false)
	}
}
func isBool(t *Term, v bool) func(k *Facts) bool {
	return func(k *Facts) bool { return k.assume(t, v) }
}
func allOf(fs ...func(k *Facts) bool) func(k *Facts) bool {
	return func(k *Facts) bool {
		for _, f := range fs {
			if !f(k) {
				return false
			}
		}
		return true
	}
}

const maxU32 = 1<<32 - 1

// cases of the inputs when the decision is based on the given snapshot.
func (s *setter) cases(st *State, sym *Term) []*setCase {
	var cs []*setCase
	add := func(c setCase) { cs = append(cs, &c) }
	switch s.rpc {
	case "SetFanSpeed":
		abs, rel := s.req(st, "Abs"), s.req(st, "Rel")
		cur := s.data(sym, "CurrentMode")
		i := types.Typ[types.Int]
		good := func(name string, f func(*Facts) bool, t *Term) {
			add(setCase{name, true, f, []*Term{t}, t, cur, t})
		}
		bad := func(name string, f func(*Facts) bool) { add(setCase{name: name, assume: f}) }
		good("absolute speed 1-4", allOf(between(abs, 1, 4), isBool(rel, false)), abs)
		good("step up within range", allOf(between(abs, 0, 0), isBool(rel, true), between(cur, 0, 3)), mkLin(cur, 1, i))
		good("step down within range", allOf(between(abs, 0, 0), isBool(rel, false), between(cur, 2, 5)), mkLin(cur, -1, i))
		bad("absolute speed above 4", between(abs, 5, maxU32))
		bad("both absolute and relative", allOf(between(abs, 1, maxU32), isBool(rel, true)))
		bad("step up above 4", allOf(between(abs, 0, 0), isBool(rel, true), between(cur, 4, 255)))
		bad("step down below 1", allOf(between(abs, 0, 0), isBool(rel, false), between(cur, 0, 1)))
		bad("step down from above 5", allOf(between(abs, 0, 0), isBool(rel, false), between(cur, 6, 255)))
	case "SetFanProfile":
		mode, pct := s.req(st, "Mode"), s.req(st, "TargetSpeed")
		for m, n := range []string{"InAway", "InLow", "InMid", "InHigh"} {
			v := int64(m + 1)
			o := s.data(sym, n)
			add(setCase{fmt.Sprintf("profile %d, 15-100 %%", v), true, allOf(between(mode, v, v), between(pct, 15, 100)),
				[]*Term{mkInt(v-1, types.Typ[types.Int]), pct}, pct, o, pct})
		}
		add(setCase{name: "profile 0", assume: between(mode, 0, 0)})
		add(setCase{name: "profile above 4", assume: between(mode, 5, maxU32)})
		add(setCase{name: "percentage below 15", assume: between(pct, 0, 14)})
		add(setCase{name: "percentage above 100", assume: between(pct, 101, maxU32)})
	case "SetComfortTemp":
		t := s.req(st, "ComfortTemp")
		add(setCase{"temperature up to 255", true, between(t, 0, 255), []*Term{t}, t, s.data(sym, "Comfort"), t})
		add(setCase{name: "temperature above 255", assume: between(t, 256, maxU32)})
	}
	return cs
}

// norm removes conversions that keep the value under the facts and resolves
// table lookups whose index the facts determine.
func norm(k *Facts, t *Term) *Term {
	for {
		n := exactConv(k, t)
		if n.Op == OConv && n.Name != "exact" && isFloat(n.Typ) && isInteger(n.Args[0].Typ) {
			lo, hi := k.z.rng(norm(k, n.Args[0]))
			if lo >= -(1<<24) && hi <= 1<<24 {
				n = n.Args[0]
			}
		}
		if n.Op == OIndex {
			if v, ok := valueOf(k, n.Args[1]); ok {
				n = mkIndex(n.Args[0], mkInt(v, types.Typ[types.Int]), n.Typ)
			}
		}
		if n == t {
			return t
		}
		t = n
	}
}

// valueOf: the facts determine the number.
func valueOf(k *Facts, t *Term) (int64, bool) {
	if v, ok := t.intConst(); ok {
		return v, true
	}
	lo, hi := k.z.rng(t)
	if lo != hi {
		lo, hi = k.z.rng(exactConv(k, t))
	}
	return lo, lo == hi
}

// same: the two are equal under the facts.
func same(k *Facts, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = norm(k, a), norm(k, b)
	if a == b || eqInt(k, a, b) {
		return true
	}
	for _, f := range k.f {
		if !f.v || f.t.Op != OBin || f.t.Tok != token.EQL {
			continue
		}
		x, y := norm(k, f.t.Args[0]), norm(k, f.t.Args[1])
		if x == a && y == b || x == b && y == a {
			return true
		}
	}
	return false
}

// sends: the commands a path sends.
func (A *Analysis) sends(st *State) []*Event {
	var l []*Event
	for _, e := range A.P.libCalls(st) {
		if !A.isQuery(e.Callee) {
			l = append(l, e)
		}
	}
	return l
}

// isQuery: a library call that only asks.
func (A *Analysis) isQuery(f *ssa.Function) bool {
	for _, k := range kindTable {
		if f.Name() == k.getter {
			return true
		}
	}
	return strings.HasPrefix(f.Name(), "Get") && f.Signature.Results().Len() == 2
}

func (s *setter) isCmd(e *Event) bool {
	return e.Kind == EvCall && e.Callee != nil && e.Callee.Pkg == s.A.P.Lib && e.Callee.Name() == s.set
}

// cmdArgs: the arguments of a command but the connection.
func (A *Analysis) cmdArgs(e *Event) []*Term {
	var l []*Term
	for i, a := range e.Args {
		if i < len(e.Callee.Params) && isConnType(e.Callee.Params[i].Type()) {
			continue
		}
		l = append(l, a)
	}
	return l
}

// invalidArgument: the error is one that tells the client its argument is invalid.
func invalidArgument(t *Term) bool {
	for d := 0; d < 6 && t != nil; d++ {
		for t.Op == OIface || t.Op == OConv {
			t = t.Args[0]
		}
		e := t.Org
		if e == nil || e.Kind != EvCall {
			return false
		}
		first := e.Recv
		if first == nil && len(e.Args) > 0 {
			first = e.Args[0]
		}
		n := e.Name[strings.LastIndex(e.Name, "/")+1:]
		switch n {
		case "twirp.InvalidArgumentError", "twirp.RequiredArgumentError":
			return true
		case "twirp.NewError", "twirp.NewErrorf", "twirp.ErrorCode).Error", "twirp.ErrorCode).Errorf":
			c, ok := first.strConst()
			return ok && c == "invalid_argument"
		case "twirp.Error).WithMeta", "twirp.WrapError":
			t = first
		default:
			return false
		}
	}
	return false
}

type finding struct {
	rule, where string
	pos         token.Pos
	ok          bool
	st          *State
	msg         string
}

// judge evaluates the rules of a path under each candidate for the snapshot
// its decision is based on and keeps the best.
func judge(r *Rep, syms []*Term, f func(sym *Term, out *[]finding)) {
	var best []finding
	bad := -1
	for _, sy := range syms {
		var l []finding
		f(sy, &l)
		n := 0
		for _, x := range l {
			if !x.ok {
				n++
			}
		}
		if bad < 0 || n < bad {
			best, bad = l, n
		}
	}
	for _, x := range best {
		r.check(x.rule, x.where, x.pos, x.ok, x.st, "%s", x.msg)
	}
}

// candidates for the snapshot the decision of a path is based on.
func (s *setter) candidates(st *State, until *Event) []*Term {
	syms, _ := s.kind.snapshots(st, until)
	if len(syms) == 0 {
		u := freshSym("unread "+s.kind.name(), s.kind.root.Typ)
		syms = []*Term{u}
	}
	return syms
}

func first(l []*Event) *Event {
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

func ctxDone(st *State) bool {
	for _, e := range st.events() {
		if e.Kind == EvRecv && isDone(e.Addr) || e.Kind == EvCall && strings.HasSuffix(e.Name, "context.Context).Err") {
			return true
		}
	}
	return false
}

func checkC18(A *Analysis, r *Rep) {
	r.rule("invalid-is-refused", "for arguments outside the documented ranges every path of the RPC returns an invalid-argument error, without a response, without a library call that talks to the unit and without a change to a cache")
	r.rule("valid-is-accepted", "for arguments within the ranges no path returns an invalid-argument error or any error before the unit was asked")
	r.rule("unaltered", "the command sent for valid arguments carries exactly the values requested")
	ks := A.cacheKinds(r)
	for _, s := range A.setters(r) {
		x := s.x
		hit := map[string]bool{}
		var names []string
		for i := range x.Outs {
			o := &x.Outs[i]
			cmds := A.sends(o.St)
			lib := A.P.libCalls(o.St)
			panics := o.Kind == KPanic && len(lib) == 0
			if o.Kind != KRet && !panics {
				continue
			}
			judge(r, s.candidates(o.St, first(cmds)), func(sym *Term, out *[]finding) {
				add := func(rule, where string, pos token.Pos, ok bool, st *State, msg string, a ...any) {
					*out = append(*out, finding{rule, s.rpc + ": " + where, pos, ok, st, fmt.Sprintf(msg, a...)})
				}
				for _, c := range s.cases(o.St, sym) {
					k := o.St.k.clone()
					if !c.assume(k) {
						continue
					}
					hit[c.name] = true
					st := &State{ev: o.St.ev, k: k, mem: o.St.mem}
					if panics {
						if !c.valid {
							add("invalid-is-refused", c.name, x.Fn.Pos(), false, st, "%s: the RPC panics", c.name)
						}
						continue
					}
					err := x.ret(o, 1)
					inv := invalidArgument(err)
					if !c.valid {
						add("invalid-is-refused", c.name, x.Fn.Pos(), inv && x.ret(o, 0).isNil(), st, "%s is answered with %v, %v", c.name, x.ret(o, 0), err)
						ok := len(lib) == 0
						pos := x.Fn.Pos()
						if !ok {
							pos = lib[0].Pos
						}
						add("invalid-is-refused", c.name+": nothing is sent", pos, ok, st, "%s: the unit is contacted", c.name)
						for _, e := range o.St.events() {
							for _, kk := range ks {
								if e.Kind == EvStore && e.Addr.root() == kk.root {
									add("invalid-is-refused", c.name+": caches", e.Pos, false, st, "%s: %s is changed", c.name, kk.name())
								}
							}
						}
						continue
					}
					early := !k.mayNil(err) && len(lib) == 0 && !ctxDone(o.St)
					add("valid-is-accepted", c.name, x.Fn.Pos(), !inv && !early, st, "%s is refused with %v", c.name, err)
					for _, e := range cmds {
						args := A.cmdArgs(e)
						ok := s.isCmd(e) && len(args) == len(c.args)
						for j := range c.args {
							ok = ok && same(k, args[j], c.args[j])
						}
						add("unaltered", c.name, e.Pos, ok, st, "%s: sends %s%v instead of %s%v", c.name, shortCall(e.Name), args, s.set, c.args)
					}
				}
			})
		}
		for _, c := range s.cases(newState(), freshSym("any "+s.kind.name(), s.kind.root.Typ)) {
			names = append(names, c.name)
		}
		for _, n := range names {
			r.check("valid-is-accepted", s.rpc+": "+n+" is reached", x.Fn.Pos(), hit[n], nil, "no path for %s", n)
		}
	}
	r.atLeast("invalid-is-refused", 20)
	r.atLeast("valid-is-accepted", 16)
	r.atLeast("unaltered", 8)
}

const confirmedRule = "every path of SetFanSpeed that sent a command and may return no error has, after the command, a successful query of the fan readings, and readings obtained by or after that query are known to equal both percentages which a snapshot of the fan profiles holds for the target speed, for each of the speeds 1 to 4"

func checkC19(A *Analysis, r *Rep) {
	r.rule("one-command", "no path sends more than one command, or a command of another kind, and none sends one in a loop")
	r.rule("modified-means-sent", "a path that may return no error answers Modified true exactly if it sent the command and that is known to have succeeded")
	r.rule("unmodified-means-equal", "Modified false is answered only if the cached value is known to equal the target and nothing was sent")
	r.rule("no-response-with-error", "a response is returned only with a nil error, and none with an error")
	r.rule("target", "the target reported is the one asked for, or the step reached")
	r.rule("original", "the original reported is the cached value from the snapshot the decision was based on")
	r.rule("confirmed", confirmedRule)
	fans := A.fanReadings(r)
	for _, s := range A.setters(r) {
		x := s.x
		sent, unsent := 0, 0
		if s.rpc == "SetFanSpeed" && fans != nil {
			A.confirmed(r, s, fans)
		}
		for _, l := range x.Iters {
			for _, st := range l.Iters {
				for _, e := range eventsUpTo(st.ev, l.Start) {
					if e.Kind == EvCall && e.Callee != nil && A.P.libBoundary(e.Callee) && !A.isQuery(e.Callee) {
						r.check("one-command", s.rpc+": loop", e.Pos, false, st, "a command is sent in a loop")
					}
				}
			}
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet {
				continue
			}
			cmds := A.sends(o.St)
			ok := len(cmds) <= 1
			for _, e := range cmds {
				ok = ok && s.isCmd(e) && e.Thread == 0
			}
			r.check("one-command", s.rpc, x.Fn.Pos(), ok, o.St, "commands sent: %s", evNames(cmds))
			err := x.ret(o, 1)
			k0 := x.success(o)
			resp, _, v := x.response(o)
			if k0 == nil {
				r.check("no-response-with-error", s.rpc, x.Fn.Pos(), v.isNil(), o.St, "returns a response %v together with an error", v)
				continue
			}
			if !r.check("no-response-with-error", s.rpc, x.Fn.Pos(), knownNil(o.St.k, err) && resp != nil, o.St, "returns %v, %v", v, err) {
				continue
			}
			judge(r, s.candidates(o.St, first(cmds)), func(sym *Term, out *[]finding) {
				for _, mod := range []bool{true, false} {
					km := k0.clone()
					m := resp["Modified"]
					if m == nil || !km.assume(m, mod) {
						continue
					}
					for _, c := range s.cases(o.St, sym) {
						k := km.clone()
						if !c.valid || !c.assume(k) {
							continue
						}
						st := &State{ev: o.St.ev, k: k, mem: o.St.mem}
						add := func(rule, where string, ok bool, msg string, a ...any) {
							*out = append(*out, finding{rule, s.rpc + ": " + where, x.Fn.Pos(), ok, st, fmt.Sprintf(msg, a...)})
						}
						if mod {
							sent++
							ok := len(cmds) == 1 && knownNil(k, cmds[0].errTerm())
							add("modified-means-sent", c.name, ok, "a modification is reported, but no command is known to have succeeded")
						} else {
							unsent++
							add("modified-means-sent", c.name, len(cmds) == 0, "a command was sent, but no modification is reported")
							add("unmodified-means-equal", c.name, same(k, c.orig, c.value), "no modification is reported, but the cached value %v need not be %v", c.orig, c.value)
						}
						var tgt, orig *Term
						for n, t := range resp {
							switch {
							case strings.HasPrefix(n, "Target"):
								tgt = t
							case strings.HasPrefix(n, "Original"):
								orig = t
							}
						}
						add("target", c.name, same(k, tgt, c.target), "the target reported is %v, not %v", tgt, c.target)
						po := orig
						for po != nil && po.Op == OConv && !isInteger(po.Args[0].Typ) {
							po = po.Args[0] // rounding of a temperature
						}
						add("original", c.name, same(k, po, c.orig), "the original reported is %v, not %v", orig, c.orig)
					}
				}
			})
		}
		r.check("modified-means-sent", s.rpc+" sends", x.Fn.Pos(), sent > 0, nil, "no path reports a modification")
		r.check("unmodified-means-equal", s.rpc+" compares", x.Fn.Pos(), unsent > 0, nil, "no path reports that nothing was modified")
	}
	r.atLeast("one-command", 3)
	r.atLeast("modified-means-sent", 8)
	r.atLeast("unmodified-means-equal", 8)
	r.atLeast("no-response-with-error", 3)
	r.atLeast("target", 8)
	r.atLeast("original", 8)
	r.borrow("C18", checkC18, "unaltered")
}

func evNames(l []*Event) string {
	var s []string
	for _, e := range l {
		s = append(s, shortCall(e.Name))
	}
	return strings.Join(s, ", ")
}

func checkC20(A *Analysis, r *Rep) {
	r.rule("one-hold", "on every path of a setter that sends a command there is a global lock which is held exclusively, without being released in between, when the cached value is read, when the command is sent, and at every later query of the unit")
	r.rule("common-lock", "all commands on one resource anywhere in the service are sent under the same such lock")
	common := map[string]map[*Term]bool{}
	n := map[string]int{}
	for _, s := range A.setters(r) {
		for _, st := range s.x.normalEnds() {
			cmds := A.sends(st)
			if len(cmds) == 0 {
				continue
			}
			c := cmds[0]
			n[s.resource]++
			syms, loads := s.kind.snapshots(st, c)
			okLocks := map[*Term]bool{}
			why := "no lock is held when the command is sent"
			for _, h := range effHeld(st, c) {
				if h.Mode != 'w' || !A.P.globalLock(h.Lock) {
					continue
				}
				in := func(e *Event) bool {
					g := heldLock(effHeld(st, e), h.Lock)
					return g != nil && g.Mode == 'w' && g.Ev == h.Ev
				}
				ok := len(syms) > 0
				if !ok {
					why = "the cached value is not read before the command"
				}
				for _, sy := range syms {
					for _, e := range loads[sy] {
						if !in(e) {
							ok, why = false, "the cached value is read in another critical section than the one the command is sent in"
						}
					}
				}
				for _, e := range A.P.libCalls(st) {
					if e.N > c.N && !in(e) {
						ok, why = false, shortCall(e.Name)+" after the command is outside the critical section"
					}
				}
				if ok {
					okLocks[h.Lock] = true
				}
			}
			if !r.check("one-hold", s.rpc, c.Pos, len(okLocks) > 0, st, "%s", why) {
				continue
			}
			if common[s.resource] == nil {
				common[s.resource] = okLocks
				continue
			}
			for l := range common[s.resource] {
				if !okLocks[l] {
					delete(common[s.resource], l)
				}
			}
		}
	}
	for _, res := range []string{"fan", "temperature"} {
		r.check("common-lock", res, token.NoPos, n[res] > 0 && len(common[res]) > 0, nil, "the setters of the %s share no lock", res)
	}
	for _, x := range r.use(A.srvRoots()...) {
		x.eachEvent(func(e *Event) {
			for _, sp := range setterTable {
				if e.Kind != EvCall || e.Callee == nil || e.Callee.Pkg != A.P.Lib || e.Callee.Name() != sp.set {
					continue
				}
				ok := false
				for l := range common[sp.resource] {
					if h := heldLock(e.Held, l); h != nil && h.Mode == 'w' {
						ok = true
					}
				}
				r.check("common-lock", sp.set+" in "+fnOf(e), e.Pos, ok, &State{ev: e, k: e.Snap}, "a command on the %s is sent without the lock of its setters (through %s)", sp.resource, x.Name)
			}
		})
	}
	r.atLeast("one-hold", 3)
	r.atLeast("common-lock", 5)
}

func checkC21(A *Analysis, r *Rep) {
	r.rule("refreshed-before-answer", "on every path of a setter RPC that sent a command and may return no error, the data the command changes was queried after the command, by the goroutine that answers")
	for _, s := range A.setters(r) {
		n := 0
		for i := range s.x.Outs {
			o := &s.x.Outs[i]
			if o.Kind != KRet || s.x.success(o) == nil {
				continue
			}
			cmds := A.sends(o.St)
			if len(cmds) == 0 {
				continue
			}
			n++
			last := cmds[len(cmds)-1]
			for _, g := range s.refresh {
				ok := false
				for _, e := range o.St.events() {
					ok = ok || e.N > last.N && e.Kind == EvCall && e.Callee != nil && e.Callee.Pkg == A.P.Lib && e.Callee.Name() == g && e.Thread == 0
				}
				r.check("refreshed-before-answer", s.rpc+": "+g, last.Pos, ok, o.St, "%s is not called between the command and the answer", g)
			}
		}
		r.check("refreshed-before-answer", s.rpc+" sends", s.x.Fn.Pos(), n > 0, nil, "no path sends a command and answers")
	}
	r.atLeast("refreshed-before-answer", 7)
}

func checkC22(A *Analysis, r *Rep) {
	r.rule("resolved-target", "the speed sent and the speed reported are the absolute target, or without one the cached speed plus or minus one, as exact linear terms")
	r.rule("out-of-range-refused", "no command is sent and no success is reported for a target outside 1 to 4 or an ambiguous one")
	for _, s := range A.setters(r) {
		if s.rpc != "SetFanSpeed" {
			continue
		}
		x := s.x
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet {
				continue
			}
			cmds := A.sends(o.St)
			ks := x.success(o)
			resp, _, _ := x.response(o)
			judge(r, s.candidates(o.St, first(cmds)), func(sym *Term, out *[]finding) {
				for _, c := range s.cases(o.St, sym) {
					k := o.St.k.clone()
					if !c.assume(k) {
						continue
					}
					st := &State{ev: o.St.ev, k: k, mem: o.St.mem}
					add := func(rule string, pos token.Pos, ok bool, msg string, a ...any) {
						*out = append(*out, finding{rule, c.name, pos, ok, st, fmt.Sprintf(msg, a...)})
					}
					if !c.valid {
						add("out-of-range-refused", x.Fn.Pos(), len(cmds) == 0 && ks == nil, "%s is accepted", c.name)
						continue
					}
					for _, e := range cmds {
						a := A.cmdArgs(e)
						add("resolved-target", e.Pos, s.isCmd(e) && len(a) == 1 && same(k, a[0], c.target), "sends %s%v instead of speed %v", shortCall(e.Name), a, c.target)
					}
					if ks != nil && resp != nil {
						add("resolved-target", x.Fn.Pos(), same(k, resp["TargetSpeed"], c.target), "reports the target %v, which is not %v", resp["TargetSpeed"], c.target)
						if len(cmds) == 0 {
							add("resolved-target", x.Fn.Pos(), same(k, c.orig, c.target), "no command is sent although the cached speed may differ from the target")
						}
					}
				}
			})
		}
	}
	r.atLeast("resolved-target", 3)
	r.atLeast("out-of-range-refused", 5)
}

func (A *Analysis) fanReadings(r *Rep) *cacheKind {
	for _, k := range A.cacheKinds(r) {
		if k.getter == "GetFans" {
			return k
		}
	}
	return nil
}

func checkC23(A *Analysis, r *Rep) {
	r.rule("confirmed", confirmedRule)
	r.rule("bounded", "every loop of SetFanSpeed that queries the unit counts in constant steps towards a bound that the loop does not change")
	r.rule("pauses", "between two queries of the fan readings after the command, in every such loop and outside, there is a pause of at least 100 ms")
	r.rule("patient", "SetFanSpeed gives up on a change only after pauses of three seconds in all, or when the last query failed")
	fans := A.fanReadings(r)
	for _, s := range A.setters(r) {
		if s.rpc != "SetFanSpeed" || fans == nil {
			continue
		}
		x := s.x
		A.confirmed(r, s, fans)
		// the polling: readings queried again and again after the command
		window := map[*LoopRec]int64{} // what a loop waits for before it gives up
		for _, l := range x.Iters {
			polls, post, pre, least := false, true, true, int64(-1)
			var badPost, badPre *State
			for i, st := range l.Iters {
				evs := eventsUpTo(st.ev, l.Start)
				waited, sum, asks, before, again := int64(0), int64(0), 0, false, false
				for _, e := range evs {
					if e.Thread != 0 {
						continue
					}
					if p := pauseOf(st.k, e); p > 0 {
						waited += p
						sum += p
					}
					if e.Kind == EvCall && e.Callee != nil && A.P.libBoundary(e.Callee) {
						if asks++; asks == 1 {
							before = waited >= minPause
						} else if fans.isGet(e) && again {
							r.check("pauses", "loop in "+l.Fn.Name(), e.Pos, waited >= minPause, st, "a turn of the polling loop queries the unit twice without a pause")
						}
						again = again || fans.isGet(e)
						waited = 0
					}
				}
				if asks == 0 {
					if sum == 0 {
						continue
					}
				} else {
					polls = true
				}
				if waited < minPause && !l.Last[i] && post {
					post, badPost = false, st
				}
				if !before && !l.First[i] && pre {
					pre, badPre = false, st
				}
				if !l.Last[i] && !l.First[i] && (least < 0 || sum < least) {
					least = sum
				}
			}
			if !polls {
				continue
			}
			bad := badPost
			if post || pre {
				bad = nil
			} else if bad == nil {
				bad = badPre
			}
			r.check("pauses", "loop in "+l.Fn.Name(), l.Fn.Pos(), post || pre, bad, "a turn of the polling loop does not pause for %d ms", int64(minPause)/1000000)
			r.check("bounded", "loop in "+l.Fn.Name(), l.Fn.Pos(), A.P.counted(l.Fn, l.Head), nil, "the number of turns of the polling loop is not bounded by a counter")
			if least > 0 && l.Turns > 1 {
				window[l] = least * (l.Turns - 1)
			} else {
				window[l] = 0
			}
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			var cmd, last *Event
			waited, sum, asks, failed := int64(0), int64(0), 0, false
			for _, e := range o.St.events() {
				if e.Thread != 0 {
					continue
				}
				if s.isCmd(e) && knownNil(o.St.k, e.errTerm()) {
					cmd = e
					last, waited, sum, asks, failed = nil, 0, 0, 0, false
				}
				if cmd == nil {
					continue
				}
				if e.Kind == EvLoop {
					if w, ok := window[e.Loop]; ok {
						asks++
						sum += w
						last = nil
					}
				}
				if p := pauseOf(o.St.k, e); p > 0 {
					waited += p
					sum += p
				}
				if fans.isGet(e) {
					asks++
					if last != nil {
						r.check("pauses", "polls in "+fnOf(e), e.Pos, waited >= minPause, o.St, "the unit is polled again without a pause of %d ms", int64(minPause)/1000000)
					}
					last, waited = e, 0
					failed = o.St.k.nonNil(e.errTerm())
				}
			}
			if o.Kind != KRet || cmd == nil || asks == 0 || failed {
				continue
			}
			if x.success(o) == nil {
				r.check("patient", "giving up", x.Fn.Pos(), sum >= minWindow, o.St, "a change is given up after %d ms of waiting", sum/1000000)
			}
		}
	}
	r.atLeast("confirmed", 5)
	r.atLeast("patient", 1)
}

const (
	minPause  = 100000000  // between polls
	minWindow = 3000000000 // before giving up
)

// pauseOf: how long the event waits at least, if it is a pause.
func pauseOf(k *Facts, e *Event) int64 {
	if e.Kind == EvCall && e.Name == "time.Sleep" && len(e.Args) == 1 {
		lo, _ := k.z.rng(e.Args[0])
		return max(lo, 0)
	}
	if e.Kind == EvRecv && e.Addr != nil {
		t := e.Addr
		for t.Op == OField {
			t = t.Args[0]
		}
		if t.Src != nil && t.Src.root().Org != nil {
			t = t.Src.root()
		}
		if o := t.Org; o != nil && o.Kind == EvCall && len(o.Args) > 0 {
			switch o.Name {
			case "time.After", "time.NewTimer", "time.NewTicker", "time.Tick":
				lo, _ := k.z.rng(o.Args[0])
				return max(lo, 0)
			}
		}
	}
	return 0
}

// counted: the loop is left after a number of turns that is fixed when it is
// entered: an integer moves by a constant on every way back to the head, and
// every turn passes a comparison of it with something the loop does not
// change, which leaves the loop.
func (P *Program) counted(f *ssa.Function, head *ssa.BasicBlock) bool {
	return len(P.counters(f, head)) > 0
}

// A counter bounds the turns of a loop: another turn follows only while phi
// (or, for next, phi moved by step) compares to lim as op says.
type counter struct {
	phi  *ssa.Phi
	i    int // of the phis of the head
	step int64
	op   token.Token
	lim  ssa.Value
}

func (P *Program) counters(f *ssa.Function, head *ssa.BasicBlock) (cs []counter) {
	li := P.loopsOf(f)[head]
	if li == nil {
		return nil
	}
	invariant := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		case ssa.Instruction:
			return !li.blocks[v.Block()]
		}
		return false
	}
	var backs []*ssa.BasicBlock
	for _, p := range head.Preds {
		if li.blocks[p] {
			backs = append(backs, p)
		}
	}
	for pi, phi := range phisOf(head) {
		if !isInteger(phi.Type()) {
			continue
		}
		step := int64(0)
		next := map[ssa.Value]bool{}
		ok := true
		for i, p := range head.Preds {
			if !li.blocks[p] {
				continue
			}
			b, isB := phi.Edges[i].(*ssa.BinOp)
			if !isB || b.Op != token.ADD && b.Op != token.SUB {
				ok = false
				break
			}
			x, y := b.X, b.Y
			if b.Op == token.ADD && y == ssa.Value(phi) {
				x, y = y, x
			}
			c, isC := y.(*ssa.Const)
			if x != ssa.Value(phi) || !isC {
				ok = false
				break
			}
			v := c.Int64()
			if b.Op == token.SUB {
				v = -v
			}
			if v == 0 || step != 0 && (step < 0) != (v < 0) {
				ok = false
				break
			}
			step = v
			next[b] = true
		}
		if !ok || step == 0 {
			continue
		}
		for b := range li.blocks {
			cond, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !isIf {
				continue
			}
			dom := true
			for _, x := range backs {
				dom = dom && b.Dominates(x)
			}
			if !dom {
				continue
			}
			for s, succ := range b.Succs {
				if li.blocks[succ] {
					continue
				}
				c, isC := cond.Cond.(*ssa.BinOp)
				if !isC {
					continue
				}
				op := c.Op
				x, y := c.X, c.Y
				if x != ssa.Value(phi) && !next[x] {
					x, y = y, x
					switch op {
					case token.LSS:
						op = token.GTR
					case token.GTR:
						op = token.LSS
					case token.LEQ:
						op = token.GEQ
					case token.GEQ:
						op = token.LEQ
					}
				}
				if x != ssa.Value(phi) && !next[x] || !invariant(y) {
					continue
				}
				if s == 0 { // left when true: the loop goes on when false
					switch op {
					case token.LSS:
						op = token.GEQ
					case token.GTR:
						op = token.LEQ
					case token.LEQ:
						op = token.GTR
					case token.GEQ:
						op = token.LSS
					case token.EQL:
						op = token.NEQ
					case token.NEQ:
						op = token.EQL
					}
				}
				switch op {
				case token.LSS:
					if step > 0 {
						cs = append(cs, counter{phi, pi, step, op, y})
					}
				case token.GTR:
					if step < 0 {
						cs = append(cs, counter{phi, pi, step, op, y})
					}
				case token.LEQ, token.GEQ:
					if cc, ok := y.(*ssa.Const); ok && (op == token.LEQ) == (step > 0) {
						lo, hi := typeRange(phi.Type())
						if v := cc.Int64(); v+step <= hi && v+step >= lo {
							cs = append(cs, counter{phi, pi, step, op, y})
						}
					} else if _, w := typeRange(phi.Type()); !ok && (op == token.LEQ) == (step > 0) && w > 1<<30 {
						cs = append(cs, counter{phi, pi, step, op, y})
					}
				case token.NEQ:
					if step == 1 || step == -1 {
						cs = append(cs, counter{phi, pi, step, op, y})
					}
				case token.EQL:
					cs = append(cs, counter{phi, pi, step, op, y})
				}
			}
		}
	}
	return cs
}

// turns bounds the complete turns of a loop that is being entered.
func (in *Interp) turns(st *State, fr *Frame, f *ssa.Function, head *ssa.BasicBlock, entry []*Term) (int64, bool) {
	best, ok := int64(0), false
	for _, c := range in.P.counters(f, head) {
		lo, hi := st.k.z.rng(entry[c.i])
		llo, lhi := st.k.z.rng(in.get(fr, c.lim))
		n := int64(-1)
		dist := func(d int64, incl bool) {
			s := c.step
			if s < 0 {
				s = -s
			}
			if incl {
				d++
			}
			n = max((d+s-1)/s, 0)
		}
		const big = 1 << 40
		switch c.op {
		case token.LSS, token.LEQ:
			if lo > -big && lhi < big {
				dist(lhi-lo, c.op == token.LEQ)
			}
		case token.GTR, token.GEQ:
			if hi < big && llo > -big {
				dist(hi-llo, c.op == token.GEQ)
			}
		case token.NEQ:
			switch {
			case c.step > 0 && lo > -big && lhi < big && hi <= llo:
				dist(lhi-lo, false)
			case c.step < 0 && hi < big && llo > -big && lo >= lhi:
				dist(hi-llo, false)
			}
		case token.EQL:
			n = 1
		}
		if n >= 0 && (!ok || n < best) {
			best, ok = n, true
		}
	}
	return best, ok
}

// confirmed checks the rule of that name for SetFanSpeed.
func (A *Analysis) confirmed(r *Rep, s *setter, fans *cacheKind) {
	x := s.x
	field := func(t *Term, typ types.Type, name string) *Term {
		st := structOf(typ)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return mkField(t, i, st.Field(i).Type())
			}
		}
		panic(undecidedErr{"no field " + name})
	}
	n := 0
	for i := range x.Outs {
		o := &x.Outs[i]
		if o.Kind != KRet {
			continue
		}
		ks := x.success(o)
		cmds := A.sends(o.St)
		if ks == nil || len(cmds) == 0 {
			continue
		}
		cmd := cmds[len(cmds)-1]
		args := A.cmdArgs(cmd)
		if !s.isCmd(cmd) || len(args) != 1 {
			continue // C19
		}
		n++
		profs, _ := s.kind.snapshots(o.St, nil)
		for v, nm := range []string{"Away", "Low", "Mid", "High"} {
			k := ks.clone()
			if !between(args[0], int64(v+1), int64(v+1))(k) {
				continue
			}
			ok := false
			var get *Event
			why := "the fan readings are not queried successfully after the command"
			for _, e := range o.St.events() {
				if e.N < cmd.N {
					continue
				}
				if fans.isGet(e) && e.Thread == 0 && knownNil(k, e.errTerm()) {
					get = e
					why = fmt.Sprintf("the readings are not known to equal both In%s and Out%s", nm, nm)
				}
				var read []*Term
				if get == e && get != nil {
					read = append(read, e.result(0))
				}
				if get != nil && e.Kind == EvLoad && e.Addr.root() == fans.root && e.Val != nil {
					if sy := snapOf(e.Val, fans.root); sy != nil {
						d, _ := fieldAt(sy, fans.root.Typ, fans.path)
						read = append(read, d)
					}
				}
				for _, d := range read {
					for _, p := range profs {
						if same(k, field(d, fans.T, "InPercent"), s.data(p, "In"+nm)) && same(k, field(d, fans.T, "OutPercent"), s.data(p, "Out"+nm)) {
							ok = true
						}
					}
				}
			}
			r.check("confirmed", fmt.Sprintf("speed %d", v+1), cmd.Pos, ok, &State{ev: o.St.ev, k: k, mem: o.St.mem}, "%s", why)
		}
	}
	r.check("confirmed", "a change is reported", x.Fn.Pos(), n > 0, nil, "no path reports a change")
}
