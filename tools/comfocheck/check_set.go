package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	cmdSpeed    = 0x99
	cmdComfort  = 0xD3
	cmdProfiles = 0xCF
	getProfiles = 0xCD
)

// position of the eight percentages in a profile command, and where the unit
// reports them in a profile reply.
var profilePos = []int64{0, 1, 2, 3, 4, 5, 10, 11}
var profileField = []string{"OutAway", "OutLow", "OutMid", "InAway", "InLow", "InMid", "OutHigh", "InHigh"}

// supply and exhaust position of each mode in a profile command
var modePos = [][2]int64{{3, 0}, {4, 1}, {5, 2}, {7, 6}}

// payloadOf gives contents, offset and length of the payload of a request at
// the time of the exchange.
func (P *Program) payloadOf(e *Event) (c, off, n *Term) {
	t := P.packetType()
	s := structOf(t)
	for i, a := range e.Args {
		j := i
		if e.Recv != nil {
			j++
		}
		if a.Typ == nil || !types.Identical(a.Typ, t) || j >= len(e.Cont.Args) {
			continue
		}
		for f := 0; f < s.NumFields(); f++ {
			if s.Field(f).Name() != "Data" {
				continue
			}
			d := mkField(a, f, s.Field(f).Type())
			if d.isNil() {
				return zeroTerm(types.NewArray(types.Typ[types.Byte], 0)), mkInt(0, nil), mkInt(0, nil)
			}
			sn := e.Cont.Args[j]
			if sn.Op == OPure && sn.Name == "snap" && sn.Args[f].Op == OPure && sn.Args[f].Name == "view" {
				v := sn.Args[f]
				return v.Args[0], v.Args[1], v.Args[2]
			}
		}
	}
	return nil, nil, nil
}

// payloadByte reads a byte of the payload of a request.
func (P *Program) payloadByte(k *Facts, e *Event, i int64) *Term {
	c, off, _ := P.payloadOf(e)
	if c == nil {
		return nil
	}
	return readIdx(k, c, addInt(k, off, mkInt(i, nil)), types.Typ[types.Byte])
}

func (P *Program) cmdOf(k *Facts, e *Event) (int64, bool) {
	req := P.packetArg(e.Args)
	if req == nil {
		return 0, false
	}
	return constOf(k, P.pfield(req, "Command"))
}

// libFn finds an exported library call by its API name.
func (A *Analysis) libFn(name string) *Root {
	for _, x := range A.libRoots() {
		if x.Fn.Name() == name && x.Fn.Signature.Recv() == nil {
			return x
		}
	}
	return nil
}

// byteParams lists the parameters of a function with type uint8.
func byteParams(f *ssa.Function) []int {
	var r []int
	for i, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			r = append(r, i)
		}
	}
	return r
}

func checkC09(A *Analysis, r *Rep) {
	P := A.P
	r.rule("one-profile-command", "success means exactly one profile command was sent, after the profiles were read in the same call, and both succeeded")
	r.rule("selected-profile", "the supply and exhaust percentages of the selected profile equal the requested value")
	r.rule("others-as-reported", "the other six percentages are the bytes the unit reported in this call")
	r.rule("no-lost-update", "one exclusive process-wide lock is held without interruption from reading the profiles to sending them, and every library call that sends a profile command holds it")
	x := A.libFn("SetFanProfile")
	if x == nil || len(byteParams(x.Fn)) != 2 {
		r.undecided("SetFanProfile", "library call for a single profile not found")
		return
	}
	bp := byteParams(x.Fn)
	bt := types.Typ[types.Byte]
	locks := map[*Term]int{}
	npaths := 0
	for m := int64(0); m < 4; m++ {
		y := A.run(fmt.Sprintf("lib:%s[mode %d]", x.Fn.Name(), m), x.Fn, rootCfg{opaque: P.isExchange, onOpaque: exchangeOnOpaque, prep: prepArgs,
			params: map[int]*Term{bp[0]: mkInt(m, x.Fn.Params[bp[0]].Type())}})
		if len(r.use(y)) == 0 {
			continue
		}
		speed := y.Params[bp[1]]
		name := fmt.Sprintf("mode %d", m)
		sent := 0
		for i := range y.Outs {
			o := &y.Outs[i]
			ex := P.exchangeCalls(o.St)
			var sets, gets []*Event
			for _, e := range ex {
				switch c, ok := P.cmdOf(e.Snap, e); {
				case !ok:
					r.check("one-profile-command", name, e.Pos, false, o.St, "sends an unknown command")
				case c == cmdProfiles:
					sets = append(sets, e)
				case c == getProfiles:
					gets = append(gets, e)
				}
			}
			if k := y.success(o); k != nil {
				ok := len(sets) == 1 && len(gets) >= 1 && knownNil(k, sets[0].errTerm())
				r.check("one-profile-command", name, x.Fn.Pos(), ok, o.St, "success after %d profile commands and %d profile queries", len(sets), len(gets))
			}
			r.check("one-profile-command", name+": at most one", x.Fn.Pos(), len(sets) <= 1, o.St, "%d profile commands in one call", len(sets))
			for _, e := range sets {
				sent++
				npaths++
				k := e.Snap
				var g *Event
				for _, q := range gets {
					if q.N < e.N {
						g = q
					}
				}
				if !r.check("one-profile-command", name+": read before", e.Pos, g != nil && knownNil(k, g.errTerm()), o.St, "the profile command is sent without a successful query of the profiles in the same call") {
					continue
				}
				_, _, n := P.payloadOf(e)
				if n == nil {
					r.undecided(name, "payload of the profile command not found")
					continue
				}
				r.check("one-profile-command", name+": eight bytes", e.Pos, isByteConst(k, n, 8), o.St, "the payload is not eight bytes long")
				st := o.St.clone()
				buf, _ := y.replyBuf(st, g)
				if buf == nil {
					r.undecided(name, "reply payload not found")
					continue
				}
				for p := int64(0); p < 8; p++ {
					got := P.payloadByte(k, e, p)
					if p == modePos[m][0] || p == modePos[m][1] {
						r.check("selected-profile", name+": "+profileField[p], e.Pos, eqInt(k, got, speed), o.St, "%s is sent as %v instead of the requested percentage", profileField[p], got)
						continue
					}
					r.check("others-as-reported", name+": "+profileField[p], e.Pos, eqInt(k, got, readIdx(k, buf, mkInt(profilePos[p], nil), bt)), o.St, "%s is sent as %v instead of what the unit reported", profileField[p], got)
				}
				found := false
				for _, h := range effHeld(o.St, g) {
					if h.Mode != 'w' || !P.globalLock(h.Lock) {
						continue
					}
					if l := heldLock(effHeld(o.St, e), h.Lock); l != nil && l.Ev == h.Ev {
						locks[h.Lock]++
						found = true
					}
				}
				r.check("no-lost-update", "SetFanProfile", e.Pos, found, o.St, "no exclusive process-wide lock is held from reading the profiles to sending them")
			}
		}
		r.check("one-profile-command", name+" can be set", x.Fn.Pos(), sent > 0, nil, "the profile command is never sent")
	}
	// the lock common to all senders
	for _, y := range r.use(A.libRoots()...) {
		for _, s := range y.ends() {
			for _, e := range P.exchangeCalls(s) {
				c, ok := P.cmdOf(e.Snap, e)
				if ok && c != cmdProfiles {
					continue
				}
				good := false
				for l, n := range locks {
					if n >= npaths && npaths > 0 {
						if h := heldLock(effHeld(s, e), l); h != nil && h.Mode == 'w' {
							good = true
						}
					}
				}
				r.check("no-lost-update", y.Fn.Name()+" sends profiles", e.Pos, good, s, "a profile command is sent without the lock that protects the read-modify-write in SetFanProfile")
			}
		}
	}
	r.atLeast("no-lost-update", 3)
	r.atLeast("selected-profile", 8)
	r.atLeast("others-as-reported", 24)
}

// setter: what a set call may send.
type setSpec struct {
	name    string
	code    int64
	payload func(A *Analysis, r *Rep, x *Root, o *Outcome, e *Event)
	ranges  []int64 // upper bounds of the byte parameters
}

func checkC10(A *Analysis, r *Rep) {
	P := A.P
	r.rule("range-before-sending", "nothing is exchanged with the unit unless the arguments are proven to be in range")
	r.rule("in-range-is-sent", "a call with arguments in range reaches the exchange; success needs the command to have been sent")
	r.rule("code-and-payload", "the command code is the operation's own and the payload encodes exactly the caller's values")
	r.rule("no-reply-data", "a set command does not wait for reply data")
	r.rule("frame-written", "the frame written is 07 F0 00, command, payload length, payload, checksum, 07 0F")
	r.rule("nothing-written-on-reject", "a packet that cannot be framed is answered with an error before anything is written")
	bt := types.Typ[types.Byte]
	specs := []setSpec{
		{"SetSpeed", cmdSpeed, func(A *Analysis, r *Rep, x *Root, o *Outcome, e *Event) {
			p := x.Params[byteParams(x.Fn)[0]]
			_, _, n := P.payloadOf(e)
			b := P.payloadByte(e.Snap, e, 0)
			r.check("code-and-payload", "SetSpeed: payload", e.Pos, n != nil && isByteConst(e.Snap, n, 1) && eqInt(e.Snap, b, p), o.St, "the payload is %v, not the speed passed", b)
		}, []int64{4}},
		{"SetComfort", cmdComfort, func(A *Analysis, r *Rep, x *Root, o *Outcome, e *Event) {
			p := x.Params[byteParams(x.Fn)[0]]
			_, _, n := P.payloadOf(e)
			b := P.payloadByte(e.Snap, e, 0)
			ok := n != nil && isByteConst(e.Snap, n, 1) && b != nil
			if ok {
				m, c := map[*Term]int64{}, int64(0)
				ok = linNum(e.Snap, b, ratOne, m, &c)
				ok = ok && len(m) == 1 && m[p] == 2*ratDen && c == 40*ratDen
			}
			r.check("code-and-payload", "SetComfort: payload", e.Pos, ok, o.St, "the payload is %v, not 2*(temperature+20)", b)
		}, []int64{107}},
		{"SetFanProfile", cmdProfiles, nil, []int64{3, 100}},
		{"SetFanProfiles", cmdProfiles, func(A *Analysis, r *Rep, x *Root, o *Outcome, e *Event) {
			_, _, n := P.payloadOf(e)
			ok := n != nil && isByteConst(e.Snap, n, 8)
			var fp *Term
			var ft types.Type
			for i, p := range x.Fn.Params {
				if libStruct(P, p.Type()) == "FanProfiles" {
					fp, ft = x.Params[i], p.Type()
				}
			}
			if fp == nil || !ok {
				r.check("code-and-payload", "SetFanProfiles: payload", e.Pos, false, o.St, "the payload is not eight bytes")
				return
			}
			if pt, isp := ft.Underlying().(*types.Pointer); isp {
				ft = pt.Elem()
				st := newState()
				fp = x.In.content(st, fp)
			}
			for i, f := range profileField {
				want := fieldOf(fp, ft, f)
				got := P.payloadByte(e.Snap, e, int64(i))
				r.check("code-and-payload", "SetFanProfiles: "+f, e.Pos, want != nil && eqInt(e.Snap, got, want), o.St, "byte %d of the payload is %v, not the caller's %s", i, got, f)
			}
		}, nil},
	}
	known := map[string]bool{}
	for _, s := range specs {
		known[s.name] = true
		x := A.libFn(s.name)
		if x == nil {
			r.undecided(s.name, "library call not found")
			continue
		}
		if len(r.use(x)) == 0 {
			continue
		}
		bp := byteParams(x.Fn)
		if len(bp) != len(s.ranges) {
			r.undecided(s.name, "unexpected parameters")
			continue
		}
		sent := false
		for i := range x.Outs {
			o := &x.Outs[i]
			ex := P.exchangeCalls(o.St)
			for _, e := range ex {
				for j, p := range bp {
					r.check("range-before-sending", fmt.Sprintf("%s: argument %d", s.name, j+1), e.Pos, e.Snap.z.leq(x.Params[p], mkInt(s.ranges[j], nil), 0), o.St, "the unit is addressed although the argument may exceed %d", s.ranges[j])
				}
				c, ok := P.cmdOf(e.Snap, e)
				if s.name == "SetFanProfile" && ok && c == getProfiles {
					continue
				}
				if !r.check("code-and-payload", s.name+": code", e.Pos, ok && c == s.code, o.St, "sends a command other than %#x", s.code) {
					continue
				}
				sent = true
				req := P.packetArg(e.Args)
				r.check("no-reply-data", s.name, e.Pos, knownFalse(e.Snap, P.pfield(req, "Expect")), o.St, "a set command waits for reply data")
				if s.payload != nil {
					s.payload(A, r, x, o, e)
				}
			}
			if k := x.success(o); k != nil {
				r.check("in-range-is-sent", s.name+": success", x.Fn.Pos(), len(ex) > 0, o.St, "success although nothing was sent")
			}
			if len(ex) == 0 && o.Kind == KRet {
				// must be out of range
				k := o.St.k.clone()
				feasible := true
				for j, p := range bp {
					if !k.assume(k.cmp(token.LEQ, x.Params[p], mkInt(s.ranges[j], nil), bt), true) {
						feasible = false
					}
				}
				r.check("in-range-is-sent", s.name, x.Fn.Pos(), !feasible, o.St, "values in range are rejected")
				r.check("range-before-sending", s.name+": error", x.Fn.Pos(), x.success(o) == nil, o.St, "out-of-range arguments are not answered with an error")
			}
		}
		r.check("in-range-is-sent", s.name+" can succeed", x.Fn.Pos(), sent, nil, "the command is never sent")
	}
	// SetFanProfile: bytes are decided by C09, here: any other setter is unknown
	getter := map[*Root]bool{}
	for _, x := range A.getters() {
		getter[x] = true
	}
	for _, x := range r.use(A.libRoots()...) {
		if getter[x] || known[x.Fn.Name()] {
			continue
		}
		for _, s := range x.ends() {
			for _, e := range P.exchangeCalls(s) {
				if c, ok := P.cmdOf(e.Snap, e); !ok || c == cmdSpeed || c == cmdComfort || c == cmdProfiles {
					r.check("code-and-payload", x.Fn.Name(), e.Pos, false, s, "sends a set command the analysis has no rule for")
				}
			}
		}
	}
	for _, x := range r.use(A.exchangeRoots()...) {
		req := P.packetArg(x.Params)
		if req == nil {
			r.undecided(x.Fn.Name(), "request not found")
			continue
		}
		cmd, data := P.pfield(req, "Command"), P.pfield(req, "Data")
		for i := range x.Outs {
			o := &x.Outs[i]
			var w *Event
			for _, e := range connEvents(P, o.St) {
				if P.connIO(e) == ioWrite {
					w = e
					break
				}
			}
			if w == nil {
				if o.Kind == KRet {
					r.check("nothing-written-on-reject", x.Fn.Name(), x.Fn.Pos(), x.success(o) == nil, o.St, "success without writing")
				}
				continue
			}
			k := w.Snap
			c, off, n := writtenView(w)
			if c == nil {
				r.undecided(x.Fn.Name(), "bytes written not found")
				continue
			}
			at := func(i *Term) *Term { return byteAt(k, c, addInt(k, off, i)) }
			for j, b := range []int64{7, 0xF0, 0} {
				r.check("frame-written", fmt.Sprintf("%s: byte %d", x.Fn.Name(), j), w.Pos, isByteConst(k, at(mkInt(int64(j), nil)), b), o.St, "byte %d of the frame is not %#x", j, b)
			}
			r.check("frame-written", x.Fn.Name()+": command", w.Pos, eqInt(k, at(mkInt(3, nil)), cmd), o.St, "byte 3 of the frame is %v, not the request's command", at(mkInt(3, nil)))
			st := o.St.clone()
			dc, doff, dn := x.In.viewOf(st, data)
			lb := at(mkInt(4, nil))
			r.check("frame-written", x.Fn.Name()+": length", w.Pos, eqInt(k, lb, dn), o.St, "byte 4 of the frame is %v, not the length of the payload", lb)
			r.check("nothing-written-on-reject", x.Fn.Name()+": length fits", w.Pos, k.z.leq(dn, mkInt(255, nil), 0), o.St, "a payload whose length does not fit the length byte is written")
			for j, b := range []int64{0x0F, 7} {
				r.check("frame-written", fmt.Sprintf("%s: byte -%d", x.Fn.Name(), j+1), w.Pos, isByteConst(k, at(addInt(k, n, mkInt(int64(-1-j), nil))), b), o.St, "byte -%d of the frame is not %#x", j+1, b)
			}
			cs := at(addInt(k, n, mkInt(-3, nil)))
			r.check("frame-written", x.Fn.Name()+": checksum", w.Pos, checksumOK(k, cs, cmd, dn, dc, doff), o.St, "the checksum byte %v is not proven to be 173 + command + length + all payload bytes", cs)
		}
	}
	r.atLeast("range-before-sending", 5)
	r.atLeast("frame-written", 7)
	r.atLeast("no-reply-data", 4)
	r.borrow("C09", checkC09, "selected-profile")
	r.borrow("C18", checkC18, "unaltered")
}

const ratDen = 1024
const ratOne = ratDen

// linNum writes a numeric term, including floating-point conversions that are
// exact in range, as a linear form with coefficients in units of 1/ratDen.
func linNum(k *Facts, t *Term, f int64, m map[*Term]int64, c *int64) bool {
	if v, ok := t.intConst(); ok {
		*c += f * v
		return true
	}
	if iv, ok := intView(t); ok && iv != t {
		return linNum(k, iv, f, m, c)
	}
	switch t.Op {
	case OLin:
		*c += f * t.Off
		return linNum(k, t.Args[0], f, m, c)
	case OConv:
		return linNum(k, t.Args[0], f, m, c)
	case OBin:
		switch t.Tok {
		case token.ADD:
			return linNum(k, t.Args[0], f, m, c) && linNum(k, t.Args[1], f, m, c)
		case token.SUB:
			return linNum(k, t.Args[0], f, m, c) && linNum(k, t.Args[1], -f, m, c)
		case token.MUL:
			for i := 0; i < 2; i++ {
				a := t.Args[i]
				if iv, ok := intView(a); ok {
					a = iv
				}
				if v, ok := a.intConst(); ok {
					return linNum(k, t.Args[1-i], f*v, m, c)
				}
			}
		case token.SHL:
			if v, ok := t.Args[1].intConst(); ok && v >= 0 && v < 20 {
				return linNum(k, t.Args[0], f<<uint(v), m, c)
			}
		}
	}
	m[t] += f
	if m[t] == 0 {
		delete(m, t)
	}
	return true
}
