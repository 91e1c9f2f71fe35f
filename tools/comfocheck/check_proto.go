package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers on packets ----

func (P *Program) packetType() types.Type {
	if m, ok := P.Lib.Members["Packet"].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}

// pfield reads a field of a packet value by name.
func (P *Program) pfield(p *Term, name string) *Term {
	t := P.packetType()
	if t == nil {
		return nil
	}
	return fieldOf(p, t, name)
}

func fieldOf(x *Term, t types.Type, name string) *Term {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(x, i, s.Field(i).Type())
		}
	}
	return nil
}

// packetArg finds the request among the arguments of an exchange.
func (P *Program) packetArg(args []*Term) *Term {
	t := P.packetType()
	for _, a := range args {
		if a.Typ != nil && t != nil && types.Identical(a.Typ, t) {
			return a
		}
	}
	return nil
}

func isByteConst(k *Facts, t *Term, v int64) bool {
	lo, hi := k.z.rng(t)
	return lo == v && hi == v
}

// byteAt reads a byte of a view, knowing what searches imply.
func byteAt(k *Facts, c, i *Term) *Term {
	b := readIdx(k, c, i, types.Typ[types.Byte])
	if _, ok := b.intConst(); ok {
		return b
	}
	// position found by a search in the same content
	base, o := i.lin()
	if base != nil && base.Op == OPure && len(base.Args) >= 4 && base.Args[0] == c {
		if v, ok := base.Args[1].intConst(); ok && v == 0 {
			switch base.Name {
			case "bytes.IndexByte", "bytes.LastIndexByte":
				if o == 0 {
					return base.Args[3]
				}
			case "bytes.Index", "bytes.LastIndex":
				if len(base.Args) == 6 {
					if n, ok := base.Args[5].intConst(); ok && o >= 0 && o < n {
						return readIdx(k, base.Args[3], addInt(k, base.Args[4], mkInt(o, nil)), types.Typ[types.Byte])
					}
				}
			}
		}
	}
	return b
}

// modSum writes an integer term as a linear sum modulo 256.
func modSum(k *Facts, t *Term, f int64, m map[*Term]int64, c *int64) {
	if v, ok := t.intConst(); ok {
		*c = ((*c+f*(v%256))%256 + 256) % 256
		return
	}
	switch t.Op {
	case OLin:
		modSum(k, t.Args[0], f, m, c)
		*c = ((*c+f*(t.Off%256))%256 + 256) % 256
		return
	case OConv:
		if isInteger(t.Typ) && (t.Args[0].Typ == nil || isInteger(t.Args[0].Typ)) {
			modSum(k, t.Args[0], f, m, c)
			return
		}
	case OPure:
		switch t.Name {
		case "mod256":
			modSum(k, t.Args[0], f, m, c)
			return
		case "sum":
			// of bytes put together piece by piece
			if parts := sumParts(k, t); parts != nil {
				for _, p := range parts {
					modSum(k, p, f, m, c)
				}
				return
			}
		}
	case OBin:
		switch t.Tok {
		case token.ADD:
			modSum(k, t.Args[0], f, m, c)
			modSum(k, t.Args[1], f, m, c)
			return
		case token.SUB:
			modSum(k, t.Args[0], f, m, c)
			modSum(k, t.Args[1], -f, m, c)
			return
		case token.AND:
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].intConst(); ok && v == 255 {
					modSum(k, t.Args[1-i], f, m, c)
					return
				}
			}
		case token.REM:
			if v, ok := t.Args[1].intConst(); ok && v == 256 {
				if lo, _ := k.z.rng(t.Args[0]); lo >= 0 {
					modSum(k, t.Args[0], f, m, c)
					return
				}
			}
		case token.MUL:
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].intConst(); ok {
					modSum(k, t.Args[1-i], f*(v%256), m, c)
					return
				}
			}
		}
	}
	// a value pinned by the facts
	if lo, hi := k.z.rng(t); lo == hi {
		*c = ((*c+f*(lo%256))%256 + 256) % 256
		return
	}
	// merge with an equal term
	for x := range m {
		if x != t && eqInt(k, x, t) {
			t = x
			break
		}
	}
	m[t] = ((m[t]+f)%256 + 256) % 256
	if m[t] == 0 {
		delete(m, t)
	}
}

// sameMod256: a and b are equal modulo 256.
func sameMod256(k *Facts, a, b *Term) bool {
	m := map[*Term]int64{}
	c := int64(0)
	modSum(k, a, 1, m, &c)
	modSum(k, b, -1, m, &c)
	return len(m) == 0 && c == 0
}

// provenMod256: a ≡ b (mod 256) by structure or by an equation on the path.
func provenMod256(k *Facts, a, b *Term) bool {
	if sameMod256(k, a, b) {
		return true
	}
	for _, f := range k.f {
		if !f.v || f.t.Op != OBin || f.t.Tok != token.EQL {
			continue
		}
		x, y := f.t.Args[0], f.t.Args[1]
		if x.Typ != nil && !isInteger(x.Typ) && x.Op != OLin || isBoolT(x) {
			continue
		}
		// a - b == ±(x - y)
		for s := int64(-1); s <= 1; s += 2 {
			m := map[*Term]int64{}
			c := int64(0)
			modSum(k, a, 1, m, &c)
			modSum(k, b, -1, m, &c)
			modSum(k, x, s, m, &c)
			modSum(k, y, -s, m, &c)
			if len(m) == 0 && c == 0 {
				return true
			}
		}
	}
	return false
}

func byteSum(c, off, n *Term) *Term {
	return mkPure("sum", types.Typ[types.Int], c, off, n)
}

// findSum finds the sum of the bytes of a view among the terms on the path.
func isSumOf(t, c, off, n *Term, k *Facts) bool {
	return t.Op == OPure && t.Name == "sum" && t.Args[0] == c && eqInt(k, t.Args[1], off) && eqInt(k, t.Args[2], addInt(k, off, n))
}

// checksumOK: sum is the checksum of cmd, the length and all payload bytes.
func checksumOK(k *Facts, sum, cmd, n, c, off *Term) bool {
	return checksumIs(k, sum, nil, cmd, n, c, off)
}

// checksumIs: sum is the checksum plus more (modulo 256).
func checksumIs(k *Facts, sum, more, cmd, n, c, off *Term) bool {
	goal := func(s *Term) *Term {
		x := mkBinAdd(cmd, mkBinAdd(n, s))
		if more != nil {
			x = mkBinAdd(x, more)
		}
		return mkLin(x, 173, types.Typ[types.Int])
	}
	if v, ok := constOf(k, n); ok && v <= maxArr {
		var s *Term = mkInt(0, nil)
		for i := int64(0); i < v; i++ {
			s = mkBinAdd(s, readIdx(k, c, addInt(k, off, mkInt(i, nil)), types.Typ[types.Byte]))
		}
		if provenMod256(k, sum, goal(s)) {
			return true
		}
	}
	// any sum over exactly these bytes that occurs on the path
	var cands []*Term
	var look func(t *Term)
	look = func(t *Term) {
		t.walk(func(x *Term) bool {
			if isSumOf(x, c, off, n, k) {
				cands = append(cands, x)
			} else if x.Op == OPure && x.Name == "sum" {
				for _, p := range sumParts(k, x) {
					look(p)
				}
			}
			return true
		})
	}
	look(sum)
	if more != nil {
		look(more)
	}
	for _, f := range k.f {
		if f.v {
			look(f.t)
		}
	}
	for _, s := range cands {
		if provenMod256(k, sum, goal(s)) {
			return true
		}
	}
	return false
}

func mkBinAdd(a, b *Term) *Term {
	return T.mk(Term{Op: OBin, Tok: token.ADD, Args: []*Term{a, b}, Typ: types.Typ[types.Int]}, "+")
}

// scansOf lists the scans of a path, oldest first.
func scansOf(st *State) []*Event {
	var r []*Event
	for _, e := range st.events() {
		if e.Kind == EvCall && e.Name == "(*bufio.Scanner).Scan" {
			r = append(r, e)
		}
	}
	return r
}

var seqNames = []string{"acknowledgement", "start", "end"}
var seqCodes = []int64{0xF3, 0xF0, 0x0F}

// splitYields: the token ends exactly before the two bytes 07 code.
func (in *Interp) splitYields(so *SplitOut, code int64) (bool, string) {
	k := so.St.k
	if so.Token.isNil() {
		if !eqInt(k, so.Adv, mkInt(0, nil)) && k.mayNil(so.Err) {
			return false, "bytes are skipped without a token"
		}
		if !so.Err.isNil() && k.mayNil(so.Err) {
			return true, ""
		}
		return true, ""
	}
	if !so.Err.isNil() {
		return false, "a token is returned together with an error, which ends the scan early"
	}
	base, off, n, _ := sliceParts(k, so.Token)
	db, do, dn, _ := sliceParts(k, so.Data)
	if base != db || !eqInt(k, off, do) {
		return false, "the token does not start at the first unread byte"
	}
	c := in.content(so.St, db)
	if !isByteConst(k, byteAt(k, c, addInt(k, do, n)), 7) {
		return false, "the byte after the token is not proven to be the escape byte"
	}
	if !isByteConst(k, byteAt(k, c, addInt(k, do, addInt(k, n, mkInt(1, nil)))), code) {
		return false, fmt.Sprintf("the token is not proven to be closed by 07 %02X", code)
	}
	if !eqInt(k, so.Adv, addInt(k, n, mkInt(2, nil))) {
		return false, "the control sequence is not skipped exactly"
	}
	if !k.z.leq(so.Adv, dn, 0) {
		return false, "advances past the data"
	}
	return true, ""
}

// frameBytes: content, offset and length of the third token.
func checkC04(A *Analysis, r *Rep) {
	P := A.P
	r.rule("request-written", "success implies that a request was written first and its write returned no error")
	r.rule("ack-first", "success implies that the first control sequence found is the acknowledgement (07 F3) with nothing before it")
	r.rule("reply-in-order", "success of a call that expects data implies start (07 F0) with nothing between, then end (07 0F), in this order, on the same reader")
	r.rule("end-of-stream-is-error", "success implies that every scan found its sequence: end of stream and read errors never pass")
	r.rule("reply-code", "success of a call that expects data implies reply code = request code + 1")
	r.rule("closing-ack", "success implies that 07 F3 was written without error after the reply")
	r.rule("exchange-error-kept", "a library call reports success only if every exchange it made succeeded, and it made at least one")
	for _, x := range r.use(A.exchangeRoots()...) {
		name := x.Fn.Name()
		req := P.packetArg(x.Params)
		if req == nil {
			r.undecided(name, "request parameter not found")
			continue
		}
		expect, cmd := P.pfield(req, "Expect"), P.pfield(req, "Command")
		if expect == nil || cmd == nil {
			r.undecided(name, "request fields not found")
			continue
		}
		succ := 0
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			succ++
			st := o.St
			evs := st.events()
			var writes, reads []*Event
			for _, e := range evs {
				switch P.connIO(e) {
				case ioWrite:
					writes = append(writes, e)
				case ioRead, ioOther:
					reads = append(reads, e)
				}
			}
			for _, w := range writes {
				er := w.errTerm()
				r.check("request-written", name+": "+w.Name+" in "+fnOf(w), w.Pos, er != nil && knownNil(k, er), st, "success may be reported although a write failed")
			}
			okReq := len(writes) > 0 && (len(reads) == 0 || writes[0].N < reads[0].N)
			r.check("request-written", name, x.Fn.Pos(), okReq, st, "success without a request written before the reply is read")
			scans := scansOf(st)
			for _, e := range reads {
				if e.Name != "(*bufio.Scanner).Scan" {
					r.check("reply-in-order", name+": "+e.Name+" in "+fnOf(e), e.Pos, false, st, "input the analysis does not understand: %s", e.Name)
				}
			}
			mayExpect, mayNot := true, true
			if v, ok := k.known(expect); ok {
				mayExpect, mayNot = v, !v
			}
			_ = mayNot
			need := 1
			if mayExpect {
				need = 3
			}
			r.check("ack-first", name, x.Fn.Pos(), len(scans) >= 1, st, "success is possible without waiting for the acknowledgement")
			if mayExpect {
				r.check("reply-in-order", name, x.Fn.Pos(), len(scans) == 3, st, "success of a call expecting data after %d control sequences instead of 3", len(scans))
			} else {
				r.check("reply-in-order", name+" (acknowledgement only)", x.Fn.Pos(), len(scans) <= 3, st, "more than 3 control sequences")
			}
			for j, e := range scans {
				if j >= 3 {
					break
				}
				rule := "reply-in-order"
				if j == 0 {
					rule = "ack-first"
				}
				c := name + ": " + seqNames[j] + " sequence"
				r.check("end-of-stream-is-error", c, e.Pos, knownTrue(k, e.Res), st, "success is possible although the %s sequence was not found (end of stream or read error)", seqNames[j])
				if len(e.Split) == 0 {
					r.check(rule, c, e.Pos, false, st, "no split function of the repository decides where this token ends")
				}
				n := 0
				for s := range e.Split {
					if !e.Split[s].Token.isNil() {
						n++
					}
					ok, why := x.In.splitYields(&e.Split[s], seqCodes[j])
					r.check(rule, c, e.Pos, ok, e.Split[s].St, "%s", why)
				}
				if len(e.Split) > 0 && n == 0 {
					r.check(rule, c, e.Pos, false, st, "the sequence is never found")
				}
				if j < 2 {
					l := x.In.length(st, e.Val)
					r.check(rule, c+" comes first", e.Pos, k.z.leq(l, mkInt(0, nil), 0), st, "success is possible with bytes before the %s sequence", seqNames[j])
				}
				if j > 0 {
					r.check(rule, c+" on the same reader", e.Pos, e.Recv == scans[0].Recv, st, "another reader is used: bytes read ahead are lost")
				}
			}
			_ = need
			if mayExpect {
				got := P.pfield(x.ret(o, 0), "Command")
				ok := false
				if got != nil {
					a := mkLin(cmd, 1, types.Typ[types.Int])
					ok = eqInt(k, got, a) || eqInt(k, got, mkLin(cmd, 1-256, types.Typ[types.Int])) && !k.z.leq(cmd, mkInt(254, nil), 0)
				}
				r.check("reply-code", name, x.Fn.Pos(), ok, st, "success is possible with a reply code other than the request code plus one")
			}
			// closing acknowledgement
			okAck := false
			why := "success is possible without writing the closing acknowledgement after the reply"
			if len(scans) > 0 {
				for _, w := range writes {
					if w.N < scans[len(scans)-1].N {
						continue
					}
					if v := writtenBytes(k, w); v != nil {
						if len(v) == 2 && isByteConst(k, v[0], 7) && isByteConst(k, v[1], 0xF3) {
							okAck = true
						} else {
							why = fmt.Sprintf("bytes other than 07 F3 are written after the reply: %v", v)
							okAck = false
							break
						}
					} else {
						okAck = false
						why = "unknown bytes are written after the reply"
						break
					}
				}
			}
			r.check("closing-ack", name, x.Fn.Pos(), okAck, st, "%s", why)
		}
		r.check("ack-first", name+" can succeed", x.Fn.Pos(), succ > 0, nil, "no path reports success")
	}
	n := 0
	for _, x := range r.use(A.libRoots()...) {
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			ex := P.exchangeCalls(o.St)
			r.check("exchange-error-kept", x.Fn.Name(), x.Fn.Pos(), len(ex) > 0, o.St, "success is reported without an exchange with the unit")
			for _, e := range ex {
				n++
				r.check("exchange-error-kept", x.Fn.Name()+": "+e.Name, e.Pos, knownNil(k, e.errTerm()), o.St, "success may be reported although the exchange failed")
			}
		}
	}
	r.atLeast("exchange-error-kept", 12)
	r.atLeast("reply-in-order", 2)
	r.atLeast("closing-ack", 1)
}

// writtenBytes lists the bytes a write event writes, if few and known.
func writtenBytes(k *Facts, w *Event) []*Term {
	if w.Cont == nil {
		return nil
	}
	for _, v := range w.Cont.Args {
		if v.Op != OPure || v.Name != "view" {
			continue
		}
		n, ok := constOf(k, v.Args[2])
		if !ok || n > maxArr {
			return nil
		}
		r := []*Term{}
		for i := int64(0); i < n; i++ {
			r = append(r, readIdx(k, v.Args[0], addInt(k, v.Args[1], mkInt(i, nil)), types.Typ[types.Byte]))
		}
		return r
	}
	return nil
}

// writtenView gives content, offset and length of what a write event writes.
func writtenView(w *Event) (c, off, n *Term) {
	if w.Cont == nil {
		return nil, nil, nil
	}
	for _, v := range w.Cont.Args {
		if v.Op == OPure && v.Name == "view" {
			return v.Args[0], v.Args[1], v.Args[2]
		}
	}
	return nil, nil, nil
}

// frameRule checks what C05 demands of an accepted frame.
func frameRule(r *Rep, x *Root, o *Outcome, k *Facts, name string, frame *Term, pkt *Term) {
	P := r.A.P
	st := o.St.clone()
	st.k = k
	b, off, n, _ := sliceParts(k, frame)
	if isString(frame.Typ) {
		r.undecided(name, "frame is a string")
		return
	}
	c := x.In.content(st, b)
	pos := x.Fn.Pos()
	bt := types.Typ[types.Byte]
	r.check("frame-minimum", name, pos, k.z.leq(mkInt(4, nil), n, 0), st, "a frame of fewer than four bytes is accepted")
	data, cmd := P.pfield(pkt, "Data"), P.pfield(pkt, "Command")
	if data == nil || cmd == nil {
		r.undecided(name, "packet fields not found")
		return
	}
	dc, doff, dn := x.In.viewOf(st, data)
	lb := readIdx(k, c, addInt(k, off, mkInt(2, nil)), bt)
	r.check("length-verified", name, pos, eqInt(k, lb, dn), st, "a frame is accepted although its length byte is not proven to equal the length of the payload returned")
	cb := readIdx(k, c, addInt(k, off, mkInt(1, nil)), bt)
	r.check("command-is-the-verified-one", name, pos, eqInt(k, cmd, cb), st, "the command returned is not the frame's command byte")
	last := readIdx(k, c, addInt(k, off, addInt(k, n, mkInt(-1, nil))), bt)
	r.check("checksum-verified", name, pos, checksumOK(k, last, cb, dn, dc, doff), st, "a frame is accepted although its last byte is not proven to equal (173 + command + length + all payload bytes returned) modulo 256")
}

func checkC05(A *Analysis, r *Rep) {
	P := A.P
	r.rule("frame-minimum", "an accepted frame has at least four bytes")
	r.rule("length-verified", "an accepted frame's length byte equals the length of the unescaped payload returned")
	r.rule("checksum-verified", "an accepted frame's last byte equals the checksum over command, length and the whole payload returned")
	r.rule("command-is-the-verified-one", "the command returned is the one covered by the checksum")
	r.rule("reject-is-empty", "a rejected frame gives an error and an empty packet")
	r.rule("frame-parser", "the exported frame parser and the exchange apply the same verification")
	n := 0
	for _, x := range r.use(A.exchangeRoots()...) {
		req := P.packetArg(x.Params)
		if req == nil {
			continue
		}
		expect := P.pfield(req, "Expect")
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				continue
			}
			scans := scansOf(o.St)
			pkt := x.ret(o, 0)
			if v, ok := k.known(expect); ok && !v {
				// acknowledgement only: nothing may be made up
				d := P.pfield(pkt, "Data")
				if d == nil || !d.isNil() {
					if len(scans) < 3 {
						r.check("checksum-verified", x.Fn.Name()+" (acknowledgement only)", x.Fn.Pos(), false, o.St, "payload returned without a frame")
					}
				}
				continue
			}
			if len(scans) < 3 {
				r.check("checksum-verified", x.Fn.Name(), x.Fn.Pos(), false, o.St, "data returned without a complete frame")
				continue
			}
			n++
			frameRule(r, x, o, k, x.Fn.Name(), scans[2].Val, pkt)
		}
	}
	// the exported parser
	pt := P.packetType()
	parsers := 0
	for _, x := range A.libOther() {
		s := x.Fn.Signature
		if s.Recv() != nil || s.Results().Len() != 2 || pt == nil || !types.Identical(s.Results().At(0).Type(), pt) || s.Params().Len() != 1 {
			continue
		}
		if sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), types.Typ[types.Byte]) {
			continue
		}
		if len(r.use(x)) == 0 {
			continue
		}
		parsers++
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet {
				continue
			}
			k := x.success(o)
			pkt := x.ret(o, 0)
			if k != nil {
				r.check("frame-parser", x.Fn.Name(), x.Fn.Pos(), true, o.St, "")
				frameRule(r, x, o, k, x.Fn.Name(), x.Params[0], pkt)
				continue
			}
			okz := zeroPacket(P, o.St.k, pkt)
			r.check("reject-is-empty", x.Fn.Name(), x.Fn.Pos(), okz, o.St, "a rejected frame is returned with contents: %v", pkt)
		}
	}
	if n == 0 {
		r.add(&Finding{Rule: "instances", Construct: "exchange", Message: "no exchange returns data"})
	}
	if parsers == 0 {
		r.add(&Finding{Rule: "instances", Construct: "frame parser", Message: "no exported frame parser found"})
	}
	r.atLeast("reject-is-empty", 1)
}

func zeroPacket(P *Program, k *Facts, p *Term) bool {
	if p.Op == OZero {
		return true
	}
	c, d, e := P.pfield(p, "Command"), P.pfield(p, "Data"), P.pfield(p, "Expect")
	if c == nil || d == nil {
		return false
	}
	_, ek := k.known(e)
	return isByteConst(k, c, 0) && (d.isNil() || k.isNil(d)) && (ek && knownFalse(k, e))
}

// sumParts splits the sum of the bytes of a content put together by appending
// into the sums of its pieces; nil if there is nothing to split.
func sumParts(k *Facts, t *Term) []*Term {
	c, from, to := t.Args[0], t.Args[1], t.Args[2]
	it := types.Typ[types.Int]
	if c.Op == OAppend {
		n1, off2, n2 := c.Args[1], c.Args[3], c.Args[4]
		if k.z.leq(from, n1, 0) && k.z.leq(n1, to, 0) && eqInt(k, to, addInt(k, n1, n2)) {
			return []*Term{
				mkPure("sum", t.Typ, c.Args[0], from, n1),
				mkPure("sum", t.Typ, c.Args[2], off2, addInt(k, off2, n2)),
			}
		}
		return nil
	}
	a, ok1 := constOf(k, from)
	b, ok2 := constOf(k, to)
	if ok1 && ok2 && b-a <= maxArr {
		r := []*Term{mkInt(0, nil)}
		for i := a; i < b; i++ {
			r = append(r, readIdx(k, c, mkInt(i, it), types.Typ[types.Byte]))
		}
		return r
	}
	return nil
}
