package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// codecShape: may be the escaper or unescaper.
func codecShape(f *ssa.Function) bool {
	return len(f.Params) == 1 && len(f.FreeVars) == 0 && f.Signature.Results().Len() == 1 && len(f.Blocks) > 0 && isByteSlice(f.Params[0].Type()) && isByteSlice(f.Signature.Results().At(0).Type())
}

// bytesOf: content, offset and length of a byte slice as they are now.
func (in *Interp) bytesOf(st *State, s *Term) *Term {
	c, off, n := in.viewOf(st, s)
	return mkTuple([]*Term{c, off, n})
}

// sameBytes: two views hold the same bytes.
func sameBytes3(k *Facts, a, b [3]*Term) bool {
	if !eqInt(k, a[2], b[2]) {
		return false
	}
	if a[0] == b[0] && eqInt(k, a[1], b[1]) {
		return true
	}
	if z, ok := constOf(k, a[2]); ok && z == 0 {
		return true
	}
	k = k.clone()
	j := freshSym("any byte", types.Typ[types.Int])
	k.z.add(nil, j, 0)
	assumeLess(k, j, a[2])
	assumeLess(k, j, b[2])
	at := func(v [3]*Term) *Term { return byteAt(k, v[0], addInt(k, v[1], j)) }
	return eqInt(k, at(a), at(b))
}

// coded: is out what a proven escaper (dec: unescaper) made of in?
func coded(P *Program, k *Facts, last *Event, dec bool, in, out [3]*Term) (bool, string) {
	what := "escaper"
	if dec {
		what = "unescaper"
	}
	why := "it is not what a function proven to be the " + what + " returned"
	if a, ok := constOf(k, in[2]); ok && a == 0 {
		if b, ok := constOf(k, out[2]); ok && b == 0 {
			return true, ""
		}
	}
	view := func(e *Event) [3]*Term { return [3]*Term{e.Cont.Args[0], e.Cont.Args[1], e.Cont.Args[2]} }
	for e := last; e != nil; e = e.Prev {
		if e.Kind == EvCoded {
			if e.OK != dec || !sameBytes3(k, view(e), out) {
				continue
			}
			if !sameBytes3(k, [3]*Term{e.Args[0], e.Args[1], e.Args[2]}, in) {
				why = "it is made, but not of exactly these bytes"
				continue
			}
			return true, ""
		}
		if e.Kind != EvReturn || e.Cont == nil {
			continue
		}
		in0 := e.Prev
		for in0 != nil && !(in0.Kind == EvEnter && in0.Callee == e.Callee && in0.Cont != nil && in0.Thread == e.Thread) {
			in0 = in0.Prev
		}
		if in0 == nil {
			continue
		}
		if !sameBytes3(k, view(e), out) {
			continue
		}
		if !sameBytes3(k, view(in0), in) {
			why = fnName(e.Callee) + " made it, but not of exactly these bytes"
			continue
		}
		if err := P.codecProof(e.Callee, dec); err != nil {
			why = fnName(e.Callee) + " is not the " + what + ": " + err.Error()
			continue
		}
		return true, ""
	}
	return false, why
}

// checkC33: whatever its bytes are, a payload is the same on both ends.
func checkC33(A *Analysis, r *Rep) {
	P := A.P
	r.rule("escaped", "the payload part of every frame built is the escaping of the whole payload of the packet: every byte itself, 07 twice, in order (proven by induction over the bytes)")
	r.rule("unescaped", "the payload of every packet returned is the unescaping, the inverse of that, of exactly the payload part of the frame (proven by induction over the escaped bytes)")
	r.rule("length-covers-payload", "the length byte of a frame built is that of the payload before escaping")
	r.rule("fits", "a payload of at most 255 bytes is always framed, and a frame with its length and checksum always parsed")
	r.rule("inverse", "the functions that do it undo each other on every byte sequence")
	used := map[*ssa.Function]bool{}
	type codeAt struct {
		pos token.Pos
		dec bool
	}
	usedCode := map[codeAt]bool{}
	note := func(st *State) {
		for e := st.ev; e != nil; e = e.Prev {
			if e.Kind == EvCoded && !usedCode[codeAt{e.Pos, e.OK}] {
				usedCode[codeAt{e.Pos, e.OK}] = true
				r.check("inverse", fnName(e.Fn)+": "+map[bool]string{false: "escaped", true: "unescaped"}[e.OK], e.Pos, true, st, "")
			}
			if e.Kind == EvReturn && e.Cont != nil && !used[e.Callee] {
				for i, dec := range []bool{false, true} {
					if P.codecProof(e.Callee, dec) == nil {
						used[e.Callee] = true
						r.check("inverse", fnName(e.Callee)+[]string{": escaper", ": unescaper"}[i], e.Callee.Pos(), true, st, "")
					}
				}
			}
		}
	}
	// what is sent
	sent := func(x *Root, o *Outcome, k *Facts, last *Event, pkt *Term, c, off, n *Term, wrap int64) {
		data := P.pfield(pkt, "Data")
		dc, doff, dn := x.In.viewOf(newStateFrom(o.St, k), data)
		reg := [3]*Term{c, addInt(k, off, mkInt(wrap+3, nil)), addInt(k, n, mkInt(-4-2*wrap, nil))}
		ok, why := coded(P, k, last, false, [3]*Term{dc, doff, dn}, reg)
		r.check("escaped", x.Fn.Name(), x.Fn.Pos(), ok, o.St, "the payload part of the frame: %s", why)
		lb := byteAt(k, c, addInt(k, off, mkInt(wrap+2, nil)))
		r.check("length-covers-payload", x.Fn.Name(), x.Fn.Pos(), eqInt(k, lb, dn), o.St, "the length byte is %v, not the length of the payload", lb)
		note(o.St)
	}
	// what is received
	got := func(x *Root, o *Outcome, k *Facts, frame, pkt *Term) {
		st := newStateFrom(o.St, k)
		fc, foff, fn := x.In.viewOf(st, frame)
		dc, doff, dn := x.In.viewOf(st, P.pfield(pkt, "Data"))
		ok, why := coded(P, k, o.St.ev, true, [3]*Term{fc, addInt(k, foff, mkInt(3, nil)), addInt(k, fn, mkInt(-4, nil))}, [3]*Term{dc, doff, dn})
		r.check("unescaped", x.Fn.Name(), x.Fn.Pos(), ok, o.St, "the payload returned: %s", why)
		note(o.St)
	}
	for _, x := range r.use(A.exchangeRoots()...) {
		req := P.packetArg(x.Params)
		if req == nil {
			continue
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			for _, w := range connEvents(P, o.St) {
				if P.connIO(w) != ioWrite {
					continue
				}
				if c, off, n := writtenView(w); c != nil {
					sent(x, o, w.Snap, w, req, c, off, n, 2)
				} else {
					r.undecided(x.Fn.Name(), "bytes written not found")
				}
				break
			}
			k := x.success(o)
			if k == nil {
				continue
			}
			if v, ok := k.known(P.pfield(req, "Expect")); ok && !v {
				continue
			}
			if scans := scansOf(o.St); len(scans) >= 3 {
				got(x, o, k, scans[2].Val, x.ret(o, 0))
			}
		}
	}
	pt := P.packetType()
	for _, x := range A.libOther() {
		s := x.Fn.Signature
		if s.Recv() != nil || s.Results().Len() != 2 || s.Params().Len() != 1 || pt == nil {
			continue
		}
		from, to := s.Params().At(0).Type(), s.Results().At(0).Type()
		enc := types.Identical(from, pt) && isByteSlice(to)
		dec := types.Identical(to, pt) && isByteSlice(from)
		if !enc && !dec || len(r.use(x)) == 0 {
			continue
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			k := x.success(o)
			if k == nil {
				if o.Kind != KRet {
					continue
				}
				if dec {
					r.check("fits", x.Fn.Name(), x.Fn.Pos(), wellRefused(P, x, o, x.Params[0]), o.St, "a frame with the right length and checksum may be refused")
				} else {
					k = o.St.k.clone()
					_, _, dn := x.In.viewOf(newStateFrom(o.St, k), P.pfield(x.Params[0], "Data"))
					r.check("fits", x.Fn.Name(), x.Fn.Pos(), !assumeLess(k, dn, mkInt(256, nil)), o.St, "a payload of at most 255 bytes may be refused")
				}
				continue
			}
			if dec {
				got(x, o, k, x.Params[0], x.ret(o, 0))
				continue
			}
			c, off, n := x.In.viewOf(newStateFrom(o.St, k), x.ret(o, 0))
			sent(x, o, k, o.St.ev, x.Params[0], c, off, n, 0)
		}
	}
	r.atLeast("escaped", 2)
	r.atLeast("unescaped", 2)
	r.atLeast("inverse", 2)
	r.atLeast("fits", 2)
}

// newStateFrom: the state with what is known replaced.
func newStateFrom(s *State, k *Facts) *State {
	n := s.clone()
	n.k = k
	return n
}

// checkC39: a reply ends where it ends.
// longestReply: zero, command, length, 255 payload bytes of which each may be
// sent twice, checksum, end sequence.
const longestReply = 3 + 2*255 + 1 + 2

func checkC39(A *Analysis, r *Rep) {
	P := A.P
	r.rule("reply-end", "the split function of the scan for a reply, as it is when the scan starts, returns the reply without its end sequence and goes on behind it as soon as the reply is complete, and asks for more before (proven by induction over the bytes of the reply)")
	r.rule("reply-scanned", "an exchange that returns data scans for the reply with such a function")
	r.rule("reply-fits", "a buffer given to the scanner of the reply may grow to hold the longest reply with its end sequence")
	done := map[string]error{}
	for _, x := range r.use(A.exchangeRoots()...) {
		for i := range x.Outs {
			scans := scansOf(x.Outs[i].St)
			if len(scans) < 3 {
				continue
			}
			for _, e := range x.Outs[i].St.events() {
				if e.Kind != EvCall || e.Name != "(*bufio.Scanner).Buffer" || e.Recv != scans[2].Recv || len(e.Args) < 2 {
					continue
				}
				lo, _ := e.Snap.z.rng(e.Args[1])
				r.check("reply-fits", x.Fn.Name()+": Buffer in "+fnOf(e), e.Pos, lo >= longestReply, x.Outs[i].St, "a reply of up to %d bytes may not fit a buffer of %v", longestReply, e.Args[1])
			}
			u := scans[2].Use
			r.check("reply-scanned", x.Fn.Name(), x.Fn.Pos(), u != nil, x.Outs[i].St, "the split function of the scan for the reply is not known")
			if u == nil {
				continue
			}
			err, ok := done[u.name]
			if !ok {
				err = P.frameProof(u)
				done[u.name] = err
			}
			r.check("reply-end", x.Fn.Name()+" "+fnName(u.fn), u.fn.Pos(), err == nil, x.Outs[i].St, "%v", err)
		}
	}
	r.atLeast("reply-end", 1)
	r.atLeast("reply-scanned", 1)
}

func init() {
	checks["C39"] = propCheck{checkC39, how + "The split function by structural induction over the bytes of a reply cut anywhere, with the values its variables have when the scan starts."}
	checks["C33"] = propCheck{checkC33, how + "The codec functions by structural induction over the input: at each loop head the variables are positions in the input read and the output written, and every next token leads back to such a state; the frames built and parsed are tied to their arguments and results byte for byte."}
}

// assumeLess adds a < b; false: it cannot be.
func assumeLess(k *Facts, a, b *Term) bool {
	return k.assume(k.cmp(token.LSS, a, b, types.Typ[types.Int]), true) && !k.z.bot
}

// wellRefused: a frame refused on this path is not what an encoder makes.
func wellRefused(P *Program, x *Root, o *Outcome, frame *Term) bool {
	k := o.St.k.clone()
	st := newStateFrom(o.St, k)
	c, off, n := x.In.viewOf(st, frame)
	at := func(i *Term) *Term { return readIdx(k, c, addInt(k, off, i), types.Typ[types.Byte]) }
	if !assumeLess(k, mkInt(3, nil), n) {
		return true
	}
	first, lb := at(mkInt(0, nil)), at(mkInt(2, nil))
	if !assumeLess(k, first, mkInt(1, nil)) || !assumeLess(k, lb, addInt(k, n, mkInt(-3, nil))) {
		return true
	}
	cb, last := at(mkInt(1, nil)), at(addInt(k, n, mkInt(-1, nil)))
	for e := o.St.ev; e != nil; e = e.Prev {
		if e.Kind != EvReturn && e.Kind != EvCoded || e.Cont == nil {
			continue
		}
		dc, doff, dn := e.Cont.Args[0], e.Cont.Args[1], e.Cont.Args[2]
		if ok, _ := coded(P, k, e, true, [3]*Term{c, addInt(k, off, mkInt(3, nil)), addInt(k, n, mkInt(-4, nil))}, [3]*Term{dc, doff, dn}); !ok {
			continue
		}
		k2 := k.clone()
		if !k2.assume(k2.cmp(token.EQL, lb, dn, types.Typ[types.Int]), true) || k2.z.bot {
			return true
		}
		for _, f := range k2.f {
			if f.v || f.t.Op != OBin || f.t.Tok != token.EQL {
				continue
			}
			// a is not b: the last byte is not the checksum
			for i := range 2 {
				a, b := f.t.Args[i], f.t.Args[1-i]
				if !isInteger(a.Typ) || !isInteger(b.Typ) || !byteRange(k2, a) || !byteRange(k2, b) {
					continue
				}
				if eqInt(k2, a, last) && checksumOK(k2, b, cb, dn, dc, doff) || checksumIs(k2, mkBinAdd(a, last), b, cb, dn, dc, doff) {
					return true
				}
			}
		}
	}
	return false
}

func byteRange(k *Facts, t *Term) bool {
	lo, hi := k.z.rng(t)
	return lo >= 0 && hi <= 255
}
