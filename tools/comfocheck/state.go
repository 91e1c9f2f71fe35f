package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type EvKind uint8

const (
	EvCall    EvKind = iota // call of a function the analysis does not enter
	EvLock                  // lock acquired
	EvUnlock                // lock released
	EvLoad                  // load of shared memory
	EvStore                 // store to shared memory
	EvSend                  // channel send
	EvRecv                  // channel receive
	EvGo                    // goroutine started
	EvOblig                 // proof obligation
	EvLoop                  // loop summarised
	EvExit                  // process exit
	EvEnter                 // call of a function the analysis enters
	EvClose                 // channel closed
	EvFork                  // wait on several channels
	EvReturn                // return from an entered function
	EvCoded                 // bytes escaped or unescaped by a loop or library function
	EvWrap                  // a value wrapped: Recv exact, Val as it is then
	EvBlocked               // waits for ever
)

// An Event is one step of a path that rules look at. Events form a persistent
// list (Prev), so paths share prefixes.
type Event struct {
	Kind   EvKind
	Prev   *Event
	N      int
	Pos    token.Pos
	Fn     *ssa.Function
	Frame  *Frame
	Thread int
	Held   []Held

	Name   string // callee, obligation kind, ...
	Callee *ssa.Function
	Recv   *Term
	Args   []*Term
	Res    *Term // result (tuple for several)
	Addr   *Term // lock, address, channel
	Val    *Term
	Mode   byte // 'w' / 'r' lock mode
	OK     bool // obligation discharged
	Msg    string
	Cases  []*Term // channels of a select
	Loop   *LoopRec
	Snap   *Facts          // what was known at this point
	Mem    map[*Term]*Term // shared memory changed since (unlock, opaque call)
	Heap   map[*Term]*Term // all memory as a goroutine finds it (go)
	Cap    *Term           // send: channel capacity
	Match  *Event          // receive: the send it takes
	Split  []SplitOut      // scan: what the split function may return
	Use    *splitUse       // scan: the split function
	Cont   *Term           // pointee / slice contents of arguments at call time (tuple)
}

type Held struct {
	Lock *Term
	Mode byte
	Ev   *Event
}

type LoopRec struct {
	Fn    *ssa.Function
	Head  *ssa.BasicBlock
	Start *Event
	Iters []*State
	Exits bool
	Turns int64  // bound of complete turns, -1 if unknown
	First []bool // per turn: it can only be the first one
	Last  []bool // per turn: no other follows
}

type fact struct {
	t *Term
	v bool
}

// Facts is what is known on a path: zone plus truth of conditions.
type Facts struct {
	z *Zone
	f []fact
}

func newFacts() *Facts { return &Facts{z: &Zone{}} }
func (k *Facts) clone() *Facts {
	return &Facts{z: k.z.clone(), f: k.f[:len(k.f):len(k.f)]}
}

type chanState struct {
	cap     *Term
	pending []pend
	closed  bool
	escaped bool // others may use it
}
type pend struct {
	val *Term
	ev  *Event
}

type State struct {
	mem       map[*Term]*Term
	k         *Facts
	held      []Held
	ev        *Event
	chans     map[*Term]*chanState
	thread    int
	panicking *Term
	recovered bool
	aux       map[*Term]*Event // last Scan of a scanner, ...
	dirty     map[*Term]bool   // shared roots stored to
	threads   int
	pub       map[*Term]*Term // local objects other goroutines can reach, and through what
}

func (s *State) clone() *State {
	n := *s
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.k = s.k.clone()
	n.held = s.held[:len(s.held):len(s.held)]
	n.chans = make(map[*Term]*chanState, len(s.chans))
	for k, v := range s.chans {
		c := *v
		c.pending = c.pending[:len(c.pending):len(c.pending)]
		n.chans[k] = &c
	}
	n.aux = make(map[*Term]*Event, len(s.aux))
	for k, v := range s.aux {
		n.aux[k] = v
	}
	n.dirty = make(map[*Term]bool, len(s.dirty))
	for k, v := range s.dirty {
		n.dirty[k] = v
	}
	return &n
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, k: newFacts(), chans: map[*Term]*chanState{}, aux: map[*Term]*Event{}, dirty: map[*Term]bool{}}
}

// events lists the events of the path, oldest first.
func (s *State) events() []*Event { return eventsUpTo(s.ev, nil) }

func eventsUpTo(e, stop *Event) []*Event {
	var r []*Event
	for ; e != nil && e != stop; e = e.Prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- comparisons ----

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil)
}

func mkNot(t *Term) *Term {
	if v, ok := t.boolConst(); ok {
		return mkBool(!v)
	}
	if t.Op == OUn && t.Tok == token.NOT {
		return t.Args[0]
	}
	return T.mk(Term{Op: OUn, Tok: token.NOT, Args: []*Term{t}, Typ: types.Typ[types.Bool]}, "!")
}

func mkCmp(op token.Token, x, y *Term) *Term {
	if op == token.EQL && x.ID > y.ID {
		x, y = y, x
	}
	return T.mk(Term{Op: OBin, Tok: op, Args: []*Term{x, y}, Typ: types.Typ[types.Bool]}, op.String())
}

func constLess(a, b constant.Value) bool { return constant.Compare(a, token.LSS, b) }

// intView strips exact int->float conversions and integral float constants.
func intView(t *Term) (*Term, bool) {
	if t.Op == OConst && t.C != nil && (t.C.Kind() == constant.Float || t.C.Kind() == constant.Int) {
		c := constant.ToInt(t.C)
		if c.Kind() == constant.Int {
			if _, ok := constant.Int64Val(c); ok {
				return mkConst(c, types.Typ[types.Int]), true
			}
		}
		return nil, false
	}
	if t.Op == OConv && isFloat(t.Typ) && t.Name == "exact" {
		return t.Args[0], true
	}
	return nil, false
}

// cmp builds the truth value of x op y for values of type typ under the facts.
func (k *Facts) cmp(op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.NEQ:
		return mkNot(k.cmp(token.EQL, x, y, typ))
	case token.GTR:
		return k.cmp(token.LSS, y, x, typ)
	}
	if isFloat(typ) {
		if op == token.GEQ {
			return k.cmp(token.LEQ, y, x, typ)
		}
		ix, ok1 := intView(x)
		iy, ok2 := intView(y)
		if ok1 && ok2 {
			return k.cmp(op, ix, iy, types.Typ[types.Int])
		}
		if x.Op == OConst && y.Op == OConst {
			return mkBool(constant.Compare(x.C, op, y.C))
		}
		return k.decide(mkCmp(op, x, y))
	}
	switch op {
	case token.GEQ:
		return mkNot(k.cmp(token.LSS, x, y, typ))
	case token.LEQ:
		return mkNot(k.cmp(token.LSS, y, x, typ))
	}
	if isInteger(typ) {
		if op == token.EQL {
			if x == y {
				return mkBool(true)
			}
			if k.z.neq(x, y) {
				return mkBool(false)
			}
			// a number equals what a narrower type holds of it if it fits
			for i := 0; i < 2; i++ {
				if x.Op == OConv && x.Name == "" && isInteger(x.Typ) && len(x.Args) == 1 && x.Args[0] == y {
					if lo, hi := typeRange(x.Typ); k.z.leq(mkInt(lo, nil), y, 0) {
						return k.cmp(token.LEQ, y, mkInt(hi, nil), types.Typ[types.Int])
					}
				}
				x, y = y, x
			}
			if k.z.leq(x, y, 0) && k.z.leq(y, x, 0) {
				return mkBool(true)
			}
			// put the offset on one side
			bx, ox := x.lin()
			by, oy := y.lin()
			if bx == nil {
				bx, ox, by, oy = by, oy, bx, ox
			}
			if by != nil && bx.ID > by.ID {
				bx, ox, by, oy = by, oy, bx, ox
			}
			return k.decide(mkCmp(token.EQL, bx, mkLin(by, oy-ox, types.Typ[types.Int])))
		}
		if k.z.leq(x, y, -1) {
			return mkBool(true)
		}
		if k.z.leq(y, x, 0) {
			return mkBool(false)
		}
		return k.decide(mkCmp(token.LSS, x, y))
	}
	if op == token.LSS { // strings
		if a, ok := x.strConst(); ok {
			if b, ok := y.strConst(); ok {
				return mkBool(a < b)
			}
		}
		return k.decide(mkCmp(op, x, y))
	}
	return k.equal(x, y, typ)
}

func (k *Facts) equal(x, y *Term, typ types.Type) *Term {
	if x == y {
		return mkBool(true)
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		if v, ok := x.boolConst(); ok {
			x, y = y, x
			_ = v
		}
		if v, ok := y.boolConst(); ok {
			if v {
				return k.decide(x)
			}
			return mkNot(k.decide(x))
		}
	}
	if x.Op == OConst && y.Op == OConst && x.C != nil && y.C != nil {
		return mkBool(constant.Compare(x.C, token.EQL, y.C))
	}
	if y.isNil() {
		x, y = y, x
	}
	if x.isNil() {
		if y.NonNil || y.C != nil {
			return mkBool(false)
		}
		return k.decide(mkCmp(token.EQL, x, y))
	}
	if x.Op == OIface && y.Op == OIface {
		if !types.Identical(x.Typ, y.Typ) {
			return mkBool(false)
		}
		return k.equal(x.Args[0], y.Args[0], x.Typ)
	}
	if x.Op == OAlloc && y.Op == OAlloc || x.Op == OGlobal && y.Op == OGlobal || x.Op == OAlloc && y.Op == OGlobal || x.Op == OGlobal && y.Op == OAlloc {
		return mkBool(false)
	}
	if x.Op == OFieldAddr && y.Op == OFieldAddr && x.Args[0] == y.Args[0] && x.Off != y.Off && occupies(x.elemTyp()) && occupies(y.elemTyp()) {
		return mkBool(false)
	}
	if x.Op == OIndexAddr && y.Op == OIndexAddr && x.Args[0] == y.Args[0] && k.z.neq(x.Args[1], y.Args[1]) && occupies(x.elemTyp()) {
		return mkBool(false)
	}
	if structOf(typ) != nil {
		// field-wise equality is not decided
		return k.decide(mkCmp(token.EQL, x, y))
	}
	if isString(typ) {
		for _, p := range [2][2]*Term{{x, y}, {y, x}} {
			if c, ok := p[1].strConst(); ok {
				for _, f := range k.f {
					if f.v && f.t.Op == OBin && f.t.Tok == token.EQL && (f.t.Args[0] == p[0] || f.t.Args[1] == p[0]) {
						o := f.t.Args[0]
						if o == p[0] {
							o = f.t.Args[1]
						}
						if d, ok := o.strConst(); ok && d != c {
							return mkBool(false)
						}
					}
				}
			}
		}
	}
	if x.Op == OIface && y.Op == OSym || y.Op == OIface && x.Op == OSym {
		s, i := x, y
		if x.Op == OIface {
			s, i = y, x
		}
		// a result of a foreign call made before the value existed
		if _, ok := k.known(mkCmp(token.EQL, mkNil(nil), s)); ok && i.NonNil {
			if v, _ := k.known(mkCmp(token.EQL, mkNil(nil), s)); v {
				return mkBool(false)
			}
		}
	}
	return k.decide(mkCmp(token.EQL, x, y))
}

func (k *Facts) known(t *Term) (bool, bool) {
	if v, ok := t.boolConst(); ok {
		return v, true
	}
	neg := false
	for t.Op == OUn && t.Tok == token.NOT {
		t = t.Args[0]
		neg = !neg
	}
	if v, ok := t.boolConst(); ok {
		return v != neg, true
	}
	for _, f := range k.f {
		if f.t == t {
			return f.v != neg, true
		}
	}
	return false, false
}

// decide replaces a condition by its known truth value.
func (k *Facts) decide(t *Term) *Term {
	if v, ok := k.known(t); ok {
		return mkBool(v)
	}
	if t.Op == OBin && len(t.Args) == 2 {
		x, y := t.Args[0], t.Args[1]
		ityp := func(a *Term) bool { return isInteger(a.Typ) || a.Op == OLin || a.Op == OLen }
		if (t.Tok == token.EQL || t.Tok == token.LSS) && ityp(x) && ityp(y) {
			switch t.Tok {
			case token.EQL:
				if k.z.neq(x, y) {
					return mkBool(false)
				}
				if k.z.leq(x, y, 0) && k.z.leq(y, x, 0) {
					return mkBool(true)
				}
			case token.LSS:
				if k.z.leq(x, y, -1) {
					return mkBool(true)
				}
				if k.z.leq(y, x, 0) {
					return mkBool(false)
				}
			}
		}
	}
	return t
}

// assume adds a condition; false: it contradicts what is known.
func (k *Facts) assume(t *Term, v bool) bool {
	for t.Op == OUn && t.Tok == token.NOT {
		t = t.Args[0]
		v = !v
	}
	if b, ok := k.known(t); ok {
		return b == v
	}
	if t.Op == OBin {
		x, y := t.Args[0], t.Args[1]
		num := func(a *Term) bool {
			return a.C == nil && isInteger(a.Typ) || a.Op == OLin || a.Op == OLen || isIntConst(a)
		}
		if (t.Tok == token.EQL || t.Tok == token.LSS) && num(x) && num(y) && !(isBoolT(x) || isBoolT(y)) {
			if !k.assumeOrder(t.Tok, x, y, v) {
				return false
			}
			if a, b := k.regroup(x, y); a != nil && !k.assumeOrder(t.Tok, a, b, v) {
				return false
			}
		}
		if (t.Tok == token.EQL || t.Tok == token.LSS) && num(x) && num(y) && !(k.quotients(x) && k.quotients(y) && k.differences(x) && k.differences(y)) {
			return false
		}
		if t.Tok == token.EQL && v && isString(x.Typ) {
			if m, ok := k.equal(x, y, x.Typ).boolConst(); ok && !m {
				return false
			}
		}
	}
	k.f = append(k.f[:len(k.f):len(k.f)], fact{t, v})
	if t.Op == OBin && t.Tok == token.EQL && v && (t.Args[0].isNil() || t.Args[1].isNil()) {
		x := t.Args[0]
		if x.isNil() {
			x = t.Args[1]
		}
		// contract of an exchange: success determines the reply code
		if x.Op == OField && x.Args[0].Org != nil {
			if e := x.Args[0].Org; len(e.Cases) == 2 && e.Kind == EvCall && e.errTerm() == x {
				if !k.assume(k.cmp(token.EQL, e.Cases[0], e.Cases[1], e.Cases[0].Typ), true) {
					return false
				}
			}
		}
	}
	// conditions implied by equalities between conditions are not derived
	return !k.z.bot
}

func (k *Facts) assumeOrder(op token.Token, x, y *Term, v bool) bool {
	bx, ox := x.lin()
	by, oy := y.lin()
	switch {
	case op == token.EQL && v:
		return k.z.add(bx, by, oy-ox) && k.z.add(by, bx, ox-oy)
	case op == token.EQL:
		return k.z.addNeq(bx, by, oy-ox)
	case v: // x < y: bx-by <= oy-ox-1
		return k.z.add(bx, by, oy-ox-1)
	}
	return k.z.add(by, bx, ox-oy) // y <= x
}

// regroup puts a comparison with a difference, x to a-b, as x+b to a.
func (k *Facts) regroup(x, y *Term) (a, b *Term) {
	m, c := map[*Term]int64{}, int64(0)
	linParts(x, 1, m, &c, 0)
	linParts(y, -1, m, &c, 0)
	if len(m) != 3 {
		return nil, nil
	}
	var p, n []*Term
	for t, f := range m {
		switch f {
		case 1:
			p = append(p, t)
		case -1:
			n = append(n, t)
		}
	}
	sum := func(l []*Term) *Term {
		r := l[0]
		if len(l) == 2 {
			r = addInt(k, l[0], l[1])
		}
		return r
	}
	if len(p)+len(n) < 3 || len(p) == 0 || len(n) == 0 {
		return nil, nil
	}
	a, b = sum(p), sum(n)
	if c != 0 {
		a = addInt(k, a, mkInt(c, types.Typ[types.Int]))
	}
	return a, b
}

// differences carries the bounds of a difference over to its operands.
func (k *Facts) differences(t *Term) bool {
	d, _ := t.lin()
	if d == nil || d.Op != OBin || d.Tok != token.SUB {
		return true
	}
	if b, ok := d.Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
		return true
	}
	x, ox := d.Args[0].lin()
	y, oy := d.Args[1].lin()
	for _, a := range []*Term{x, y} {
		if lo, hi := k.z.rng(a); lo <= ninf || hi >= inf {
			return true // may wrap around
		}
	}
	lo, hi := k.z.rng(d) // lo <= x+ox-y-oy <= hi
	return (hi >= inf || k.z.add(x, y, hi-ox+oy)) && (lo <= ninf || k.z.add(y, x, -lo+ox-oy))
}

// quotients bounds the operands of a division by what is known of its result.
func (k *Facts) quotients(t *Term) bool {
	q, _ := t.lin()
	if q == nil || q.Op != OBin || q.Tok != token.QUO || q.Typ == nil || !isInteger(q.Typ) {
		return true
	}
	lo, hi := k.z.rng(q)
	x, y := q.Args[0], q.Args[1]
	if n, ok := x.intConst(); ok && n > 0 {
		if l, _ := k.z.rng(y); l < 1 {
			return true
		}
		b, o := y.lin()
		if hi >= 0 && hi < n && !k.z.add(nil, b, o-(n/(hi+1)+1)) {
			return false
		}
		return lo <= 0 || k.z.add(b, nil, n/lo-o)
	}
	if m, ok := y.intConst(); ok && m > 0 && m < 1<<31 {
		if l, _ := k.z.rng(x); l < 0 {
			return true
		}
		b, o := x.lin()
		if hi >= 0 && hi < 1<<31 && !k.z.add(b, nil, hi*m+m-1-o) {
			return false
		}
		return lo <= 0 || lo >= 1<<31 || k.z.add(nil, b, o-lo*m)
	}
	return true
}

func isIntConst(t *Term) bool { _, ok := t.intConst(); return ok }
func isBoolT(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// nonNil reports whether a nilable value is known not to be nil.
func (k *Facts) nonNil(t *Term) bool {
	if t.NonNil {
		return true
	}
	if t.isNil() {
		return false
	}
	if v, ok := k.known(mkCmp(token.EQL, mkNil(nil), t)); ok {
		return !v
	}
	// convention of foreign functions: a nil error comes with a usable result
	if t.Op == OField && t.Args[0].Op == OSym {
		if e := t.Args[0].Org; e != nil && e.Kind == EvCall {
			if er := e.errTerm(); er != nil && er != t {
				if v, ok := k.known(mkCmp(token.EQL, mkNil(nil), er)); ok && v {
					return true
				}
			}
		}
	}
	return false
}

// isNilFact: t is known to be nil.
func (k *Facts) isNil(t *Term) bool {
	if t.isNil() {
		return true
	}
	v, ok := k.known(mkCmp(token.EQL, mkNil(nil), t))
	return ok && v
}

// errTerm is the error result of an opaque call, if it has one.
func (e *Event) errTerm() *Term {
	if e.Res == nil {
		return nil
	}
	if tt, ok := e.Res.Typ.(*types.Tuple); ok {
		n := tt.Len()
		if n > 0 && isErrorType(tt.At(n-1).Type()) {
			return e.result(n - 1)
		}
		return nil
	}
	if isErrorType(e.Res.Typ) {
		return e.Res
	}
	return nil
}

// result returns the i-th result term of an opaque call.
func (e *Event) result(i int) *Term {
	if tt, ok := e.Res.Typ.(*types.Tuple); ok {
		if e.Res.Op == OTuple {
			return e.Res.Args[i]
		}
		return mkField(e.Res, i, tt.At(i).Type())
	}
	if e.Res.Op == OTuple {
		return e.Res.Args[i]
	}
	return e.Res
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}
