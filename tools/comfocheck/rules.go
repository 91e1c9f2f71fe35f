package main

import (
	"go/token"
	"go/types"
	"strings"
)

// ---- helpers shared by the property checks ----

// results lists the results a path returns.
func (o *Outcome) results(n int) []*Term {
	if n == 0 {
		return nil
	}
	if n == 1 {
		return []*Term{o.Ret}
	}
	if o.Ret.Op == OTuple {
		return o.Ret.Args
	}
	var r []*Term
	tt := o.Ret.Typ.(*types.Tuple)
	for i := 0; i < n; i++ {
		r = append(r, mkField(o.Ret, i, tt.At(i).Type()))
	}
	return r
}

// ret gives the i-th result of a path of root r.
func (r *Root) ret(o *Outcome, i int) *Term {
	return o.results(r.Fn.Signature.Results().Len())[i]
}

// errIdx is the index of the error result, or -1.
func (r *Root) errIdx() int {
	n := r.Fn.Signature.Results().Len()
	if n > 0 && isErrorType(r.Fn.Signature.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func isNilCond(t *Term) *Term { return mkCmp(token.EQL, mkNil(nil), t) }

// mayNil: nothing known on the path excludes that t is nil.
func (k *Facts) mayNil(t *Term) bool {
	if t.isNil() {
		return true
	}
	if k.nonNil(t) {
		return false
	}
	c := k.clone()
	return c.assume(isNilCond(t), true)
}

// success gives the facts of a path when its error result is nil; nil if it
// cannot be.
func (r *Root) success(o *Outcome) *Facts {
	if o.Kind != KRet {
		return nil
	}
	i := r.errIdx()
	if i < 0 {
		return o.St.k
	}
	e := r.ret(o, i)
	if !o.St.k.mayNil(e) {
		return nil
	}
	k := o.St.k.clone()
	if !e.isNil() {
		if !k.assume(isNilCond(e), true) {
			return nil
		}
		k.implied()
	}
	return k
}

// implied adds what follows from the facts about joined errors.
func (k *Facts) implied() {
	for i := 0; i < len(k.f); i++ {
		f := k.f[i]
		if !f.v || f.t.Op != OBin || f.t.Tok != token.EQL {
			continue
		}
		x := f.t.Args[0]
		y := f.t.Args[1]
		if y.isNil() {
			x, y = y, x
		}
		if !x.isNil() || y.Org == nil || y.Org.Name != "errors.Join" {
			continue
		}
		// a nil join has only nil parts
		for _, p := range joinParts(y.Org) {
			if !p.isNil() {
				k.assume(isNilCond(p), true)
			}
		}
	}
}

// joinParts lists the errors given to errors.Join, if known.
func joinParts(e *Event) []*Term {
	if len(e.Args) == 1 && e.Args[0].isNil() {
		return []*Term{}
	}
	if e.Cont == nil || len(e.Cont.Args) == 0 {
		return nil
	}
	v := e.Cont.Args[0]
	if v.Op != OPure || v.Name != "view" {
		return nil
	}
	n, ok := v.Args[2].intConst()
	off, ok2 := v.Args[1].intConst()
	if ok && ok2 && v.Args[0].Op == OZero && n <= maxArr {
		var r []*Term
		for i := int64(0); i < n; i++ {
			r = append(r, mkNil(nil))
		}
		return r
	}
	if !ok || !ok2 || v.Args[0].Op != OArray || off+n > int64(len(v.Args[0].Args)) {
		return nil
	}
	return v.Args[0].Args[off : off+n]
}

func knownNil(k *Facts, t *Term) bool { return k.isNil(t) }

func knownTrue(k *Facts, t *Term) bool {
	v, ok := k.known(t)
	return ok && v
}
func knownFalse(k *Facts, t *Term) bool {
	v, ok := k.known(t)
	return ok && !v
}

// globalLock: a lock that exists once in the process.
func (P *Program) globalLock(l *Term) bool {
	r := l.root()
	if r.Op == OGlobal {
		return true
	}
	_, ok := P.initMem[r]
	return ok && r.Op == OAlloc
}

func heldLock(h []Held, l *Term) *Held {
	for i := range h {
		if h[i].Lock == l {
			return &h[i]
		}
	}
	return nil
}

// ---- the connection ----

// onConn: the term is the connection or something that reads or writes it.
func onConn(t *Term) bool { return derived(t, map[*Term]bool{}) }

func derived(t *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch t.Op {
	case OSym, OField, OIndex:
		if t.Typ != nil {
			if _, ok := t.Typ.Underlying().(*types.Interface); ok && (isConnType(t.Typ) || isReaderWriter(t.Typ)) {
				return true
			}
		}
		b := t
		for b.Op == OField {
			b = b.Args[0]
		}
		if b.Org != nil && b.Org.Kind == EvCall && t.Typ != nil && isHandle(t.Typ) && !isErrorType(t.Typ) {
			e := b.Org
			if e.Recv != nil && derived(e.Recv, seen) {
				return true
			}
			for _, a := range e.Args {
				if derived(a, seen) {
					return true
				}
			}
		}
		return false
	case OIface:
		return derived(t.Args[0], seen)
	}
	return false
}

func isReaderWriter(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && (hasMethod(t, "Read") || hasMethod(t, "Write"))
}

func isHandle(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Struct:
		return true
	}
	return false
}

type ioKind byte

const (
	ioNone ioKind = iota
	ioWrite
	ioRead
	ioOther
)

// connIO classifies an event as input or output on the connection.
func (P *Program) connIO(e *Event) ioKind {
	if e.Kind != EvCall || e.Callee != nil && P.isRepo(e.Callee) {
		return ioNone
	}
	on := e.Recv != nil && onConn(e.Recv)
	for _, a := range e.Args {
		on = on || onConn(a)
	}
	if !on {
		return ioNone
	}
	n := e.Name
	short := n[strings.LastIndex(n, ".")+1:]
	switch {
	case strings.HasPrefix(short, "New"), strings.HasPrefix(n, "fmt.S"), strings.HasPrefix(n, "log"), strings.HasPrefix(n, "errors."):
		return ioNone
	case n == "io.TeeReader", n == "io.LimitReader", n == "io.MultiReader", n == "io.MultiWriter":
		return ioNone
	}
	switch short {
	case "Split", "Buffer", "Bytes", "Text", "Err", "Close", "Buffered", "Size", "Available", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "LocalAddr", "RemoteAddr":
		return ioNone
	case "Scan", "Read", "ReadByte", "ReadBytes", "ReadString", "ReadSlice", "ReadLine", "ReadRune", "Peek", "Discard", "ReadFull", "ReadAtLeast", "ReadAll", "CopyN", "Copy", "ReadFrom":
		return ioRead
	case "Write", "WriteString", "WriteByte", "Flush", "WriteTo", "Fprint", "Fprintf":
		return ioWrite
	}
	return ioOther
}

func connEvents(P *Program, st *State) []*Event {
	var r []*Event
	for _, e := range st.events() {
		if P.connIO(e) != ioNone {
			r = append(r, e)
		}
	}
	return r
}

func fnOf(e *Event) string {
	if e.Fn == nil {
		return "?"
	}
	f := e.Fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name()
}

// goEvent finds the event that started a thread.
func goEvent(st *State, thread int) *Event {
	for e := st.ev; e != nil; e = e.Prev {
		if e.Kind == EvGo && e.N == thread {
			return e
		}
	}
	return nil
}

// effHeld: the locks held around an event: its own thread's, and for
// goroutines the locks the starter held when it started them.
func effHeld(st *State, e *Event) []Held {
	h := e.Held
	t := e.Thread
	for d := 0; t != 0 && d < 10; d++ {
		g := goEvent(st, t)
		if g == nil {
			break
		}
		h = append(append([]Held{}, h...), g.Held...)
		t = g.Thread
	}
	return h
}

// exchangeCalls lists the exchanges of a path.
func (P *Program) exchangeCalls(st *State) []*Event {
	var r []*Event
	for _, e := range st.events() {
		if e.Kind == EvCall && e.Callee != nil && P.isExchange(e.Callee) {
			r = append(r, e)
		}
	}
	return r
}

// libCalls lists the library calls of a service path.
func (P *Program) libCalls(st *State) []*Event {
	var r []*Event
	for _, e := range st.events() {
		if e.Kind == EvCall && e.Callee != nil && P.libBoundary(e.Callee) {
			r = append(r, e)
		}
	}
	return r
}
