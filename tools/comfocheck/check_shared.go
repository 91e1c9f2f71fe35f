package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libInit: memory set up by the library's initialiser: its package variables
// and everything they refer to.
func (P *Program) libInit(root *Term) bool {
	for root != nil && root.Op == OData {
		root = root.Args[0].root()
	}
	if root == nil {
		return false
	}
	if root.Op == OGlobal {
		return root.Obj.(*ssa.Global).Pkg == P.Lib
	}
	return root.Op == OAlloc && P.initPkg[root] == P.Lib
}

func (P *Program) syncMem(root *Term) bool {
	t := root.Typ
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && root.Op == OAlloc {
		t = p.Elem()
	}
	return isSyncType(t)
}

var mutatorNames = []string{"Read", "ReadFull", "ReadAtLeast", "Unmarshal", "Decode", "Sort", "Reverse", "Sscan", "Sscanf", "Fill", "Put", "Swap", "Store", "Add", "CompareAndSwap"}

// handsOut finds init-time memory of the library that a value gives access to.
func (P *Program) handsOut(t *Term) *Term {
	var hit *Term
	seen := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if x == nil || seen[x] || hit != nil {
			return
		}
		seen[x] = true
		if x.Op == OIface && x.Typ != nil {
			if types.Implements(x.Typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
				return // error values are meant to be shared
			}
		}
		switch x.Op {
		case OAlloc, OGlobal, OFieldAddr, OIndexAddr:
			if P.libInit(x.root()) && !P.syncMem(x.root()) {
				hit = x
			}
			return
		case OSlice, OIface, OStruct, OArray, OTuple, OClosure:
			for _, a := range x.Args {
				w(a)
			}
		}
	}
	w(t)
	return hit
}

func checkC11(A *Analysis, r *Rep) {
	P := A.P
	r.rule("constants-not-written", "no call writes to a package variable of the library or to memory set up by its initialiser (sequences, offsets, reply prototypes)")
	r.rule("not-handed-to-writers", "such memory is not passed to foreign code that writes through its arguments")
	r.rule("not-handed-out", "no exported function of the library returns access to such memory")
	r.rule("fresh-reply", "a decoded reply is a value allocated during the call")
	r.rule("new-is-fresh", "the New method of every reply type gives a freshly allocated value")
	for _, x := range r.use(A.allRoots()...) {
		n := 0
		x.eachEvent(func(e *Event) {
			switch e.Kind {
			case EvStore:
				root := e.Addr.root()
				n++
				if P.libInit(root) && !P.syncMem(root) {
					r.check("constants-not-written", rootName(root)+" in "+fnOf(e), e.Pos, false, &State{ev: e, k: e.Snap}, "%s is changed at run time (through %s)", rootName(root), x.Name)
				}
			case EvCall:
				if e.Callee != nil && P.isRepo(e.Callee) {
					return
				}
				short := e.Name[strings.LastIndex(e.Name, ".")+1:]
				mut := false
				for _, m := range mutatorNames {
					mut = mut || strings.HasPrefix(short, m)
				}
				if strings.HasPrefix(strings.TrimLeft(e.Name, "(*"), "sync.") {
					return
				}
				if !mut {
					return
				}
				for _, a := range append(append([]*Term{}, e.Args...), e.Recv) {
					if a == nil {
						continue
					}
					n++
					h := P.handsOut(a)
					r.check("not-handed-to-writers", e.Name+" in "+fnOf(e), e.Pos, h == nil, &State{ev: e, k: e.Snap}, "%s may write to %v", e.Name, h)
				}
			}
		})
		r.check("constants-not-written", x.Name, x.Fn.Pos(), true, nil, "")
	}
	var lib []*Root
	lib = append(lib, A.exchangeRoots()...)
	lib = append(lib, A.libRoots()...)
	lib = append(lib, A.libOther()...)
	var respT *types.Interface
	if m, ok := P.Lib.Members["Response"].(*ssa.Type); ok {
		respT, _ = m.Type().Underlying().(*types.Interface)
	}
	for _, x := range r.use(lib...) {
		res := x.Fn.Signature.Results()
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet {
				continue
			}
			for j := 0; j < res.Len(); j++ {
				v := x.ret(o, j)
				h := P.handsOut(v)
				r.check("not-handed-out", x.Name, x.Fn.Pos(), h == nil, o.St, "the result gives access to %v", h)
				if respT == nil {
					continue
				}
				rt := res.At(j).Type()
				_, isI := rt.Underlying().(*types.Interface)
				isResp := isI && !isErrorType(rt) && types.Implements(rt, respT)
				_, isP := rt.Underlying().(*types.Pointer)
				isResp = isResp || isP && types.Implements(rt, respT)
				if !isResp || v.isNil() {
					continue
				}
				rule := "fresh-reply"
				if x.Fn.Name() == "New" && x.Fn.Signature.Recv() != nil {
					rule = "new-is-fresh"
				}
				y := v
				if y.Op == OIface {
					y = y.Args[0]
				}
				fresh := y.Op == OAlloc && P.initMem[y] == nil
				r.check(rule, x.Name, x.Fn.Pos(), fresh || y.isNil(), o.St, "returns %v, which is not allocated in this call", v)
			}
		}
	}
	if respT == nil {
		r.undecided("Response", "reply interface not found")
	}
	r.atLeast("fresh-reply", 1)
	r.atLeast("new-is-fresh", 7)
	r.atLeast("constants-not-written", 30)
}
