package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- bytes.Buffer ----
//
// A buffer of the library is followed as long as nothing is read from it: its bytes are those
// of its first field.

// bufOf gives the slice a buffer holds, if nothing was read from it yet.
func (in *Interp) bufOf(st *State, b *Term) (*Term, bool) {
	if root := b.root(); root.Op != OAlloc || in.shared(root) || st.pub[root] != nil {
		return nil, false
	}
	t := b.elemTyp()
	fs := structFields(t)
	if len(fs) < 2 || fs[0].Name() != "buf" || fs[1].Name() != "off" {
		return nil, false
	}
	c := in.load(st, b, t)
	off, ok := mkField(c, 1, fs[1].Type()).intConst()
	if !ok || off != 0 {
		return nil, false
	}
	s := mkField(c, 0, fs[0].Type())
	return s, s.isNil() || s.Op == OSlice
}

func (in *Interp) setBuf(st *State, b, s *Term) {
	fs := structFields(b.elemTyp())
	in.store(st, mkFieldAddr(b, 0, fs[0].Type()), s)
	in.store(st, mkFieldAddr(b, 1, fs[1].Type()), mkInt(0, fs[1].Type()))
}

func bufModel(op string) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		if fr == nil || fr.fn.Pkg != in.P.Lib || args[0].isNil() {
			return nil, false
		}
		s, ok := in.bufOf(st, args[0])
		if !ok {
			return nil, false
		}
		bt := types.NewSlice(types.Typ[types.Byte])
		none := mkNil(types.Universe.Lookup("error").Type())
		switch op {
		case "write":
			n := in.length(st, args[1])
			in.setBuf(st, args[0], in.appendOp(st, fr, pos, s, args[1], bt))
			return one(st, mkTuple([]*Term{n, none})), true
		case "byte":
			arr := freshAlloc("byte", types.NewArray(types.Typ[types.Byte], 1), nil)
			st.mem[arr] = mkArray(types.NewArray(types.Typ[types.Byte], 1), []*Term{args[1]})
			l := mkInt(1, types.Typ[types.Int])
			in.setBuf(st, args[0], in.appendOp(st, fr, pos, s, mkSlice(arr, mkInt(0, nil), l, l, bt), bt))
			return one(st, none), true
		case "bytes":
			return one(st, s), true
		case "len":
			return one(st, in.length(st, s)), true
		case "grow":
			in.oblig(st, fr, pos, "panic", st.k.z.leq(mkInt(0, nil), args[1], 0), "negative size for Grow")
			return one(st, mkTuple(nil)), true
		case "writeto":
			if !st.k.z.leq(mkInt(1, nil), in.length(st, s), 0) {
				return nil, false
			}
			it, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Interface)
			if !ok || it.NumMethods() != 1 {
				return nil, false
			}
			// all of it is written, or there is an error
			as := in.call(st, fr, pos, &ssa.CallCommon{Method: it.Method(0)}, args[1], []*Term{s}, it.Method(0))
			for i := range as {
				if as[i].out != nil {
					continue
				}
				n := freshSym("n", types.Typ[types.Int64])
				as[i].st.k.assume(as[i].st.k.cmp(token.LSS, n, mkInt(0, nil), types.Typ[types.Int64]), false)
				v := as[i].val
				et := types.Universe.Lookup("error").Type()
				err := mkField(v, 1, et)
				if v.Op == OTuple {
					err = v.Args[1]
				}
				in.setBuf(as[i].st, args[0], freshSym("rest", bt))
				as[i].val = mkTuple([]*Term{n, err})
			}
			return as, true
		}
		return nil, false
	}
}

func newBufModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	t := f.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	fs := structFields(t)
	if fr == nil || fr.fn.Pkg != in.P.Lib || len(fs) < 2 || fs[0].Name() != "buf" || isString(args[0].Typ) {
		return nil, false
	}
	a := freshAlloc("buffer", t, nil)
	st.mem[a] = zeroTerm(t)
	in.setBuf(st, a, args[0])
	return one(st, a), true
}

func init() {
	models["(*bytes.Buffer).Write"] = bufModel("write")
	models["(*bytes.Buffer).WriteString"] = bufModel("write")
	models["(*bytes.Buffer).WriteByte"] = bufModel("byte")
	models["(*bytes.Buffer).Bytes"] = bufModel("bytes")
	models["(*bytes.Buffer).Len"] = bufModel("len")
	models["(*bytes.Buffer).Grow"] = bufModel("grow")
	models["bytes.NewBuffer"] = newBufModel
	models["(*bytes.Buffer).WriteTo"] = bufModel("writeto")
}
