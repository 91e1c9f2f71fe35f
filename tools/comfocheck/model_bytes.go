package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Library functions that put bytes together, in terms of append.

func init() {
	for name, m := range map[string]model{
		"bytes.NewBuffer":             newBufferModel,
		"bytes.NewBufferString":       newBufferModel,
		"(*bytes.Buffer).WriteByte":   bufferModel,
		"(*bytes.Buffer).Write":       bufferModel,
		"(*bytes.Buffer).WriteString": bufferModel,
		"(*bytes.Buffer).Bytes":       bufferModel,
		"(*bytes.Buffer).String":      bufferModel,
		"(*bytes.Buffer).Len":         bufferModel,
		"(*bytes.Buffer).Grow":        bufferModel,
		"(*bytes.Buffer).Reset":       bufferModel,
		"bytes.Join":                  joinModel,
		"slices.Concat":               joinModel,
		"bytes.ReplaceAll":            replaceModel,
		"bytes.Replace":               replaceModel,

		"(encoding/binary.bigEndian).PutUint16":       putModel(2, false, false),
		"(encoding/binary.bigEndian).PutUint32":       putModel(4, false, false),
		"(encoding/binary.bigEndian).PutUint64":       putModel(8, false, false),
		"(encoding/binary.littleEndian).PutUint16":    putModel(2, true, false),
		"(encoding/binary.littleEndian).PutUint32":    putModel(4, true, false),
		"(encoding/binary.littleEndian).PutUint64":    putModel(8, true, false),
		"(encoding/binary.bigEndian).AppendUint16":    putModel(2, false, true),
		"(encoding/binary.bigEndian).AppendUint32":    putModel(4, false, true),
		"(encoding/binary.bigEndian).AppendUint64":    putModel(8, false, true),
		"(encoding/binary.littleEndian).AppendUint16": putModel(2, true, true),
		"(encoding/binary.littleEndian).AppendUint32": putModel(4, true, true),
		"(encoding/binary.littleEndian).AppendUint64": putModel(8, true, true),
	} {
		models[name] = m
	}
}

func newBufferModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	pt, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
	if !ok || bufferBytes(pt.Elem()) < 0 {
		return nil, false
	}
	b := args[0]
	if isString(f.Signature.Params().At(0).Type()) {
		b = in.convert(st, b, types.Typ[types.String], bufType)
	}
	if !b.isNil() && b.Op != OSlice {
		return nil, false
	}
	a := freshAlloc("buffer", pt.Elem(), nil)
	st.mem[a] = zeroTerm(pt.Elem())
	in.store(st, mkFieldAddr(a, bufferBytes(pt.Elem()), bufType), b)
	return one(st, a), true
}

// bufferBytes: the field of bytes.Buffer that holds the bytes.
func bufferBytes(t types.Type) int {
	return fieldNamed(t, "buf")
}

func fieldNamed(t types.Type, name string) int {
	if s := structOf(t); s != nil {
		for i := range s.NumFields() {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

// bufferModel: buffers of this goroutine that are only written to.
func bufferModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
	r := args[0]
	if !ok || r.isNil() || r.root().Op != OAlloc || in.shared(r.root()) {
		return nil, false
	}
	bi, oi := bufferBytes(pt.Elem()), fieldNamed(pt.Elem(), "off")
	if bi < 0 || oi < 0 {
		return nil, false
	}
	it := types.Typ[types.Int]
	if v, ok := in.load(st, mkFieldAddr(r, oi, it), it).intConst(); !ok || v != 0 {
		return nil, false
	}
	at := mkFieldAddr(r, bi, bufType)
	b := in.load(st, at, bufType)
	if !b.isNil() && (b.Op != OSlice || b.Args[0].root().Op != OAlloc || in.shared(b.Args[0].root())) {
		return nil, false
	}
	n := in.length(st, b)
	noErr := mkNil(in.P.errType)
	write := func(x *Term) {
		in.store(st, at, in.appendOp(st, fr, pos, b, x, bufType))
	}
	switch f.Name() {
	case "WriteByte":
		write(in.listOf(st, []*Term{args[1]}, types.Typ[types.Byte]))
		return one(st, mkNil(f.Signature.Results().At(0).Type())), true
	case "Write", "WriteString":
		l := in.length(st, args[1])
		write(args[1])
		noErr = mkNil(f.Signature.Results().At(1).Type())
		return one(st, mkTuple([]*Term{l, noErr})), true
	case "Bytes":
		return one(st, b), true
	case "String":
		if b.isNil() {
			return one(st, mkStr("")), true
		}
		return one(st, in.convert(st, b, bufType, types.Typ[types.String])), true
	case "Len":
		return one(st, n), true
	case "Grow":
		if lo, _ := st.k.z.rng(args[1]); lo < 0 {
			return nil, false
		}
		return one(st, mkTuple(nil)), true
	case "Reset":
		if !b.isNil() {
			in.store(st, at, mkSlice(b.Args[0], b.Args[1], mkInt(0, it), b.Args[3], b.Typ))
		}
		return one(st, mkTuple(nil)), true
	}
	return nil, false
}

// listOf: a new slice of some elements.
func (in *Interp) listOf(st *State, el []*Term, et types.Type) *Term {
	at := types.NewArray(et, int64(len(el)))
	a := freshAlloc("list", at, nil)
	st.mem[a] = mkArray(at, el)
	n := mkInt(int64(len(el)), types.Typ[types.Int])
	return mkSlice(a, mkInt(0, nil), n, n, types.NewSlice(et))
}

// joinModel: a known number of byte slices with a separator.
func joinModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	lt, ok := args[0].Typ.(*types.Slice)
	if !ok {
		lt, ok = f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	}
	if !ok || !isByteSlice(lt.Elem()) {
		return nil, false
	}
	l, ok := in.elems(st, args[0], lt.Elem())
	if !ok {
		return nil, false
	}
	r := mkNil(bufType)
	for i, x := range l {
		if i > 0 && len(args) > 1 {
			r = in.appendOp(st, fr, pos, r, args[1], bufType)
		}
		if i == 0 && !x.isNil() {
			n := in.length(st, x)
			if v, ok := constOf(st.k, n); ok && v == 0 {
				continue
			}
		}
		r = in.appendOp(st, fr, pos, r, x, bufType)
	}
	return one(st, r), true
}

// replaceModel: escaping and unescaping.
func replaceModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	if len(args) > 3 {
		if v, ok := constOf(st.k, args[3]); !ok || v >= 0 {
			return nil, false
		}
	}
	esc := func(x *Term, n int) bool {
		el, ok := in.elems(st, x, types.Typ[types.Byte])
		if !ok || len(el) != n {
			return false
		}
		for _, e := range el {
			if v, ok := constOf(st.k, e); !ok || v != escByte {
				return false
			}
		}
		return true
	}
	dec := false
	switch {
	case esc(args[1], 1) && esc(args[2], 2):
	case esc(args[1], 2) && esc(args[2], 1):
		dec = true
	default:
		return nil, false
	}
	c, o, n := in.viewOf(st, args[0])
	return one(st, in.codedSlice(st, fr, pos, dec, [3]*Term{c, o, n})), true
}

// putModel: the bytes of an integer, stored or appended.
func putModel(n int64, little, app bool) model {
	return func(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
		bt := types.Typ[types.Byte]
		b, v := args[len(args)-2], args[len(args)-1]
		vt := f.Signature.Params().At(1).Type()
		el := make([]*Term, n)
		for i := range n {
			x := v
			if i > 0 {
				r := in.intOp(st, fr, pos, token.SHR, v, mkInt(8*i, types.Typ[types.Uint]), vt)
				if len(r) != 1 || r[0].out != nil {
					in.giveUp(fr, pos, "byte %d of an integer", i)
				}
				st, x = r[0].st, r[0].val
			}
			j := n - 1 - i
			if little {
				j = i
			}
			el[j] = in.convert(st, x, vt, bt)
		}
		s := in.listOf(st, el, bt)
		if app {
			return one(st, in.appendOp(st, fr, pos, b, s, bufType)), true
		}
		_, _, ln, _ := sliceParts(st.k, b)
		in.oblig(st, fr, pos, "index", st.k.z.leq(mkInt(n, nil), ln, 0), fnName(f)+" needs more bytes than it is given: "+ln.String())
		in.copyOp(st, fr, pos, b, s)
		return one(st, mkTuple(nil)), true
	}
}
