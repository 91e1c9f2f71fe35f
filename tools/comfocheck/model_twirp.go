package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Options of a Twirp server. An option is a value that, called with the
// options, sets one of their fields.

const twirpPath = "github.com/twitchtv/twirp."

// optModel: an option that was made with these arguments.
func optModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	list := args
	if f.Signature.Variadic() {
		var ok bool
		if list, ok = in.optList(st, args[0]); !ok {
			return nil, false
		}
	}
	t := mkPure("option:"+f.Name(), f.Signature.Results().At(0).Type(), list...)
	t.NonNil = true
	return one(st, t), true
}

// optList: the elements of a slice of known length.
func (in *Interp) optList(st *State, s *Term) ([]*Term, bool) {
	if s.isNil() {
		return nil, true
	}
	if s.Op == OPure && s.Name == "interceptors" {
		return s.Args, true
	}
	c, off, ln := in.viewOf(st, s)
	n, ok := ln.intConst()
	o, ok2 := off.intConst()
	if !ok || !ok2 || c == nil || c.Op != OArray || o < 0 || o+n > int64(len(c.Args)) {
		return nil, false
	}
	return c.Args[o : o+n], true
}

// applyOption calls an option.
func (in *Interp) applyOption(st *State, opt *Term, args []*Term) bool {
	if len(args) != 1 || args[0].Op != OAlloc {
		return false
	}
	s := structOf(args[0].elemTyp())
	if s == nil {
		return false
	}
	set := func(field string, v *Term) bool {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				in.store(st, mkFieldAddr(args[0], i, s.Field(i).Type()), v)
				return true
			}
		}
		return false
	}
	switch strings.TrimPrefix(opt.Name, "option:") {
	case "WithServerHooks":
		return set("Hooks", opt.Args[0])
	case "WithServerInterceptors":
		old, ok := in.optList(st, contField(in.content(st, args[0]), "Interceptors"))
		if !ok {
			return false
		}
		all := append(append([]*Term(nil), old...), opt.Args...)
		return set("Interceptors", mkPure("interceptors", types.NewSlice(opt.Typ), all...))
	}
	return false
}

// chainModel: several interceptors in one, or none.
func chainModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	res := f.Signature.Results().At(0).Type()
	if s := args[0]; s.isNil() || s.Op == OSlice && st.k.z.leq(s.Args[2], mkInt(0, nil), 0) {
		return one(st, mkNil(res)), true
	}
	list, ok := in.optList(st, args[0])
	if !ok {
		return nil, false
	}
	if len(list) == 0 {
		return one(st, mkNil(res)), true
	}
	t := mkPure(twirpPath+"ChainInterceptors", res, list...)
	t.NonNil = true
	return one(st, t), true
}

func init() {
	models[twirpPath+"WithServerHooks"] = optModel
	models[twirpPath+"WithServerInterceptors"] = optModel
}
