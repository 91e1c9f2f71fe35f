package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reach: t is memory, or holds memory, that is reached from p (a request or a
// response writer), and how.
func (x *Root) reach(t, p *Term) (path []string, ok bool) {
	for d := 0; d < 30; d++ {
		t = strip(t)
		if t == nil {
			return nil, false
		}
		if t == p {
			return path, true
		}
		if t.Typ != nil {
			if _, basic := t.Typ.Underlying().(*types.Basic); basic && t.Op != OFieldAddr && t.Op != OIndexAddr && t.Op != OAlloc {
				return nil, false // a copy
			}
		}
		switch {
		case t.Src != nil:
			t = t.Src
		case t.Op == OField || t.Op == OFieldAddr:
			if s := structOf(t.Args[0].elemTyp()); s != nil && int(t.Off) < s.NumFields() {
				path = append(path, s.Field(int(t.Off)).Name())
			} else if s := structOf(t.Args[0].Typ); s != nil && int(t.Off) < s.NumFields() {
				path = append(path, s.Field(int(t.Off)).Name())
			}
			t = t.Args[0]
		case t.Op == OIndexAddr || t.Op == OIndex || t.Op == OPure && t.Name == "unwrap":
			t = t.Args[0]
		default:
			e, i := resultOf(t)
			if e == nil || i != 0 || e.Recv == nil {
				return nil, false
			}
			switch {
			case e.Name == "(*net/http.Request).WithContext", e.Name == "(*net/http.Request).Clone":
			case strings.HasSuffix(e.Name, ".Header"):
				path = append(path, "Header")
			default:
				return nil, false
			}
			t = e.Recv
		}
	}
	return nil, false
}

// readsOnly: a call that leaves a request it is given, or parts of it, as they
// are.
func readsOnly(name string, path []string) bool {
	for _, p := range []string{"log/slog.", "(*log/slog.", "log.", "(*log.", "fmt.Sprint", "fmt.Print", "fmt.Errorf", "github.com/gorilla/mux."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	m := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.HasPrefix(name, "(*net/http.Request)."):
		switch m {
		case "Context", "UserAgent", "Referer", "Cookie", "Cookies", "CookiesNamed", "BasicAuth", "ProtoAtLeast", "PathValue", "Clone", "WithContext":
			return true
		}
	case strings.HasPrefix(name, "(net/http.Header)."):
		switch m {
		case "Get", "Values", "Clone":
			return true
		}
	case strings.HasPrefix(name, "(*net/url.URL).") || strings.HasPrefix(name, "(net/url.URL)."):
		return m != "UnmarshalBinary"
	}
	return false
}

// eventsOf: the events of a path with those of the turns of its loops, in order.
func (x *Root) eventsOf(st *State) (evs []*Event) {
	for _, e := range st.events() {
		evs = append(evs, e)
		if e.Kind == EvLoop && e.Loop != nil {
			for _, is := range e.Loop.Iters {
				evs = append(evs, eventsUpTo(is.ev, e.Loop.Start)...)
			}
		}
	}
	return evs
}

// intact checks what a wrapper does with the requests and responses it passes
// on.
func (A *Analysis) intact(r *Rep, x *Root) {
	n := len(x.Params)
	w, req := x.Params[n-2], x.Params[n-1]
	name := fnName(x.Fn)
	for i := range x.Outs {
		o := &x.Outs[i]
		if o.Kind != KRet {
			continue
		}
		before := true
		for _, e := range x.eventsOf(o.St) {
			at := &State{ev: e, k: e.Snap, mem: o.St.mem}
			if at.k == nil {
				at.k = o.St.k
			}
			switch e.Kind {
			case EvStore:
				if path, ok := x.reach(e.Addr, req); ok && before {
					r.check("request-intact", name, e.Pos, false, at, "%s of the request is changed before it is passed on", orStr(strings.Join(reversed(path), "."), "a part"))
				}
				if _, ok := x.reach(e.Addr, w); ok {
					r.check("response-intact", name, e.Pos, false, at, "the headers of the response are written to")
				}
			case EvCall:
				m := e.Name[strings.LastIndex(e.Name, ".")+1:]
				all := append([]*Term{e.Recv}, e.Args...)
				if m == "ServeHTTP" || e.Name == "dynamic" && len(e.Args) == 2 && e.Args[0] == w {
					before = false
					continue
				}
				for k, a := range all {
					if a == nil {
						continue
					}
					if path, ok := x.reach(a, req); ok && before && !readsOnly(e.Name, path) {
						r.check("request-intact", name, e.Pos, false, at, "%s may consume or change the request%s before it is passed on", e.Name, dotted(path))
					}
					if path, ok := x.reach(a, w); ok {
						switch {
						case k == 0 && len(path) == 0 && m == "Header":
						case len(path) > 0 && path[len(path)-1] == "Header":
							if strings.HasPrefix(e.Name, "(net/http.Header).") {
								switch m {
								case "Get", "Values", "Clone":
									continue
								case "Del":
									continue // of headers that are not set yet, or sent already
								case "Set", "Add":
									key, _ := e.Args[0].strConst()
									switch strings.ToLower(key) {
									case "content-encoding", "transfer-encoding", "trailer", "connection":
									default:
										continue // the RPC server sets its own
									}
								}
							}
							r.check("response-intact", name, e.Pos, false, at, "%s changes how the response is read", e.Name)
						case e.Name == "net/http.NewResponseController":
						default:
							r.check("response-intact", name, e.Pos, false, at, "%s may write to the response", e.Name)
						}
					}
				}
			}
		}
		r.check("request-intact", name, x.Fn.Pos(), true, o.St, "")
		r.check("response-intact", name, x.Fn.Pos(), true, o.St, "")
	}
}

func dotted(path []string) string {
	if len(path) == 0 {
		return ""
	}
	return "'s " + strings.Join(reversed(path), ".")
}

func reversed(s []string) []string {
	res := make([]string, len(s))
	for i, v := range s {
		res[len(s)-1-i] = v
	}
	return res
}

// unchanging: the RPC server's interceptor and hooks, if there are any, neither
// refuse requests nor change what is answered.
func (A *Analysis) unchanging(r *Rep, x *Root, st *State, svc *Term) (why string) {
	c := deref(x.In, st, svc)
	if v := contField(c, "interceptor"); v != nil && !v.isNil() {
		if why := A.interceptor(r, x, st, v); why != "" {
			return why
		}
	}
	if v := contField(c, "hooks"); v != nil && !v.isNil() {
		h := deref(x.In, st, strip(v))
		s := structOf(typOrNil(h))
		if s == nil {
			return "the RPC server is set up with hooks that are not known"
		}
		for i := 0; i < s.NumFields(); i++ {
			f := mkField(h, i, s.Field(i).Type())
			if f.isNil() {
				continue
			}
			if why := A.hook(r, x, f, s.Field(i).Name()); why != "" {
				return why
			}
		}
	}
	return ""
}

func typOrNil(t *Term) types.Type {
	if t == nil {
		return nil
	}
	return t.Typ
}

// repoFunc: the function of this repository a value is.
func (A *Analysis) repoFunc(t *Term) *ssa.Function {
	t = strip(t)
	if t == nil || t.Op != OFunc && t.Op != OClosure {
		return nil
	}
	f := t.fn()
	if f == nil || len(f.Blocks) == 0 || !A.P.isRepo(f) {
		return nil
	}
	return f
}

// hook: a hook returns no error and a context made from the one it got.
func (A *Analysis) hook(r *Rep, x *Root, t *Term, name string) (why string) {
	f := A.repoFunc(t)
	if f == nil {
		return "the hook " + name + " of the RPC server is not known"
	}
	h := A.run("hook:"+f.RelString(nil), f, A.srvCfg())
	r.use(h)
	if h.Err != "" {
		return h.Err
	}
	res := f.Signature.Results()
	for i := range h.Outs {
		o := &h.Outs[i]
		if o.Kind != KRet {
			return "the hook " + name + " does not return"
		}
		for k := 0; k < res.Len(); k++ {
			v := o.Ret
			if res.Len() > 1 {
				v = o.Ret.Args[k]
			}
			if isErrorType(res.At(k).Type()) {
				if !v.isNil() && !o.St.k.isNil(v) {
					return "the hook " + name + " may refuse requests"
				}
				continue
			}
			if !ctxFrom(v, h.Params) {
				return "the hook " + name + " may return another context"
			}
		}
	}
	return ""
}

// ctxFrom: a context made from one of the parameters that can not end earlier.
func ctxFrom(t *Term, params []*Term) bool {
	for d := 0; d < 10; d++ {
		t = strip(t)
		for _, p := range params {
			if t == p {
				return true
			}
		}
		e, i := resultOf(t)
		if e == nil || i != 0 || len(e.Args) == 0 {
			return false
		}
		switch e.Name {
		case "context.WithValue", "context.WithoutCancel":
		default:
			return false
		}
		t = e.Args[0]
	}
	return false
}

// interceptor: given a method, it returns one that calls it once with the same
// request and returns what it returned.
func (A *Analysis) interceptor(r *Rep, x *Root, st *State, t *Term) (why string) {
	t = strip(t)
	if t.Op == OPure && strings.HasSuffix(t.Name, "twirp.ChainInterceptors") {
		for _, a := range t.Args {
			if why := A.interceptor(r, x, st, a); why != "" {
				return why
			}
		}
		return ""
	}
	f := A.repoFunc(t)
	if f == nil {
		return "the RPC server is set up with an interceptor that is not known"
	}
	mk := A.run("interceptor:"+f.RelString(nil), f, A.srvCfg())
	r.use(mk)
	if mk.Err != "" {
		return mk.Err
	}
	if len(mk.Params) == 0 {
		return "the interceptor is not understood"
	}
	next := mk.Params[len(mk.Params)-1]
	for i := range mk.Outs {
		o := &mk.Outs[i]
		if o.Kind != KRet {
			return "the interceptor does not return"
		}
		m := strip(o.Ret)
		if m == next {
			continue
		}
		g := A.repoFunc(m)
		if g == nil {
			return "the interceptor returns a method that is not known"
		}
		// which of its variables is the method
		k := -1
		for j, b := range m.Args {
			if b == next || b.Op == OAlloc && strip(deref(mk.In, o.St, b)) == next {
				k = j
			}
		}
		if k < 0 {
			return "the interceptor drops the method it is given"
		}
		y := A.run("intercepted:"+g.RelString(nil), g, A.srvCfg())
		r.use(y)
		if y.Err != "" {
			return y.Err
		}
		n := len(y.Params)
		for q := range y.Outs {
			p := &y.Outs[q]
			if p.Kind != KRet {
				return "the interceptor does not return"
			}
			var call *Event
			for _, e := range y.eventsOf(p.St) {
				if e.Kind != EvCall || e.Name != "dynamic" || len(e.Args) != 2 {
					if e.Kind == EvStore {
						if _, ok := y.reach(e.Addr, y.Params[n-1]); ok {
							return "the interceptor changes the request"
						}
						if ev, _ := resultOf(rootOf(e.Addr)); ev != nil && ev == call {
							return "the interceptor changes the response"
						}
					}
					continue
				}
				if fw, ok := y.from(e.Recv, false); !ok || fw.free != k {
					continue
				}
				if call != nil || e.Thread != 0 {
					return "the interceptor calls the method more than once"
				}
				if e.Args[1] != y.Params[n-1] || !ctxFrom(e.Args[0], y.Params[n-2:n-1]) {
					return "the interceptor passes on another request or context"
				}
				call = e
			}
			if call == nil {
				return "the interceptor may not call the method"
			}
			for j, v := range p.Ret.Args {
				if e, i := resultOf(v); e != call || i != j {
					return "the interceptor may return something else than the method"
				}
			}
		}
	}
	return ""
}

// rootOf: what memory is reached from.
func rootOf(t *Term) *Term {
	for d := 0; d < 30 && t != nil; d++ {
		t = strip(t)
		switch {
		case t == nil:
			return nil
		case t.Src != nil:
			t = t.Src
		case t.Op == OField || t.Op == OFieldAddr || t.Op == OIndex || t.Op == OIndexAddr || t.Op == OPure && t.Name == "unwrap":
			if e, _ := resultOf(t); e != nil {
				return t
			}
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

// checkC40: requests and responses are what client and RPC server sent.
func checkC40(A *Analysis, r *Rep) {
	r.rule("passed-on", "the handler given to the HTTP server passes every request for an RPC path on to the RPC server, once and on every path, with the response writer")
	r.rule("request-intact", "no function on the way to the RPC server changes the request or reads its body before passing it on")
	r.rule("response-intact", "no function on the way writes to the response, or sets a header that changes how its body is read")
	r.rule("options-intact", "interceptors and hooks of the RPC server pass requests and responses on as they are")
	for _, x := range r.use(A.mainRoot()) {
		for _, st := range x.ends() {
			for _, e := range st.events() {
				s := serveOf(e)
				if s == nil {
					continue
				}
				at := &State{ev: e, k: e.Snap, mem: st.mem}
				A.wrappers = nil
				svc, why := A.mounted(r, x, st, e, s.handler)
				r.check("passed-on", "main serves", e.Pos, why == "", at, "%s", why)
				for _, wr := range A.wrappers {
					A.intact(r, wr)
				}
				if why == "" {
					why = A.unchanging(r, x, st, svc)
					r.check("options-intact", "main serves", e.Pos, why == "", at, "%s", why)
				}
			}
		}
	}
	r.atLeast("passed-on", 1)
}

func init() {
	checks["C40"] = propCheck{checkC40, how + "The handlers between the HTTP server and the RPC server are followed through wrappers, routers and middleware; each is analysed on its own for every request, as are methods of response writers it substitutes, interceptors and hooks."}
}
