package main

import (
	"fmt"
	"go/token"
	"go/types"
	"net"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- start-up ----

// strip removes interface wrapping.
func strip(t *Term) *Term {
	for t != nil && t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

// confOf: the configuration key a value was read from.
func confOf(t *Term) (string, *Event) {
	t = strip(t)
	if t == nil || t.Op != OSym || t.Org == nil || t.Org.Kind != EvCall {
		return "", nil
	}
	n := t.Org.Name
	if n != "github.com/spf13/viper.GetString" && n != "(*github.com/spf13/viper.Viper).GetString" {
		return "", nil
	}
	if len(t.Org.Args) != 1 {
		return "", nil
	}
	s, _ := t.Org.Args[0].strConst()
	return s, t.Org
}

// resultOf: t is result i of the call returned.
func resultOf(t *Term) (*Event, int) {
	t = strip(t)
	if t == nil {
		return nil, 0
	}
	if t.Op == OField && t.Args[0].Op == OSym && t.Args[0].Org != nil && t.Args[0].Org.Kind == EvCall {
		return t.Args[0].Org, int(t.Off)
	}
	if t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall {
		return t.Org, 0
	}
	return nil, 0
}

func contField(c *Term, name string) *Term {
	if c == nil || c.Typ == nil {
		return nil
	}
	s := structOf(c.Typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(c, i, s.Field(i).Type())
		}
	}
	return nil
}

type opened struct {
	ev     *Event
	mode   string
	target *Term
	err    *Term
	line   string // what is wrong with the settings of the serial line
}

// openOf: the call that opened a connection, and where to.
func openOf(t *Term, k *Facts) *opened {
	e, i := resultOf(t)
	if e == nil || i != 0 {
		return nil
	}
	o := &opened{ev: e, err: e.errTerm()}
	nw, addr := -1, -1
	switch e.Name {
	case "net.Dial", "net.DialTimeout":
		nw, addr = 0, 1
	case "(*net.Dialer).Dial":
		nw, addr = 0, 1
	case "(*net.Dialer).DialContext":
		nw, addr = 1, 2
	case "github.com/tarm/serial.OpenPort":
		if e.Cont != nil && len(e.Cont.Args) == 1 {
			c := e.Cont.Args[0]
			o.target = contField(c, "Name")
			is := func(f string, vs ...int64) {
				v := contField(c, f)
				for _, x := range vs {
					if v != nil && isByteConst(k, v, x) {
						return
					}
				}
				o.line = fmt.Sprintf("the serial line is opened with %s %v", f, v)
			}
			is("Baud", 9600)
			is("Size", 0, 8)
			is("Parity", 0, 'N')
			is("StopBits", 0, 1)
			// a read must not give up before the exchange does
			if v := contField(c, "ReadTimeout"); v != nil && o.line == "" && !isByteConst(k, v, 0) && !k.z.leq(mkInt(second, nil), v, 0) {
				o.line = fmt.Sprintf("reads from the serial line end after %v, before the time-out of an exchange", v)
			}
		}
		o.mode = "serial"
		return o
	default:
		return nil
	}
	if len(e.Args) <= addr {
		return nil
	}
	o.target = e.Args[addr]
	if s, ok := e.Args[nw].strConst(); ok {
		o.mode = s
	} else if t := mkCmpStr(e.Args[nw], "tcp"); knownTrue(k, t) {
		o.mode = "tcp"
	} else {
		o.mode = "?"
	}
	return o
}

func mkCmpStr(t *Term, s string) *Term { return mkCmp(token.EQL, t, mkStr(s)) }

// modeIs: the path established that the configured mode is m.
func modeIs(k *Facts, m string) bool {
	for _, f := range k.f {
		t := f.t
		if !f.v || t.Op != OBin || t.Tok != token.EQL {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := t.Args[1-i].strConst(); ok && s == m {
				if c, _ := confOf(t.Args[i]); c == "mode" {
					return true
				}
			}
		}
	}
	return false
}

// gaveUp: on this path something outside of the program failed, or the
// configured mode is not one of the two.
func gaveUp(st *State) bool {
	for _, e := range st.events() {
		if e.Kind != EvCall || e.Res == nil {
			continue
		}
		if err := e.errTerm(); err != nil && !err.NonNil && st.k.nonNil(err) {
			return true
		}
	}
	not := map[string]bool{}
	for _, f := range st.k.f {
		t := f.t
		if f.v || t.Op != OBin || t.Tok != token.EQL {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := t.Args[1-i].strConst(); ok {
				if c, _ := confOf(t.Args[i]); c == "mode" {
					not[s] = true
				}
			}
		}
	}
	return not["tcp"] && not["serial"] || modeIsOther(st.k)
}

// modeIsOther: the configured mode is known to be something else, or the target
// to be empty.
func modeIsOther(k *Facts) bool {
	for _, f := range k.f {
		t := f.t
		if !f.v || t.Op != OBin || t.Tok != token.EQL {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := t.Args[1-i].strConst(); ok && s != "tcp" && s != "serial" {
				c, _ := confOf(t.Args[i])
				if c == "mode" || c == "target" && s == "" { // which nothing opens
					return true
				}
			}
		}
	}
	return false
}

type serving struct {
	ev      *Event // the serve call
	listen  *Event // where the address is bound
	addr    *Term
	handler *Term
}

func serveOf(e *Event) *serving {
	if !servesHTTP(e) {
		return nil
	}
	s := &serving{ev: e, listen: e}
	fromListener := func(l *Term) {
		if le, i := resultOf(l); le != nil && i == 0 && (le.Name == "net.Listen" || strings.HasSuffix(le.Name, "net.ListenConfig).Listen")) {
			s.listen = le
			s.addr = le.Args[len(le.Args)-1]
		}
	}
	n := e.Name[strings.LastIndex(e.Name, ".")+1:]
	if strings.HasPrefix(e.Name, "(*net/http.Server).") {
		if e.Cont != nil && len(e.Cont.Args) > 0 {
			s.handler = contField(e.Cont.Args[0], "Handler")
			s.addr = contField(e.Cont.Args[0], "Addr")
		}
		if strings.HasPrefix(n, "Serve") && len(e.Args) > 0 {
			s.addr = nil
			fromListener(e.Args[0])
		}
		return s
	}
	switch n {
	case "ListenAndServe":
		s.addr, s.handler = e.Args[0], e.Args[1]
	case "ListenAndServeTLS":
		s.addr, s.handler = e.Args[0], e.Args[3]
	case "Serve", "ServeTLS":
		fromListener(e.Args[0])
		s.handler = e.Args[1]
	default:
		return nil
	}
	return s
}

// deref: the content of memory at the end of a path, or at an event.
func deref(in *Interp, st *State, a *Term) *Term {
	if a == nil {
		return nil
	}
	switch a.Op {
	case OAlloc:
		if c, ok := st.mem[a]; ok {
			return c
		}
		return in.P.initMem[a]
	case OFieldAddr:
		c := deref(in, st, a.Args[0])
		if c == nil {
			return nil
		}
		s := structOf(a.Args[0].elemTyp())
		if s == nil {
			return nil
		}
		return mkField(c, int(a.Off), s.Field(int(a.Off)).Type())
	}
	return nil
}

// wrapped: the handler that h, a handler of this repository, passes all requests
// on to. ok is false where h is no such wrapper.
func (A *Analysis) wrapped(r *Rep, x *Root, st *State, h *Term) (inner *Term, ok bool, why string) {
	var f *ssa.Function
	var base *Term // the receiver
	field := func(c *Term, fi int) *Term {
		c = strip(c)
		if c == nil || typOf(c) == nil {
			return nil
		}
		if _, isPtr := typOf(c).Underlying().(*types.Pointer); isPtr {
			c = deref(x.In, st, c)
		}
		if c == nil || structOf(c.Typ) == nil {
			return nil
		}
		return mkField(c, fi, structOf(c.Typ).Field(fi).Type())
	}
	if h.Op == OClosure || h.Op == OFunc {
		f = h.fn()
		if f.Name() == "ServeHTTP$bound" && len(h.Args) == 1 { // a method value
			return h.Args[0], true, ""
		}
	} else if t := typOf(h); t != nil {
		if sel := A.P.prog.MethodSets.MethodSet(t).Lookup(nil, "ServeHTTP"); sel != nil {
			if at := sel.Index(); len(at) > 1 { // the method of an embedded handler
				cur := h
				for _, fi := range at[:len(at)-1] {
					if cur = field(cur, fi); cur == nil {
						return nil, true, "the handler in " + h.String() + " is not known"
					}
				}
				switch cur.Typ.Underlying().(type) {
				case *types.Pointer, *types.Interface:
					return cur, true, ""
				}
				return nil, false, ""
			}
			f, base = A.P.prog.MethodValue(sel), h
		}
	}
	if f == nil || len(f.Blocks) == 0 || !A.P.isRepo(f) {
		return nil, false, ""
	}
	fw, why := A.forwards(r, f, base != nil)
	if why != "" {
		return nil, true, why
	}
	load := func(p *Term) *Term {
		if c := deref(x.In, st, p); c != nil {
			return c
		}
		return p
	}
	cur := base
	if base == nil {
		cur = h.Args[fw.free]
		if cur.Op == OAlloc {
			if _, isIface := cur.elemTyp().Underlying().(*types.Interface); isIface {
				cur = load(cur)
			}
		}
	}
	for _, fi := range fw.fields {
		if cur = field(cur, fi); cur == nil {
			return nil, true, "the handler in " + h.String() + " is not known"
		}
	}
	return cur, true, ""
}

// service follows an http.Handler through wrappers to the RPC server it
// serves; why tells what is in the way.
func (A *Analysis) service(r *Rep, x *Root, st *State, h *Term) (svc *Term, why string) {
	for d := 0; d < 10; d++ {
		h = strip(h)
		if h == nil {
			return nil, "no handler"
		}
		if p, ok := typOf(h).(*types.Pointer); ok && isNamed(p.Elem(), A.P.Rpc, "comfoServer") {
			return h, ""
		}
		in, ok, why := A.wrapped(r, x, st, h)
		if !ok {
			return nil, "handler " + h.String() + " is not the RPC server"
		}
		if why != "" {
			return nil, why
		}
		h = in
	}
	return nil, "too many wrappers"
}

func typOf(t *Term) types.Type {
	switch t.Op {
	case OFieldAddr, OIndexAddr, OAlloc, OGlobal:
		return types.NewPointer(t.Typ)
	}
	return t.Typ
}

// forward is where a handler function has the handler it passes requests on
// to: in a free variable or its receiver, or a field below that.
type forward struct {
	free   int
	fields []int
}

func (f forward) equal(g forward) bool { return f.free == g.free && slices.Equal(f.fields, g.fields) }

// forwards: every path of a handler function passes the request and the
// response writer on, once, to the same handler.
func (A *Analysis) forwards(r *Rep, f *ssa.Function, method bool) (fw forward, why string) {
	x := A.run("wrap:"+f.RelString(nil), f, A.srvCfg())
	r.use(x)
	if x.Err != "" {
		return fw, x.Err
	}
	n := len(x.Params)
	if n < 2 || method && n < 3 {
		return fw, f.Name() + " is not a handler function"
	}
	w, req := x.Params[n-2], x.Params[n-1]
	seen := false
	for i := range x.Outs {
		o := &x.Outs[i]
		if o.Kind == KPanic {
			continue // judged by C06
		}
		if o.Kind != KRet {
			return fw, f.Name() + " does not return"
		}
		calls := 0
		for _, e := range o.St.events() {
			if e.Kind != EvCall || !strings.HasSuffix(e.Name, ".ServeHTTP") && !(e.Name == "dynamic" && len(e.Args) == 2 && e.Args[0] == w) {
				continue
			}
			if e.Thread != 0 {
				return fw, f.Name() + " answers in another goroutine"
			}
			calls++
			if len(e.Args) != 2 || !sameRequest(e.Args[1], req) {
				return fw, f.Name() + " passes on another request"
			}
			if why := A.sameWriter(r, x, o.St, e.Args[0], w); why != "" {
				return fw, f.Name() + " " + why
			}
			to, ok := x.from(e.Recv, method)
			if !ok {
				return fw, f.Name() + " passes the request to " + e.Recv.String()
			}
			if seen && !to.equal(fw) {
				return fw, f.Name() + " passes the request to different handlers"
			}
			fw, seen = to, true
		}
		for _, l := range x.Iters {
			for _, is := range l.Iters {
				for _, e := range eventsUpTo(is.ev, l.Start) {
					if e.Kind == EvCall && strings.HasSuffix(e.Name, ".ServeHTTP") {
						return fw, f.Name() + " passes the request on in a loop"
					}
				}
			}
		}
		if calls != 1 {
			return fw, f.Name() + " has a path that passes the request on " + itoa(int64(calls)) + " times"
		}
	}
	if !seen {
		return fw, f.Name() + " never passes the request on"
	}
	if !slices.Contains(A.wrappers, x) {
		A.wrappers = append(A.wrappers, x)
	}
	return fw, ""
}

// from: where a value comes from.
func (x *Root) from(t *Term, method bool) (forward, bool) {
	var at forward
	for d := 0; d < 20 && t != nil; d++ {
		t = strip(t)
		if t == nil {
			break
		}
		if method && t == x.Params[0] {
			slices.Reverse(at.fields)
			return at, true
		}
		for j := range x.Fn.FreeVars {
			b := T.mk(Term{Op: OSym, Typ: x.Fn.FreeVars[j].Type(), Name: x.Fn.FreeVars[j].Name(), NonNil: true}, "freevar|"+x.Name+"|"+itoa(int64(j)))
			if t == b || t.Src == b {
				slices.Reverse(at.fields)
				at.free = j
				return at, !method
			}
		}
		if t.Src != nil {
			t = t.Src
			continue
		}
		if t.Op != OField && t.Op != OFieldAddr {
			break
		}
		at.fields = append(at.fields, int(t.Off))
		t = t.Args[0]
	}
	return at, false
}

// sameWriter: what is written to arg is written to w.
func (A *Analysis) sameWriter(r *Rep, x *Root, st *State, arg, w *Term) (why string) {
	arg = strip(arg)
	if arg == w {
		return ""
	}
	bad := "passes on another response writer"
	if arg == nil || arg.Op != OAlloc || structOf(arg.elemTyp()) == nil {
		return bad
	}
	c := deref(x.In, st, arg)
	if c == nil {
		return bad
	}
	set := A.P.prog.MethodSets.MethodSet(types.NewPointer(arg.elemTyp()))
	for _, m := range []string{"Header", "Write", "WriteHeader"} {
		sel := set.Lookup(nil, m)
		if sel == nil {
			return bad
		}
		at := sel.Index()
		if len(at) == 1 {
			f := A.P.prog.MethodValue(sel)
			if f == nil || len(f.Blocks) == 0 || !A.P.isRepo(f) {
				return bad
			}
			at, why = A.delegates(r, f, m)
			if why != "" {
				return why
			}
		} else {
			at = at[:len(at)-1]
		}
		cur := c
		for k, fi := range at {
			if k > 0 {
				cur = strip(cur)
				if _, isPtr := typOf(cur).Underlying().(*types.Pointer); isPtr {
					cur = deref(x.In, st, cur)
				}
			}
			if cur == nil || structOf(cur.Typ) == nil {
				return bad
			}
			cur = mkField(cur, fi, structOf(cur.Typ).Field(fi).Type())
		}
		if strip(cur) != w {
			return bad
		}
	}
	return ""
}

// delegates: a method of a response writer only passes the call on to the one
// in the returned field.
func (A *Analysis) delegates(r *Rep, f *ssa.Function, m string) (at []int, why string) {
	x := A.run("writer:"+f.RelString(nil), f, A.srvCfg())
	r.use(x)
	if x.Err != "" {
		return nil, x.Err
	}
	name := f.RelString(A.P.Main.Pkg)
	for i := range x.Outs {
		o := &x.Outs[i]
		if o.Kind != KRet {
			return nil, name + " does not return"
		}
		var call *Event
		for _, e := range o.St.events() {
			if e.Kind != EvCall || !strings.HasSuffix(e.Name, "."+m) {
				continue
			}
			if call != nil || e.Thread != 0 || len(e.Args) != len(x.Params)-1 {
				return nil, name + " does not pass the call on as it is"
			}
			for k, a := range e.Args {
				if a != x.Params[k+1] {
					return nil, name + " passes on something else"
				}
			}
			call = e
		}
		if call == nil {
			return nil, name + " has a path that does not pass the call on"
		}
		fw, ok := x.from(call.Recv, true)
		if !ok || len(fw.fields) == 0 || at != nil && !slices.Equal(at, fw.fields) {
			return nil, name + " passes the call to " + call.Recv.String()
		}
		at = fw.fields
		var rets []*Term
		if n := f.Signature.Results().Len(); n == 1 {
			rets = []*Term{o.Ret}
		} else if n > 1 {
			rets = o.Ret.Args
		}
		for k, t := range rets {
			if e, j := resultOf(t); t != call.Res && (e != call || j != k) {
				return nil, name + " returns something else"
			}
		}
	}
	if at == nil {
		return nil, name + " never passes the call on"
	}
	return at, ""
}

func sameRequest(t, req *Term) bool {
	for d := 0; d < 4; d++ {
		if t == req {
			return true
		}
		e, i := resultOf(t)
		if e == nil || i != 0 {
			return false
		}
		switch e.Name {
		case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
			t = e.Recv
		default:
			return false
		}
	}
	return false
}

// muxBase: the router or route a fluent gorilla/mux call chain works on.
func muxBase(t *Term) *Term {
	for d := 0; d < 20; d++ {
		t = strip(t)
		e, i := resultOf(t)
		if e == nil || i != 0 || !strings.HasPrefix(e.Name, "(*github.com/gorilla/mux.Route") || e.Recv == nil {
			return t
		}
		n := e.Name[strings.LastIndex(e.Name, ".")+1:]
		if strings.Contains(e.Name, "mux.Router)") && n != "StrictSlash" && n != "SkipClean" && n != "UseEncodedPath" {
			return t // a new route
		}
		if n == "Subrouter" {
			return t
		}
		t = e.Recv
	}
	return t
}

type route struct {
	first   *Event
	router  *Term
	base    *Term
	prefix  string // what it matches, by prefix or exactly
	exact   bool
	any     bool // no path condition: matches everything
	limits  []string
	handler *Term
	hev     *Event
	sub     *Term // the router of what it matches
}

// muxRoutes lists the routes of a router in the order of registration, and the
// calls adding middleware to it.
func muxRoutes(evs []*Event, router *Term) (rs []*route, uses []*Event, why string) {
	by := map[*Term]*route{}
	for _, e := range evs {
		if e.Kind != EvCall || !strings.HasPrefix(e.Name, "(*github.com/gorilla/mux.Route") || e.Recv == nil {
			continue
		}
		n := e.Name[strings.LastIndex(e.Name, ".")+1:]
		var rt *route
		if strings.Contains(e.Name, "mux.Router)") {
			if muxBase(e.Recv) != router {
				continue
			}
			switch n {
			case "StrictSlash", "SkipClean", "UseEncodedPath":
				continue
			case "Walk":
				continue
			case "Use":
				uses = append(uses, e)
				continue
			case "MatcherFunc", "BuildOnly", "BuildVarsFunc", "Schemes", "Host", "Headers", "Queries":
				return nil, nil, "router option " + n + " is not understood"
			}
			rt = &route{first: e, router: router, any: true}
			if e.Res != nil {
				rt.base = e.Res
				by[e.Res] = rt
			}
			rs = append(rs, rt)
		} else {
			rt = by[muxBase(e.Recv)]
			if rt == nil {
				continue
			}
		}
		str := func(i int) string {
			if i < len(e.Args) {
				if s, ok := e.Args[i].strConst(); ok {
					return s
				}
			}
			return "?"
		}
		switch n {
		case "PathPrefix", "Path", "Handle", "HandleFunc":
			if !rt.any {
				return nil, nil, "a route has several path conditions"
			}
		}
		switch n {
		case "NewRoute", "Name":
		case "GetRoute", "Get":
			if strings.Contains(e.Name, "mux.Router)") {
				return nil, nil, "a route is looked up by name, which may not exist"
			}
		case "PathPrefix":
			rt.prefix, rt.any = str(0), false
		case "Path":
			rt.prefix, rt.exact, rt.any = str(0), true, false
		case "Handle", "HandleFunc":
			rt.prefix, rt.exact, rt.any = str(0), true, false
			rt.handler, rt.hev = e.Args[1], e
		case "Handler", "HandlerFunc":
			rt.handler, rt.hev = e.Args[0], e
		case "Subrouter":
			rt.sub = e.Res
		default:
			rt.limits = append(rt.limits, n)
		}
	}
	return rs, uses, ""
}

// routed: the handler a router hands requests for the RPC paths to.
func (A *Analysis) routed(r *Rep, x *Root, st *State, evs []*Event, router *Term, above string) (svc *Term, why string) {
	rs, uses, why := muxRoutes(evs, router)
	if why != "" {
		return nil, why
	}
	for _, rt := range rs {
		prefix := strings.TrimRight(above, "/") + rt.prefix
		match := rt.any || !rt.exact && strings.HasPrefix(rpcPath, prefix)
		if !match {
			// would it take some of the paths?
			if strings.HasPrefix(prefix, rpcPath) || rt.prefix == "?" || strings.Contains(prefix, "{") {
				return nil, "a route for " + prefix + " comes first"
			}
			continue
		}
		for _, l := range rt.limits {
			if l == "Methods" && methodsAllowPost(evs, rt) {
				continue
			}
			return nil, "the RPC route is restricted by " + l
		}
		switch {
		case rt.sub != nil:
			if rt.any {
				prefix = above
			}
			svc, why := A.routed(r, x, st, evs, strip(rt.sub), prefix)
			if svc == nil && why == "" {
				continue // the next route gets it
			}
			if why != "" {
				return nil, why
			}
			rt.handler = svc
		case rt.handler == nil:
			return nil, "a route without handler matches the RPC path"
		}
		for _, u := range uses {
			if why := A.transparent(r, u); why != "" {
				return nil, why
			}
		}
		return A.service(r, x, st, rt.handler)
	}
	return nil, ""
}

// transparent: middleware that passes every request on.
func (A *Analysis) transparent(r *Rep, use *Event) (why string) {
	var fs []*Term
	if use.Cont != nil {
		for _, c := range use.Cont.Args {
			c.walk(func(t *Term) bool {
				if t.Op == OFunc || t.Op == OClosure {
					fs = append(fs, t)
					return false
				}
				return true
			})
		}
	}
	if len(fs) == 0 {
		return "the middleware is not known"
	}
	for _, t := range fs {
		f := t.fn()
		if f == nil || len(f.Blocks) == 0 || !A.P.isRepo(f) {
			return "middleware " + t.String() + " is not known"
		}
		x := A.run("mw:"+f.RelString(nil), f, A.srvCfg())
		r.use(x)
		if x.Err != "" {
			return x.Err
		}
		for i := range x.Outs {
			o := &x.Outs[i]
			if o.Kind != KRet || o.Ret == nil || len(x.Params) == 0 {
				return "middleware " + f.Name() + " does not return a handler"
			}
			h := strip(o.Ret)
			for d := 0; h != x.Params[len(x.Params)-1]; d++ {
				if h == nil || d == 10 {
					return "middleware " + f.Name() + " drops the handler it is given"
				}
				in, ok, why := A.wrapped(r, x, o.St, h)
				if !ok {
					return "middleware " + f.Name() + " returns " + h.String()
				}
				if why != "" {
					return why
				}
				h = strip(in)
			}
		}
	}
	return ""
}

// methodsAllowPost: a Methods(...) condition that lets POST pass.
func methodsAllowPost(evs []*Event, rt *route) bool {
	for _, e := range evs {
		if e.Kind == EvCall && strings.HasSuffix(e.Name, ".Methods") && e.Recv != nil && (muxBase(e.Recv) == rt.base || e == rt.first) {
			ok := false
			if e.Cont != nil {
				for _, c := range e.Cont.Args {
					c.walk(func(t *Term) bool {
						if s, is := t.strConst(); is && s == "POST" {
							ok = true
						}
						return !ok
					})
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

const rpcPath = "/twirp/comfo.api.Comfo/"

// mounted: requests below the RPC path prefix reach the RPC server. Returns
// the server.
func (A *Analysis) mounted(r *Rep, x *Root, st *State, upTo *Event, h *Term) (svc *Term, why string) {
	evs := eventsUpTo(upTo, nil)
	h = strip(h)
	if h == nil {
		return nil, "the handler of the HTTP server is not known"
	}
	if h.isNil() {
		return A.serveMux(r, x, st, evs, nil)
	}
	if p, ok := typOf(h).(*types.Pointer); ok {
		switch p.Elem().String() {
		case "net/http.ServeMux":
			return A.serveMux(r, x, st, evs, h)
		case "github.com/gorilla/mux.Router":
			svc, why := A.routed(r, x, st, evs, muxBase(h), "")
			if svc != nil || why != "" {
				return svc, why
			}
			return nil, "no route for " + rpcPath
		}
	}
	if p, ok := typOf(h).(*types.Pointer); !ok || !isNamed(p.Elem(), A.P.Rpc, "comfoServer") {
		if in, ok, why := A.wrapped(r, x, st, h); ok && why == "" {
			return A.mounted(r, x, st, upTo, in)
		}
	}
	return A.service(r, x, st, h)
}

func (A *Analysis) serveMux(r *Rep, x *Root, st *State, evs []*Event, mux *Term) (*Term, string) {
	best := -1
	var h *Term
	for _, e := range evs {
		if e.Kind != EvCall {
			continue
		}
		switch e.Name {
		case "net/http.Handle", "net/http.HandleFunc":
			if mux != nil {
				continue
			}
		case "(*net/http.ServeMux).Handle", "(*net/http.ServeMux).HandleFunc":
			if mux == nil || strip(e.Recv) != mux {
				continue
			}
		default:
			continue
		}
		p, ok := e.Args[0].strConst()
		if !ok {
			return nil, "a pattern is not constant"
		}
		p = strings.TrimPrefix(p, "POST ")
		if p == rpcPath || strings.HasSuffix(p, "/") && strings.HasPrefix(rpcPath, p) {
			if len(p) > best {
				best, h = len(p), e.Args[1]
			}
		} else if strings.HasPrefix(p, rpcPath) || strings.ContainsAny(p, "{ ") {
			return nil, "pattern " + p + " takes RPC requests"
		}
	}
	if h == nil {
		return nil, "no pattern for " + rpcPath
	}
	return A.service(r, x, st, h)
}

// implementsAPI: what the RPC server calls is the type whose methods were
// analysed as handlers.
func (A *Analysis) implementsAPI(x *Root, st *State, svc *Term) string {
	c := deref(x.In, st, svc)
	if c == nil {
		return "the RPC server's content is not known"
	}
	if p, ok := contField(c, "pathPrefix").strConst(); !ok || p+"/comfo.api.Comfo/" != rpcPath {
		return "the RPC server may be set up for another path prefix than /twirp"
	}
	impl := contField(c, "Comfo")
	if impl == nil {
		return "no service in the RPC server"
	}
	if impl.Op != OIface {
		return "the service behind the RPC server is not known: " + impl.String()
	}
	for _, f := range A.handlers() {
		rt := f.Signature.Recv()
		if rt == nil || !types.Identical(rt.Type(), impl.Typ) {
			return "the RPC server serves a " + shortType(impl.Typ) + ", the handlers are methods of " + shortType(rt.Type())
		}
	}
	return ""
}

func checkC24(A *Analysis, r *Rep) {
	P := A.P
	r.rule("right-connection", "when the server starts to listen, the connection in use was opened, with its error known to be nil, in the configured mode and to the configured target")
	r.rule("no-serving-without", "main only ever returns, or exits with status 0, after serving")
	r.rule("serves-when-possible", "main ends without having served only after opening the connection or binding the address failed, or when the configured mode is neither tcp nor serial")
	r.rule("populated-over-it", "all queries of the service use that connection, and nothing replaces or closes it while the service runs")
	r.rule("ready-before-listening", "each kind of data is queried and the worker is started before the address is bound")
	r.rule("listen-address", "the server listens on the configured address")
	r.rule("rpc-reachable", "the handler given to the HTTP server hands requests for the RPC paths to the RPC server, and that to the handlers analysed")
	r.rule("configured", "the mode, target and listen settings are declared as flags, parsed and bound before they are read")
	ks := A.cacheKinds(r)
	mr := r.use(A.mainRoot())
	if len(mr) == 0 {
		return
	}
	x := mr[0]
	var initEv []*Event
	if s := P.initEnd[P.Main.Pkg.Path()]; s != nil {
		initEv = s.events()
	}
	// variables that hold the connection
	conns := map[*Term]bool{}
	x.eachEvent(func(e *Event) {
		if e.Kind == EvStore && e.Val != nil && isConnType(e.Addr.elemTyp()) {
			conns[e.Addr] = true
		}
	})
	fromConn := func(t *Term, c *Term) bool {
		s := strip(t)
		if s == nil {
			return false
		}
		if c != nil && s == strip(c) {
			return true
		}
		return s.Src != nil && conns[s.Src] || s.Op == OField && viaConn(s, conns)
	}
	isWorker := map[*ssa.Function]bool{}
	for _, f := range A.workerFns() {
		isWorker[f] = true
	}
	served := 0
	for _, st := range x.ends() {
		evs := st.events()
		for i, e := range evs {
			s := serveOf(e)
			if s == nil {
				continue
			}
			served++
			at := &State{ev: e, k: e.Snap, mem: st.mem}
			// the connection
			var store *Event
			for _, p := range evs[:i] {
				if p.Kind == EvStore && conns[p.Addr] {
					store = p
				}
			}
			var conn *Term
			msg := "no connection has been opened"
			if store != nil {
				conn = strip(store.Val)
				o := openOf(store.Val, e.Snap)
				switch {
				case o == nil:
					msg = "the connection in use is not one that was opened: " + store.Val.String()
				case o.err == nil || !knownNil(e.Snap, o.err):
					msg = "the connection may not have been opened"
				case o.mode != "tcp" && o.mode != "serial":
					msg = "the connection is opened over " + o.mode
				case o.line != "":
					msg = o.line
				case !modeIs(e.Snap, o.mode):
					msg = "a " + o.mode + " connection is used although the configured mode is not known to be " + o.mode
				default:
					msg = ""
					if c, _ := confOf(o.target); c != "target" {
						msg = "the connection is not opened to the configured target"
					}
				}
			}
			r.check("right-connection", "main serves", e.Pos, msg == "", at, "%s", msg)
			// closed again, or never used
			for _, p := range evs[:i] {
				if p.Kind == EvCall && strings.HasSuffix(p.Name, ".Close") && p.Recv != nil && conn != nil && fromConn(p.Recv, conn) {
					r.check("populated-over-it", "closed in "+fnOf(p), p.Pos, false, at, "the connection is closed before the server starts")
				}
			}
			before := func(p *Event) bool {
				for q := s.listen.Prev; q != nil; q = q.Prev {
					if q == p {
						return true
					}
				}
				return false
			}
			for _, c := range ks {
				var g *Event
				for _, p := range evs[:i] {
					if c.isGet(p) && before(p) {
						g = p
					}
				}
				r.check("ready-before-listening", c.name(), e.Pos, g != nil, at, "%s is not queried before the address is bound", c.name())
				if g != nil && store != nil {
					r.check("populated-over-it", c.name(), g.Pos, g.N > store.N && fromConn(g.Args[0], conn), at, "%s is not populated over the connection opened", c.name())
				}
			}
			n := 0
			for _, p := range evs[:i] {
				if p.Kind == EvGo && isWorker[p.Callee] && before(p) {
					n++
				}
			}
			r.check("ready-before-listening", "worker", e.Pos, n > 0, at, "the worker is not started before the address is bound")
			key, rd := confOf(s.addr)
			r.check("listen-address", "main serves", e.Pos, key == "listen", at, "the server does not listen on the configured address")
			svc, why := A.mounted(r, x, st, e, s.handler)
			if why == "" {
				why = A.implementsAPI(x, st, svc)
			}
			r.check("rpc-reachable", "main serves", e.Pos, why == "", at, "%s", why)
			// the settings
			all := append(append([]*Event{}, initEv...), evs[:i]...)
			settings := map[string]*Event{"listen": rd}
			for _, p := range evs[:i] {
				if p.Res != nil {
					if k, re := confOf(p.Res); k != "" && re == p && settings[k] == nil {
						settings[k] = p
					}
				}
			}
			for _, k := range []string{"mode", "target", "listen"} {
				if settings[k] == nil {
					continue
				}
				why := configured(all, k, settings[k])
				r.check("configured", k, settings[k].Pos, why == "", at, "%s", why)
			}
		}
	}
	for i := range x.Outs {
		o := &x.Outs[i]
		var sv *Event
		for e := o.St.ev; e != nil && sv == nil; e = e.Prev {
			if serveOf(e) != nil {
				sv = e
			}
		}
		clean := sv != nil && servedOut(o.St.k, sv)
		if sv == nil && (o.Kind == KRet || o.Kind == KExit) {
			r.check("serves-when-possible", "start-up ends", x.Fn.Pos(), gaveUp(o.St), o.St, "main ends without serving although nothing failed")
		}
		switch o.Kind {
		case KRet:
			r.check("no-serving-without", "return", x.Fn.Pos(), clean, o.St, "main returns, with status 0, although it does not serve")
		case KExit:
			e := o.St.ev
			for e != nil && e.Kind != EvExit {
				e = e.Prev
			}
			nz := false
			if e != nil {
				if strings.HasPrefix(e.Name, "log.Fatal") {
					nz = true
				} else if len(e.Args) == 1 {
					if v, ok := e.Args[0].intConst(); ok && v != 0 {
						nz = true
					} else if !ok && (o.St.k.z.leq(mkInt(1, nil), e.Args[0], 0) || o.St.k.z.leq(e.Args[0], mkInt(-1, nil), 0)) {
						nz = true
					}
				}
			}
			pos := x.Fn.Pos()
			if e != nil {
				pos = e.Pos
			}
			r.check("no-serving-without", "exit", pos, nz || clean, o.St, "main exits with status 0 although it failed to serve")
		case KBlocked:
			r.check("no-serving-without", "blocked", x.Fn.Pos(), false, o.St, "main waits for ever: %s", o.Why)
		}
	}
	// while the service runs
	for _, y := range A.srvRoots() {
		isMain := y == x
		y.eachEvent(func(e *Event) {
			at := &State{ev: e, k: e.Snap}
			if e.Kind == EvCall && e.Callee != nil && A.P.libBoundary(e.Callee) {
				for _, a := range append([]*Term{e.Recv}, e.Args...) {
					if a == nil || a.Typ == nil || !isConnType(a.Typ) && a.Op != OIface {
						continue
					}
					if !isConnType(paramTypeOf(e, a)) {
						continue
					}
					var c *Term
					if isMain {
						for p := e.Prev; p != nil && c == nil; p = p.Prev {
							if p.Kind == EvStore && conns[p.Addr] {
								c = p.Val
							}
						}
					}
					r.check("populated-over-it", "connection used in "+fnOf(e), e.Pos, fromConn(a, c) || A.passedConn(y, x, a, conns), at, "a query uses another connection: %s", a)
				}
			}
			if isMain {
				return
			}
			if e.Kind == EvStore && conns[e.Addr] {
				r.check("populated-over-it", "replaced in "+fnOf(e), e.Pos, false, at, "the connection is replaced while the service runs")
			}
			if e.Kind == EvCall && strings.HasSuffix(e.Name, ".Close") && e.Recv != nil && fromConn(e.Recv, nil) {
				r.check("populated-over-it", "closed in "+fnOf(e), e.Pos, false, at, "the connection is closed while the service runs")
			}
		})
	}
	A.connKept(r)
	if served == 0 {
		r.check("right-connection", "main serves", x.Fn.Pos(), false, nil, "main never serves")
	}
	r.atLeast("right-connection", 1)
	r.atLeast("no-serving-without", 1)
	r.atLeast("serves-when-possible", 1)
	r.atLeast("populated-over-it", 6)
	r.atLeast("ready-before-listening", 7)
	r.atLeast("listen-address", 1)
	r.atLeast("rpc-reachable", 1)
	r.atLeast("configured", 3)
}

func isDefer(in ssa.Instruction) bool {
	_, ok := in.(*ssa.Defer)
	return ok
}

// connKept: nothing outside the paths of main and of the handlers (timers,
// goroutines, callbacks) closes the connection, and nothing gives it a
// deadline that cuts it off, while the service runs.
func (A *Analysis) connKept(r *Rep) {
	P := A.P
	seen := map[token.Pos]bool{}
	for _, x := range A.srvRoots() {
		x.eachEvent(func(e *Event) {
			if e.Kind == EvCall {
				seen[e.Pos] = true
			}
		})
	}
	for _, f := range P.all {
		if f.Pkg != P.Main && f.Pkg != P.Srv {
			continue
		}
		ends := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.UnOp:
					if y.Op == token.ARROW && strings.HasSuffix(y.X.Type().String(), "os.Signal") {
						ends = true
					}
				case ssa.CallInstruction:
					if g := y.Common().StaticCallee(); g != nil && (g.String() == "os.Exit" || strings.HasPrefix(g.String(), "(*net/http.Server).")) {
						ends = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name, recv := "", ssa.Value(nil)
				if m := c.Common(); m.IsInvoke() {
					name, recv = m.Method.Name(), m.Value
				} else if g := m.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(m.Args) > 0 {
					name, recv = g.Name(), m.Args[0]
				}
				if recv == nil || !isConnType(recv.Type()) || recv.Type().String() == "*os.File" {
					continue
				}
				switch {
				case name == "Close" && !seen[c.Pos()] && !ends && !isDefer(in):
					r.check("populated-over-it", "closed in "+f.Name(), c.Pos(), false, nil, "the connection may be closed while the service runs")
				case strings.HasPrefix(name, "Set") && strings.HasSuffix(name, "Deadline"):
					z := false
					if k, ok := c.Common().Args[len(c.Common().Args)-1].(*ssa.Const); ok && k.Value == nil {
						z = true
					}
					r.check("populated-over-it", name+" in "+f.Name(), c.Pos(), z, nil, "the connection is given a deadline that ends it while the service runs")
				}
			}
		}
	}
}

func viaConn(t *Term, conns map[*Term]bool) bool {
	b := t
	for b.Op == OField {
		b = b.Args[0]
	}
	if b.Src == nil {
		return false
	}
	for a := range conns {
		if a.root() == b.Src.root() {
			return true
		}
	}
	return false
}

func paramTypeOf(e *Event, a *Term) types.Type {
	sig := e.Callee.Signature
	for i, x := range e.Args {
		if x == a && i < sig.Params().Len() {
			return sig.Params().At(i).Type()
		}
	}
	return types.Typ[types.Int]
}

// passedConn: a parameter of the worker that main fills with the connection.
func (A *Analysis) passedConn(y, main *Root, a *Term, conns map[*Term]bool) bool {
	a = strip(a)
	pi := -1
	for i, p := range y.Params {
		if p == a {
			pi = i
		}
	}
	if pi < 0 || y == main {
		return false
	}
	ok, any := true, false
	main.eachEvent(func(e *Event) {
		if e.Kind != EvGo || e.Callee != y.Fn {
			return
		}
		any = true
		if pi >= len(e.Args) {
			ok = false
			return
		}
		var c *Term
		for p := e.Prev; p != nil && c == nil; p = p.Prev {
			if p.Kind == EvStore && conns[p.Addr] {
				c = strip(p.Val)
			}
		}
		s := strip(e.Args[pi])
		ok = ok && (s == c || s.Src != nil && conns[s.Src])
	})
	return ok && any
}

// servedOut: serving ended without an error (http.Server never does) or
// because it was shut down.
func servedOut(k *Facts, sv *Event) bool {
	err := sv.errTerm()
	if err == nil {
		return false
	}
	if knownNil(k, err) {
		return true
	}
	for _, f := range k.f {
		if !f.v {
			continue
		}
		closed := f.t.contains(func(t *Term) bool {
			return t.Op == OGlobal && strings.Contains(t.String(), "ErrServerClosed") || strings.Contains(t.Name, "ErrServerClosed")
		})
		if closed && f.t.contains(func(t *Term) bool { return t == err }) {
			return true
		}
	}
	return false
}

// configured: flag declared, parsed and bound before the setting is read.
func configured(evs []*Event, key string, read *Event) string {
	stage := 0
	for _, e := range evs {
		if e == read {
			break
		}
		if e.Kind != EvCall {
			continue
		}
		n := e.Name[strings.LastIndex(e.Name, ".")+1:]
		switch {
		case strings.Contains(e.Name, "spf13/pflag") && (strings.HasPrefix(n, "String")):
			for _, a := range e.Args {
				if s, ok := a.strConst(); ok && s == key {
					stage |= 1
				}
				break
			}
			if strings.HasPrefix(n, "StringVar") && len(e.Args) > 1 {
				if s, ok := e.Args[1].strConst(); ok && s == key {
					stage |= 1
				}
			}
		case strings.Contains(e.Name, "spf13/pflag") && n == "Parse":
			if stage&1 != 0 {
				stage |= 2
			}
		case strings.Contains(e.Name, "spf13/viper") && n == "BindPFlags":
			if stage&1 != 0 {
				stage |= 4
			}
		case strings.Contains(e.Name, "spf13/viper") && n == "BindPFlag":
			if s, ok := e.Args[0].strConst(); ok && s == key && stage&1 != 0 {
				stage |= 4
			}
		case strings.Contains(e.Name, "spf13/viper") && (n == "Set" || n == "Reset"):
			if n == "Reset" {
				stage = 0
			} else if s, ok := e.Args[0].strConst(); ok && s == key {
				return "the setting " + key + " is overwritten"
			}
		}
	}
	switch {
	case stage&1 == 0:
		return "no string flag sets " + key
	case stage&4 == 0:
		return "the flag " + key + " is not bound to the setting before it is read"
	case stage&2 == 0:
		return "the flag " + key + " is not parsed before the setting is read"
	}
	return ""
}

// ---- where the settings come from ----

var documented = map[string]string{"mode": "serial", "target": "/dev/ttyUSB0"}

func checkC38(A *Analysis, r *Rep) {
	r.rule("flag", "mode, target and listen are read through viper from a string flag of that name that is parsed and bound before, and are not overwritten")
	r.rule("environment", "before a setting is read, viper has been told to look at the environment, with the prefix COMFO")
	r.rule("debug", "where the level of the log handler is a constant, debug records are logged exactly on paths on which the setting debug is true, which comes from a flag of that name, off by default, or the environment")
	r.rule("default", "the flags' defaults are mode serial and target /dev/ttyUSB0, and to listen on port 3094 of all addresses")
	mr := r.use(A.mainRoot())
	if len(mr) == 0 {
		return
	}
	x := mr[0]
	var initEv []*Event
	if s := A.P.initEnd[A.P.Main.Pkg.Path()]; s != nil {
		initEv = s.events()
	}
	for _, st := range x.ends() {
		evs := append(append([]*Event{}, initEv...), st.events()...)
		for i, e := range evs {
			if e.Kind != EvCall || e.Res == nil {
				continue
			}
			key, rd := confOf(e.Res)
			if rd != e {
				continue
			}
			if key != "mode" && key != "target" && key != "listen" {
				r.check("flag", "setting "+key, e.Pos, false, &State{ev: e, k: e.Snap}, "the program reads a setting %q that is not one of its settings", key)
				continue
			}
			at := &State{ev: e, k: e.Snap}
			why := configured(evs, key, e)
			r.check("flag", key, e.Pos, why == "", at, "%s", why)
			why = fromEnv(evs[:i], key)
			r.check("environment", key, e.Pos, why == "", at, "%s", why)
			d := flagDefault(evs[:i], key)
			ds, ok := d.strConst()
			switch {
			case d == nil || !ok:
				r.check("default", key, e.Pos, false, at, "the default of %s is not a constant", key)
			case key == "listen":
				h, p, err := net.SplitHostPort(ds)
				all := h == "" || h == "::" || h == "0.0.0.0"
				r.check("default", key, e.Pos, err == nil && p == "3094" && all, at, "the default of %s is %q", key, ds)
			default:
				r.check("default", key, e.Pos, ds == documented[key], at, "the default of %s is %q", key, ds)
			}
		}
	}
	// debug records
	for _, st := range x.ends() {
		var sv *Event
		for e := st.ev; e != nil; e = e.Prev {
			if serveOf(e) != nil {
				sv = e
			}
		}
		if sv == nil {
			continue
		}
		level, known := logLevel(sv)
		if !known {
			continue
		}
		on, off := false, false
		var rd *Event
		for e := sv.Prev; e != nil; e = e.Prev {
			if e.Kind == EvCall && e.Res != nil && len(e.Args) == 1 && strings.Contains(e.Name, "spf13/viper") && strings.HasSuffix(e.Name, ".GetBool") {
				if k, ok := e.Args[0].strConst(); ok && k == "debug" {
					rd = e
					on, off = on || knownTrue(sv.Snap, e.Res), off || knownFalse(sv.Snap, e.Res)
				}
			}
		}
		at := &State{ev: sv, k: sv.Snap}
		ok := level <= -4 && on && !off || level > -4 && off && !on
		r.check("debug", "log level", sv.Pos, ok, at, "the log level is %d whether or not debug is set", level)
		if rd != nil {
			var evs []*Event
			for e := rd.Prev; e != nil; e = e.Prev {
				evs = append([]*Event{e}, evs...)
			}
			evs = append(append([]*Event{}, initEv...), evs...)
			why := fromEnv(evs, "debug")
			r.check("debug", "environment", rd.Pos, why == "", at, "%s", why)
			ok := false
			for _, e := range evs {
				if e.Kind == EvCall && strings.Contains(e.Name, "spf13/pflag") {
					n := e.Name[strings.LastIndex(e.Name, ".")+1:]
					for i, d := range map[string][2]int{"Bool": {0, 1}, "BoolP": {0, 2}, "BoolVar": {1, 2}, "BoolVarP": {1, 3}} {
						if n == i && len(e.Args) > d[1] {
							k, isK := e.Args[d[0]].strConst()
							v := e.Args[d[1]]
							b, isB := v.boolConst()
							ok = ok || isK && k == "debug" && isB && !b
						}
					}
				}
			}
			r.check("debug", "flag", rd.Pos, ok, at, "there is no flag debug that is off by default")
		}
	}
	r.atLeast("flag", 3)
	r.atLeast("environment", 3)
	r.atLeast("default", 3)
}

// fromEnv: the environment variable COMFO_KEY sets key.
func fromEnv(evs []*Event, key string) string {
	prefix, auto, bound := "", false, false
	for _, e := range evs {
		if e.Kind != EvCall || !strings.Contains(e.Name, "spf13/viper") {
			continue
		}
		switch e.Name[strings.LastIndex(e.Name, ".")+1:] {
		case "SetEnvPrefix":
			p, ok := e.Args[0].strConst()
			if !ok {
				return "the prefix of environment variables is not a constant"
			}
			prefix = strings.ToUpper(p)
		case "AutomaticEnv":
			auto = true
		case "BindEnv":
			if e.Cont == nil || len(e.Cont.Args) == 0 {
				continue
			}
			var ss []string
			for _, a := range e.Cont.Args {
				a.walk(func(t *Term) bool {
					if s, ok := t.strConst(); ok {
						ss = append(ss, s)
					}
					return true
				})
			}
			if len(ss) == 0 || ss[0] != key {
				continue
			}
			if len(ss) == 1 && prefix == "COMFO" {
				bound = true
			}
			for _, s := range ss[1:] {
				bound = bound || s == "COMFO_"+strings.ToUpper(key)
			}
		case "Reset":
			prefix, auto, bound = "", false, false
		}
	}
	switch {
	case bound:
		return ""
	case !auto:
		return "the environment is not looked at for " + key
	case prefix != "COMFO":
		return "the environment variable for " + key + " is not COMFO_" + strings.ToUpper(key)
	}
	return ""
}

// logLevel: the constant lowest level of records that are logged, as set up
// before e.
func logLevel(e *Event) (int64, bool) {
	for ; e != nil; e = e.Prev {
		if e.Kind != EvCall {
			continue
		}
		switch e.Name {
		case "log/slog.SetLogLoggerLevel":
			return 0, false
		case "log/slog.SetDefault":
			l, i := resultOf(e.Args[0])
			if l == nil || i != 0 || l.Name != "log/slog.New" {
				return 0, false
			}
			h, i := resultOf(l.Args[0])
			if h == nil || i != 0 || h.Name != "log/slog.NewTextHandler" && h.Name != "log/slog.NewJSONHandler" {
				return 0, false
			}
			if h.Args[1].isNil() {
				return 0, true
			}
			if h.Cont == nil || len(h.Cont.Args) == 0 {
				return 0, false
			}
			v := contField(h.Cont.Args[len(h.Cont.Args)-1], "Level")
			switch {
			case v == nil:
				return 0, false
			case v.isNil():
				return 0, true
			case v.Op != OIface || v.Typ == nil || v.Typ.String() != "log/slog.Level":
				return 0, false
			}
			v = v.Args[0]
			return v.intConst()
		}
	}
	return 0, false
}

// flagDefault: the default the flag for key is declared with.
func flagDefault(evs []*Event, key string) (d *Term) {
	for _, e := range evs {
		if e.Kind != EvCall || !strings.Contains(e.Name, "spf13/pflag") {
			continue
		}
		n := e.Name[strings.LastIndex(e.Name, ".")+1:]
		i := -1
		switch n {
		case "String", "StringP":
			i = 0
		case "StringVar", "StringVarP":
			i = 1
		default:
			continue
		}
		v := i + 1
		if strings.HasSuffix(n, "P") {
			v++
		}
		if v >= len(e.Args) {
			continue
		}
		if s, ok := e.Args[i].strConst(); ok && s == key {
			d = e.Args[v]
		}
	}
	return d
}

func init() {
	checks["C38"] = propCheck{checkC38, "On every path of the package initialiser and main, at each place where a setting is read: the flag that declares it, its parsing and binding, the environment set-up and the flag's default. Precedence of flag over environment over default is viper's documented behaviour."}
}
