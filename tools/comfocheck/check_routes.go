package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- RPC routes ----

// rpcServer analyses the constructor of the RPC server without options, and
// its ServeHTTP for every request on what the constructor returns.
func (A *Analysis) rpcServer() (mk, serve *Root) {
	P := A.P
	f := P.Rpc.Func("NewComfoServer")
	if f == nil {
		return nil, nil
	}
	mk = A.run("rpcnew", f, rootCfg{params: map[int]*Term{1: mkNil(f.Params[1].Type())}})
	var h *ssa.Function
	if m, ok := P.Rpc.Members["comfoServer"].(*ssa.Type); ok {
		h = P.prog.LookupMethod(types.NewPointer(m.Type()), P.Rpc.Pkg, "ServeHTTP")
	}
	if h == nil || mk.Err != "" {
		return mk, nil
	}
	var content *Term
	for i := range mk.Outs {
		o := &mk.Outs[i]
		if o.Kind != KRet {
			continue
		}
		c := deref(mk.In, o.St, strip(o.Ret))
		if c == nil || content != nil && c != content {
			return mk, nil
		}
		content = c
	}
	if content == nil {
		return mk, nil
	}
	serve = A.run("rpcserve", h, rootCfg{prep: func(in *Interp, st *State, ps []*Term) {
		st.mem[ps[0]] = content
	}})
	return mk, serve
}

// derives: some part of t was computed from a term that satisfies p, through
// operations, calls and what memory referred to when they were made.
func derives(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	evs := map[*Event]bool{}
	found := false
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || found {
			return
		}
		t.walk(func(x *Term) bool {
			if seen[x] || found {
				return false
			}
			seen[x] = true
			if p(x) {
				found = true
				return false
			}
			if x.Src != nil {
				visit(x.Src)
			}
			for _, e := range []*Event{x.Org, x.By} {
				if e == nil || evs[e] {
					continue
				}
				evs[e] = true
				visit(e.Recv)
				for _, a := range e.Args {
					visit(a)
				}
				visit(e.Cont)
			}
			return true
		})
	}
	visit(t)
	return found
}

func isReqField(t *Term, req *Term, name string) bool {
	if t == nil || t.Op != OField {
		return false
	}
	b := t.Args[0]
	if b.Src != req {
		return false
	}
	s := structOf(b.Typ)
	return s != nil && int(t.Off) < s.NumFields() && s.Field(int(t.Off)).Name() == name
}

// isPath: the path of the request's URL.
func isPath(t, req *Term) bool {
	if t == nil || t.Op != OField {
		return false
	}
	s := structOf(t.Args[0].Typ)
	if s == nil || int(t.Off) >= s.NumFields() {
		return false
	}
	switch s.Field(int(t.Off)).Name() {
	case "Path", "RawPath":
	default:
		return false
	}
	return derives(t.Args[0], func(x *Term) bool { return isReqField(x, req, "URL") || x == req })
}

// strFact: a comparison of a term with a string constant.
func strFact(t *Term) (*Term, string, bool) {
	if t.Op != OBin || t.Tok != token.EQL {
		return nil, "", false
	}
	for i := 0; i < 2; i++ {
		if s, ok := t.Args[1-i].strConst(); ok {
			return t.Args[i], s, true
		}
	}
	return nil, "", false
}

// fromEnd: t is the element i places from the end of strings.Split(path, "/").
func fromEnd(t *Term) (int64, bool) {
	if t.Op != OIndex {
		return 0, false
	}
	idx := t.Args[1]
	b, d := idx.lin()
	if b == nil || !b.contains(func(x *Term) bool { return isSplit(x) }) {
		return 0, false
	}
	if b.Op != OLen && !strings.HasPrefix(b.String(), "len(") {
		return 0, false
	}
	return -d, true
}

func isSplit(x *Term) bool {
	if x.Op != OSym || x.Org == nil || x.Org.Name != "strings.Split" || len(x.Org.Args) != 2 {
		return false
	}
	s, ok := x.Org.Args[1].strConst()
	return ok && s == "/"
}

type routeFacts struct {
	post, badMethod bool
	svc, prefix     bool
	badPath         bool            // a comparison of a part of the path failed that has to succeed
	method          string          // the method named by the path
	not             map[string]bool // methods it is not
	msg             string
	json, pb        int8 // 1 known, -1 known not
}

// routing reads off a path's conditions what is known of the request.
func routing(k *Facts, req *Term, methods map[string]bool) *routeFacts {
	rf := &routeFacts{not: map[string]bool{}}
	path := func(t *Term) bool { return derives(t, func(x *Term) bool { return isPath(x, req) }) }
	where := func(t *Term, want int64) bool {
		if n, ok := fromEnd(t); ok && n != want {
			return false
		}
		return true
	}
	for _, f := range k.f {
		t := f.t
		x, s, ok := strFact(t)
		if !ok {
			// length of the split path and the like
			if path(t) && !derives(t, func(x *Term) bool { return isService(x) }) {
				rf.badPath = rf.badPath || f.v && tooShort(t)
			}
			continue
		}
		switch {
		case isReqField(x, req, "Method"):
			if s == "POST" {
				rf.post, rf.badMethod = f.v, !f.v
			}
		case path(x):
			whole := isPath(x, req)
			switch {
			case whole && strings.HasPrefix(s, rpcPath) && methods[s[len(rpcPath):]]:
				if f.v {
					rf.svc, rf.prefix, rf.method = true, true, s[len(rpcPath):]
				} else {
					rf.not[s[len(rpcPath):]] = true
				}
			case s == "comfo.api.Comfo":
				rf.svc, rf.badPath = f.v, rf.badPath || !f.v
				if !where(x, 2) {
					rf.msg = "the service name is not taken from the last but one element of the path"
				}
			case s == "/twirp":
				rf.prefix, rf.badPath = f.v, rf.badPath || !f.v
				if isElem(x) {
					rf.msg = "the path prefix is not all that comes before the service name"
				}
			case s == "/twirp/comfo.api.Comfo" || s == "/twirp/comfo.api.Comfo/":
				rf.svc, rf.prefix, rf.badPath = f.v, f.v, rf.badPath || !f.v
			case methods[s] || f.v:
				if f.v {
					rf.method = s
				} else {
					rf.not[s] = true
				}
				if !where(x, 1) {
					rf.msg = "the method name is not taken from the last element of the path"
				}
			}
		case derives(x, isCTHeader):
			v := int8(-1)
			if f.v {
				v = 1
			}
			switch s {
			case "application/json":
				rf.json = v
			case "application/protobuf":
				rf.pb = v
			default:
				continue
			}
			if !derives(x, func(y *Term) bool { return isCall(y, "strings.ToLower") || isCall(y, "mime.ParseMediaType") }) {
				rf.msg = "the content type is compared with regard to case"
			}
			b := x
			for b.Op == OPure && (b.Name == "strings.ToLower" || b.Name == "strings.TrimSpace" || wholeStr(b)) {
				b = b.Args[0]
			}
			if isCTHeader(b) && !noSemicolon(k, b) {
				rf.msg = "content type parameters are not removed"
			}
			if b.Op == OPure && b.Name == "substr" && len(b.Args) == 3 && isCTHeader(b.Args[0]) {
				if v, ok := b.Args[1].intConst(); !ok || v != 0 || !semicolon(b.Args[2], b.Args[0]) {
					rf.msg = "the content type is not what precedes the first semicolon"
				}
			}
		}
	}
	return rf
}

// tooShort: the condition holds only for paths with too few elements.
func tooShort(t *Term) bool {
	if t.Op != OBin {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	switch t.Tok {
	case token.LSS:
		n, ok := b.intConst()
		return ok && (a.Op == OLen && isSplit(a.Args[0]) && n <= 4 || isIndexOf(a) && n <= 0)
	case token.EQL:
		for i := 0; i < 2; i++ {
			if n, ok := t.Args[i].intConst(); ok {
				o := t.Args[1-i]
				return n < 0 && isIndexOf(o) || n < 4 && o.Op == OLen && isSplit(o.Args[0])
			}
		}
	}
	return false
}

func isIndexOf(t *Term) bool {
	return t.Op == OPure && (strings.HasPrefix(t.Name, "strings.Index") || strings.HasPrefix(t.Name, "strings.LastIndex"))
}

// wholeStr: s[:len(s)].
func wholeStr(t *Term) bool {
	if t.Name != "substr" || len(t.Args) != 3 {
		return false
	}
	v, ok := t.Args[1].intConst()
	return ok && v == 0 && t.Args[2].Op == OLen && t.Args[2].Args[0] == t.Args[0]
}

func isElem(t *Term) bool { _, ok := fromEnd(t); return ok }

func isCall(t *Term, name string) bool {
	return t.Op == OPure && t.Name == name || t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall && t.Org.Name == name
}

func isService(t *Term) bool {
	return t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall && strings.Contains(t.Org.Name, "comfo/rpc/comfo.Comfo).")
}

func isCTHeader(t *Term) bool {
	if t.Op != OSym || t.Org == nil || t.Org.Name != "(net/http.Header).Get" || len(t.Org.Args) != 1 {
		return false
	}
	s, _ := t.Org.Args[0].strConst()
	return strings.EqualFold(s, "content-type")
}

// noSemicolon: the path established that the header has no parameters.
func noSemicolon(k *Facts, h *Term) bool {
	for _, f := range k.f {
		if f.t.contains(func(x *Term) bool { return semicolon(x, h) }) {
			return true
		}
	}
	return false
}

// semicolon: a search for the first semicolon in h.
func semicolon(x, h *Term) bool {
	if x.Op != OPure || len(x.Args) < 2 || x.Args[0] != h {
		return false
	}
	if len(x.Args) == 4 { // of a part of h
		if v, ok := x.Args[1].intConst(); !ok || v != 0 || x.Args[2] != mkLen(h) {
			return false
		}
	}
	what := x.Args[len(x.Args)-1]
	switch x.Name {
	case "strings.Index", "strings.IndexAny", "strings.Contains", "strings.ContainsAny":
		s, ok := what.strConst()
		return ok && s == ";"
	case "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune":
		v, ok := what.intConst()
		return ok && v == ';'
	}
	return false
}

func checkC27(A *Analysis, r *Rep) {
	P := A.P
	r.rule("own-handler", "a service method is invoked only, and then exactly once, for a POST to /twirp/comfo.api.Comfo/<its name>")
	r.rule("always-invoked", "a request is answered without invoking a method only if it is no POST, its path or content type is none of those served, or its body cannot be read and decoded")
	r.rule("decoded-request", "the request handed to the method is a fresh message of its request type, decoded without error from the body of this HTTP request by the decoder of its content type")
	r.rule("own-result", "on success the answer has status 200, the request's content type, and consists of the method's own result, encoded by the encoder of that type")
	r.rule("error-response", "an error of the method, a missing result and every request not served are answered with the status of an error; the method's error determines it")
	r.rule("error-body", "the body of an error response is the JSON encoding of code and message of the error that determines its status, unless that cannot be encoded")
	r.rule("headers", "the headers of an answer are set before it is written, its type says how the body is encoded, and a stated length is the length of the body written")
	r.rule("no-panic", "no request makes the server panic before a method is invoked or after it returned")
	r.rule("both-encodings", "each method is invoked and answered successfully in both encodings")
	r.rule("mounted", "the router in front of the RPC server hands it every request for the RPC paths")
	mk, sv := A.rpcServer()
	if mk == nil || sv == nil {
		r.use(mk)
		r.undecided("NewComfoServer", "the RPC server built by NewComfoServer is not found")
		return
	}
	if len(r.use(mk, sv)) < 2 {
		return
	}
	itf, _ := P.Rpc.Members["Comfo"].(*ssa.Type)
	it, ok := itf.Type().Underlying().(*types.Interface)
	if !ok {
		r.undecided("Comfo", "the service interface is not found")
		return
	}
	methods := map[string]bool{}
	sig := map[string]*types.Signature{}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		methods[m.Name()] = true
		sig[m.Name()] = m.Type().(*types.Signature)
	}
	impl, w, req := mk.Params[0], sv.Params[1], sv.Params[2]
	svcCall := func(e *Event) string {
		if e.Kind != EvCall || e.Recv == nil {
			return ""
		}
		n := e.Name[strings.LastIndex(e.Name, ".")+1:]
		if strip(e.Recv) == impl && methods[n] {
			return n
		}
		return ""
	}
	for _, l := range sv.Iters {
		for _, s := range l.Iters {
			for _, e := range eventsUpTo(s.ev, l.Start) {
				if n := svcCall(e); n != "" {
					r.check("own-handler", n, e.Pos, false, s, "%s is invoked in a loop", n)
				}
			}
		}
	}
	sv.eachEvent(func(e *Event) {
		if e.Kind != EvOblig || panicKinds[e.Name] == "" || e.Fn != nil && e.Fn.Pkg != A.P.Rpc {
			return
		}
		st := &State{ev: e, k: e.Snap}
		if !e.OK && strings.HasPrefix(e.Msg, "field of nil pointer") && nilURLMsg(e, req) {
			return // requests have a URL
		}
		fn := sv.Fn.Name()
		if e.Fn != nil {
			fn = fnName(e.Fn)
		}
		r.check("no-panic", strings.TrimPrefix(fn, "github.com/ti-mo/comfo/"), e.Pos, e.OK, st, "%s possible: %s", panicKinds[e.Name], e.Msg)
	})
	good := map[string]bool{}
	for i := range sv.Outs {
		o := &sv.Outs[i]
		if o.Kind == KPanic && nilURL(o.St, req) {
			continue // requests have a URL
		}
		evs := o.St.events()
		k := o.St.k
		var calls []*Event
		for _, e := range evs {
			if svcCall(e) != "" {
				calls = append(calls, e)
			}
		}
		if o.Kind != KRet {
			r.check("error-response", "path end", sv.Fn.Pos(), o.Kind == KPanic && len(calls) > 0, o.St, "a request is not answered: %s", o.Why)
			continue
		}
		rf := routing(k, req, methods)
		routed := rf.post && rf.svc && rf.prefix && rf.method != ""
		var c *Event
		name := ""
		if len(calls) > 0 {
			c = calls[0]
			name = svcCall(c)
			why := rf.msg
			switch {
			case !rf.post:
				why = "the request may not be a POST"
			case !rf.svc || !rf.prefix:
				why = "the path may belong to another service"
			case rf.method != name:
				why = "the path names method " + rf.method
			case len(calls) > 1:
				why = "another method call follows"
			case c.Thread != 0:
				why = "it runs after the request has been answered"
			}
			r.check("own-handler", name, c.Pos, why == "", o.St, "%s is invoked although %s", name, why)
			// the request
			why = reqDecoded(o.St, c, sig[name], rf, req)
			r.check("decoded-request", name, c.Pos, why == "", o.St, "%s", why)
		} else {
			none := len(rf.not) >= len(methods)
			for m := range methods {
				none = none && rf.not[m]
			}
			known := methods[rf.method]
			why := ""
			switch {
			case rf.badMethod, rf.badPath, none:
			case routed && !known:
			case routed && rf.json < 0 && rf.pb < 0:
			case routed && (rf.json > 0 || rf.pb > 0) && bodyFailed(evs, k, req):
			default:
				why = "a request is answered without invoking the method although nothing is wrong with it"
				if rf.method != "" {
					why = rf.method + ": " + why
				}
			}
			r.check("always-invoked", orStr(rf.method, "requests without method"), sv.Fn.Pos(), why == "", o.St, "%s", why)
		}
		// the answer
		var heads, writes []*Event
		for _, e := range evs {
			if e.Kind == EvCall && e.Recv == w {
				switch {
				case strings.HasSuffix(e.Name, ".WriteHeader"):
					heads = append(heads, e)
				case strings.HasSuffix(e.Name, ".Write"):
					writes = append(writes, e)
				}
			}
			if e.Kind == EvCall && e.Recv != w && len(e.Args) > 0 && strip(e.Args[0]) == w && (strings.HasSuffix(e.Name, "io.WriteString") || strings.HasPrefix(e.Name, "fmt.Fprint") || e.Name == "net/http.Error") {
				writes = append(writes, e)
			}
		}
		cname := orStr(name, "no method invoked")
		pos := sv.Fn.Pos()
		if c != nil {
			pos = c.Pos
		}
		okHead := len(heads) == 0
		for _, h := range heads {
			if v, is := h.Args[0].intConst(); is && v < 400 {
				okHead = true
			}
		}
		why := badHeaders(sv.In, o.St, w, writes, okHead)
		r.check("headers", cname, pos, why == "", o.St, "%s", why)
		if !okHead && len(heads) == 1 {
			why := badErrorBody(k, heads[0].Args[0], writes)
			r.check("error-body", cname, pos, why == "", o.St, "%s", why)
		}
		if c == nil {
			r.check("error-response", cname, pos, !okHead && len(heads) == 1 && errStatus(heads[0].Args[0], nil), o.St, "a request that is not served is not answered with an error")
			continue
		}
		et, res := c.errTerm(), c.result(0)
		marsh := marshalOf(evs, c, res)
		switch {
		case et != nil && !knownNil(k, et):
			if !k.nonNil(et) {
				r.check("error-response", cname, pos, false, o.St, "the answer does not depend on the method's error")
				continue
			}
			r.check("error-response", cname, pos, !okHead && len(heads) == 1 && errStatus(heads[0].Args[0], et), o.St, "an error of %s is not answered with the status of that error", name)
		case !okHead:
			// the result is missing or cannot be encoded
			just := knownNil(k, res) || marsh != nil && marsh.errTerm() != nil && k.nonNil(marsh.errTerm())
			r.check("own-result", cname, pos, just, o.St, "%s succeeded but is answered with an error", name)
			r.check("error-response", cname, pos, len(heads) == 1 && errStatus(heads[0].Args[0], nil), o.St, "a failure after %s is not answered with an error", name)
		default:
			why := ""
			enc := ""
			switch {
			case marsh == nil:
				why = "the answer is not the encoded result of " + name
			case marsh.errTerm() == nil || !knownNil(k, marsh.errTerm()):
				why = "the result may not have been encoded"
			case !k.nonNil(res):
				why = "a missing result is answered with success"
			default:
				enc = encName(marsh.Name)
				want := ""
				if rf.json > 0 {
					want = "json"
				} else if rf.pb > 0 {
					want = "protobuf"
				}
				if enc != want {
					why = "a request with content type application/" + want + " is answered in " + enc
				} else if len(writes) != 1 {
					why = itoa(int64(len(writes))) + " parts are written"
				} else if wr := writes[0]; wr.Recv != w || !isResult0(wr.Args[len(wr.Args)-1], marsh) {
					why = "what is written is not the encoded result"
				} else if len(heads) > 0 {
					if v, is := heads[0].Args[0].intConst(); !is || v != 200 || len(heads) > 1 {
						why = "the status is not 200"
					}
				}
				if why == "" && !setsCT(evs, "application/"+enc) {
					why = "the answer does not state its content type application/" + enc
				}
				if why == "" {
					good[name+"/"+enc] = true
				}
			}
			r.check("own-result", cname, pos, why == "", o.St, "%s", why)
		}
	}
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		for _, enc := range []string{"json", "protobuf"} {
			r.check("both-encodings", n+" in "+enc, it.Method(i).Pos(), good[n+"/"+enc], nil, "no path serves %s successfully in %s", n, enc)
		}
	}
	// the way to the server
	mr := r.use(A.mainRoot())
	for _, x := range mr {
		for _, st := range x.ends() {
			for _, e := range st.events() {
				s := serveOf(e)
				if s == nil {
					continue
				}
				at := &State{ev: e, k: e.Snap, mem: st.mem}
				svc, why := A.mounted(r, x, st, e, s.handler)
				if why == "" {
					why = A.implementsAPI(x, st, svc)
				}
				if why == "" {
					why = A.unchanging(r, x, st, svc)
				}
				r.check("mounted", "main serves", e.Pos, why == "", at, "%s", why)
			}
		}
	}
	r.atLeast("mounted", 1)
	r.atLeast("own-handler", 10)
	r.atLeast("decoded-request", 10)
	r.atLeast("own-result", 10)
	r.atLeast("error-response", 10)
	r.atLeast("always-invoked", 10)
	r.atLeast("headers", 10)
	r.atLeast("error-body", 10)
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// nilURL: the path assumes a request without URL, which servers do not pass.
func nilURL(st *State, req *Term) bool {
	for _, f := range st.k.f {
		if f.v && f.t.Op == OBin && f.t.Tok == token.EQL {
			for i := 0; i < 2; i++ {
				if f.t.Args[1-i].isNil() && isReqField(f.t.Args[i], req, "URL") {
					return true
				}
			}
		}
	}
	return false
}

func fromBody(t, req *Term) bool {
	return derives(t, func(x *Term) bool { return isReqField(x, req, "Body") })
}

// bodyFailed: reading or decoding the body gave an error.
func bodyFailed(evs []*Event, k *Facts, req *Term) bool {
	for _, e := range evs {
		if e.Kind != EvCall || e.errTerm() == nil || !k.nonNil(e.errTerm()) {
			continue
		}
		switch b := e.Name[strings.LastIndex(e.Name, ".")+1:]; {
		case b == "ReadAll" || b == "Decode" || b == "Unmarshal" || b == "Copy" || b == "ReadFrom":
		default:
			continue
		}
		if fromBody(e.Recv, req) || fromBody(mkTuple(e.Args), req) || fromBody(e.Cont, req) {
			return true
		}
	}
	return false
}

// encName: the encoding a (un)marshal function is for.
func encName(n string) string {
	switch {
	case strings.Contains(n, "encoding/protojson") || strings.Contains(n, "encoding/json"):
		return "json"
	case strings.Contains(n, "protobuf/proto."):
		return "protobuf"
	}
	return "?"
}

func reqDecoded(st *State, c *Event, sig *types.Signature, rf *routeFacts, req *Term) string {
	p := strip(c.Args[len(c.Args)-1])
	want := sig.Params().At(sig.Params().Len() - 1).Type()
	pt, ok := want.(*types.Pointer)
	if !ok || p.Op != OAlloc || !types.Identical(p.elemTyp(), pt.Elem()) {
		return "the request is not a fresh message: " + p.String()
	}
	var dec *Event
	for e := c.Prev; e != nil; e = e.Prev {
		if e.Kind != EvCall {
			continue
		}
		for i, a := range e.Args {
			if strip(a) != p {
				continue
			}
			if dec != nil || !strings.HasPrefix(e.Name[strings.LastIndex(e.Name, ".")+1:], "Unmarshal") {
				return "the request is passed to " + e.Name + " besides its decoder"
			}
			dec = e
			n := len(e.Cont.Args) - len(e.Args)
			if z := e.Cont.Args[n+i]; z == nil || !isZeroMsg(z) {
				return "the message decoded into is not empty"
			}
		}
	}
	if dec == nil {
		return "the request has not been decoded"
	}
	if t := dec.errTerm(); t == nil || !knownNil(c.Snap, t) {
		return "the request may not have been decoded"
	}
	enc := encName(dec.Name)
	if enc == "json" && rf.json <= 0 || enc == "protobuf" && rf.pb <= 0 || enc == "?" {
		return "the request is decoded as " + enc + " although its content type may be another"
	}
	if !fromBody(mkTuple(dec.Args), req) {
		return "what is decoded does not come from the body of the request"
	}
	// not touched since
	n := len(c.Cont.Args) - len(c.Args)
	if z := c.Cont.Args[n+len(c.Args)-1]; z == nil || z.Op != OSym || z.Src != p {
		return "the request has been changed after decoding"
	}
	for e := c.Prev; e != nil; e = e.Prev {
		if e.Kind == EvCall && e != dec && e.errTerm() != nil && k0(c.Snap, e) && (fromBody(e.Recv, req) || fromBody(mkTuple(e.Args), req)) {
			return "the method is invoked although " + e.Name + " failed"
		}
	}
	return ""
}

// k0: the call is not known to have succeeded.
func k0(k *Facts, e *Event) bool { return !knownNil(k, e.errTerm()) }

func isZeroMsg(t *Term) bool {
	switch t.Op {
	case OZero:
		return true
	case OStruct, OArray:
		for _, a := range t.Args {
			if !isZeroMsg(a) {
				return false
			}
		}
		return true
	case OConst:
		if v, ok := t.intConst(); ok {
			return v == 0
		}
		if v, ok := t.boolConst(); ok {
			return !v
		}
		if v, ok := t.strConst(); ok {
			return v == ""
		}
		return t.isNil()
	case OSlice:
		v, ok := t.Args[2].intConst()
		return ok && v == 0
	}
	return false
}

// marshalOf: the call that encodes the result of c.
func marshalOf(evs []*Event, c *Event, res *Term) *Event {
	for _, e := range evs {
		if e.Kind == EvCall && e.N > c.N && strings.HasPrefix(e.Name[strings.LastIndex(e.Name, ".")+1:], "Marshal") && len(e.Args) > 0 && strip(e.Args[0]) == res {
			return e
		}
	}
	return nil
}

func isResult0(t *Term, e *Event) bool {
	if t == e.result(0) {
		return true
	}
	x, i := resultOf(t)
	return x == e && i == 0
}

// written: the bytes a call writes.
func written(e *Event) *Term {
	b := strip(e.Args[len(e.Args)-1])
	for b.Op == OConv && len(b.Args) == 1 {
		b = strip(b.Args[0])
	}
	return b
}

// badHeaders: what is wrong with the headers of the answer a path writes.
func badHeaders(in *Interp, st *State, w *Term, writes []*Event, success bool) string {
	sent := false
	ct := ""
	for _, e := range st.events() {
		if e.Kind != EvCall {
			continue
		}
		if e.Recv == w && (strings.HasSuffix(e.Name, ".WriteHeader") || strings.HasSuffix(e.Name, ".Write")) {
			sent = true
		}
		if e.Name != "(net/http.Header).Set" && e.Name != "(net/http.Header).Add" || len(e.Args) != 2 {
			continue
		}
		k, is := e.Args[0].strConst()
		if !is {
			return "a header is set whose name is not known"
		}
		if k = strings.ToLower(k); k != "content-type" && k != "content-length" {
			continue
		}
		h, _ := resultOf(strip(e.Recv))
		switch {
		case h == nil || h.Recv != w || !strings.HasSuffix(h.Name, ".Header"):
			return k + " is not set on the answer"
		case sent:
			return k + " is set after the answer has been started"
		case k == "content-type":
			ct, _ = e.Args[1].strConst()
		case len(writes) != 1 || !lengthOf(in, st, e.Args[1], writes[0]):
			return "the content length stated is not known to be that of the body: " + e.Args[1].String()
		}
	}
	if !success && ct != "application/json" {
		return "an error response does not state that it is JSON"
	}
	return ""
}

// lengthOf: t is the decimal length of what e writes.
func lengthOf(in *Interp, st *State, t *Term, e *Event) bool {
	t = strip(t)
	is := func(x *Term) bool {
		for _, b := range []*Term{e.Args[len(e.Args)-1], written(e)} {
			if l := in.length(st, b); x == l || l.Op == OConst && x.Op == OConst && x.String() == l.String() {
				return true
			}
		}
		return false
	}
	if t.Op == OPure || t.Op == OSym && t.Org != nil && t.Org.Kind == EvCall {
		n, as := t.Name, t.Args
		if t.Op == OSym {
			n, as = t.Org.Name, t.Org.Args
		}
		switch n {
		case "strconv.Itoa":
		case "strconv.FormatInt", "strconv.FormatUint":
			if b, ok := as[1].intConst(); !ok || b != 10 {
				return false
			}
		case "fmt.Sprint", "fmt.Sprintf":
			return derives(t, is)
		default:
			return false
		}
		x := as[0]
		for x.Op == OConv {
			x = x.Args[0]
		}
		return is(x)
	}
	return false
}

// badErrorBody: what is wrong with the body of an error response.
func badErrorBody(k *Facts, status *Term, writes []*Event) string {
	if len(writes) != 1 {
		return itoa(int64(len(writes))) + " parts are written"
	}
	var code *Term
	if e, i := resultOf(status); e != nil && i == 0 && len(e.Args) == 1 {
		code = e.Args[0]
	}
	b := writes[0].Args[len(writes[0].Args)-1]
	m, i := resultOf(b)
	if m == nil {
		m, i = resultOf(written(writes[0]))
	}
	if m == nil || i != 0 || m.Name != "encoding/json.Marshal" {
		// a replacement, if encoding failed
		for _, f := range k.f {
			if !f.v && f.t.Op == OBin && f.t.contains(func(x *Term) bool {
				e, i := resultOf(x)
				return e != nil && i == 1 && e.Name == "encoding/json.Marshal"
			}) {
				return ""
			}
		}
		return "the body is not the JSON encoding of the error"
	}
	if !knownNil(k, m.errTerm()) {
		return "the error may not have been encoded"
	}
	same := func(t *Term, what string) bool {
		e, _ := resultOf(strip(t))
		c, _ := resultOf(strip(code))
		if what == "Code" && t == code {
			return true
		}
		return e != nil && c != nil && strings.HasSuffix(e.Name, ")."+what) && e.Recv == c.Recv
	}
	if code == nil {
		return "the status is not that of an error"
	}
	var c *Term
	if m.Cont != nil && len(m.Cont.Args) > 0 {
		c = m.Cont.Args[len(m.Cont.Args)-1]
	}
	if c == nil || structOf(c.Typ) == nil {
		c = strip(m.Args[0])
	}
	s := structOf(c.Typ)
	if s == nil || c.Op != OStruct {
		if derives(b, func(x *Term) bool { return same(x, "Code") }) && derives(b, func(x *Term) bool { return same(x, "Msg") || c.Op != OSym }) {
			return ""
		}
		return "the body is not known to have code and message of the error"
	}
	got := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		n := jsonName(s, i)
		v := c.Args[i]
		for v.Op == OConv {
			v = v.Args[0]
		}
		switch n {
		case "code":
			got[n] = same(v, "Code")
		case "msg":
			for v.Op == OPure && len(v.Args) > 0 && (v.Name == "substr" || v.Name == "strings.ToValidUTF8") {
				v = v.Args[0]
			}
			_, con := v.strConst()
			got[n] = con || same(v, "Msg") || code.Op == OConst
		}
	}
	if !got["code"] {
		return "the body does not have the code of the error that determined the status"
	}
	if !got["msg"] {
		return "the body does not have the message of the error"
	}
	return ""
}

// nilURLMsg: the obligation is about a request without URL.
func nilURLMsg(e *Event, req *Term) bool {
	return strings.Contains(e.Msg, ".URL)")
}

func setsCT(evs []*Event, ct string) bool {
	ok := false
	for _, e := range evs {
		if e.Kind == EvCall && (e.Name == "(net/http.Header).Set" || e.Name == "(net/http.Header).Add") && len(e.Args) == 2 {
			if k, is := e.Args[0].strConst(); is && strings.EqualFold(k, "content-type") {
				v, _ := e.Args[1].strConst()
				ok = v == ct
			}
		}
	}
	return ok
}

// errStatus: the status of an error response; with err, of that error.
func errStatus(t, err *Term) bool {
	if v, ok := t.intConst(); ok {
		return v >= 400 && err == nil
	}
	e, i := resultOf(t)
	if e == nil || i != 0 || !strings.HasSuffix(e.Name, "twirp.ServerHTTPStatusFromErrorCode") {
		return false
	}
	return err == nil || derives(e.Args[0], func(x *Term) bool { return x == err })
}
