package main

import (
	"go/token"
	"go/types"
	"path"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the Go clients ----

type goClient struct {
	name  string
	enc   string
	fn    *ssa.Function
	mk    *Root
	ends  []*Outcome // of the constructor
	conts []*Term    // the client built on each of them
	ms    map[string]*Root
	alts  map[*Term][]*Term // unknown of the client -> its value on each constructor path
	why   string
}

// goClients analyses each constructor of an RPC client for every base URL and
// HTTP client, without options, and each method on what it returns.
func (A *Analysis) goClients() []*goClient {
	P := A.P
	var cs []*goClient
	for _, n := range [][2]string{{"NewComfoProtobufClient", "protobuf"}, {"NewComfoJSONClient", "json"}} {
		c := &goClient{name: n[0], enc: n[1], fn: P.Rpc.Func(n[0]), ms: map[string]*Root{}, alts: map[*Term][]*Term{}}
		cs = append(cs, c)
		if c.fn == nil || len(c.fn.Params) != 3 {
			c.why = "constructor not found"
			continue
		}
		c.mk = A.run("client:"+c.name, c.fn, rootCfg{params: map[int]*Term{2: mkNil(c.fn.Params[2].Type())}})
		if c.mk.Err != "" {
			continue
		}
		var ret *Term
		for i := range c.mk.Outs {
			o := &c.mk.Outs[i]
			if o.Kind != KRet {
				continue
			}
			x := deref(c.mk.In, o.St, strip(o.Ret))
			if x == nil || o.Ret.Op != OIface || ret != nil && !types.Identical(ret.Typ, o.Ret.Typ) {
				c.why = "what the constructor returns is not found"
				break
			}
			ret = o.Ret
			c.ends = append(c.ends, o)
			c.conts = append(c.conts, x)
		}
		if c.why != "" || ret == nil {
			continue
		}
		content := c.merge(c.conts, c.conts[0].Typ, "client")
		itf, _ := P.Rpc.Members["Comfo"].(*ssa.Type)
		it, ok := itf.Type().Underlying().(*types.Interface)
		if !ok {
			c.why = "the service interface is not found"
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			h := P.prog.LookupMethod(ret.Typ, P.Rpc.Pkg, m.Name())
			if h == nil || h.Blocks == nil {
				c.why = "method " + m.Name() + " is not found"
				continue
			}
			c.ms[m.Name()] = A.run("client:"+c.name+"."+m.Name(), h, rootCfg{prep: func(in *Interp, st *State, ps []*Term) {
				st.mem[ps[0]] = content
			}})
		}
	}
	return cs
}

// merge: what all of ts have in common, with unknowns for the rest.
func (c *goClient) merge(ts []*Term, t types.Type, name string) *Term {
	same := true
	for _, x := range ts {
		same = same && x == ts[0]
	}
	if same {
		return ts[0]
	}
	if s := structOf(t); s != nil {
		var f []*Term
		for i := 0; i < s.NumFields(); i++ {
			var fs []*Term
			for _, x := range ts {
				fs = append(fs, expand(x, t).Args[i])
			}
			f = append(f, c.merge(fs, s.Field(i).Type(), s.Field(i).Name()))
		}
		return mkStruct(t, f)
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 64 {
		var f []*Term
		for i := 0; i < int(at.Len()); i++ {
			var fs []*Term
			for _, x := range ts {
				fs = append(fs, mkIndex(x, mkInt(int64(i), nil), at.Elem()))
			}
			f = append(f, c.merge(fs, at.Elem(), name+itoa(int64(i))))
		}
		return mkArray(t, f)
	}
	for s, a := range c.alts {
		eq := len(a) == len(ts) && types.Identical(s.Typ, t)
		for i := range a {
			eq = eq && a[i] == ts[i]
		}
		if eq {
			return s
		}
	}
	s := freshSym(name, t)
	c.alts[s] = ts
	return s
}

// at: t as it is for a client built on the i-th path of the constructor.
func (c *goClient) at(t *Term, i int) *Term {
	m := map[*Term]*Term{}
	for s, a := range c.alts {
		m[s] = a[i]
	}
	return subst(t, m)
}

// pathJoinModel evaluates path.Join on constants.
func pathJoinModel(in *Interp, st *State, fr *Frame, pos token.Pos, f *ssa.Function, args []*Term) ([]alt, bool) {
	es, ok := in.elems(st, args[0], types.Typ[types.String])
	if !ok {
		return nil, false
	}
	var ss []string
	for _, e := range es {
		s, ok := e.strConst()
		if !ok {
			return nil, false
		}
		ss = append(ss, s)
	}
	return one(st, mkStr(path.Join(ss...))), true
}

// concatParts: the pieces a string is put together from, constants joined.
func concatParts(t *Term) []*Term {
	var r []*Term
	add := func(x *Term) {
		if s, ok := x.strConst(); ok && len(r) > 0 {
			if p, ok := r[len(r)-1].strConst(); ok {
				r[len(r)-1] = mkStr(p + s)
				return
			}
		}
		r = append(r, x)
	}
	if t.Op == OPure && t.Name == "concat" {
		for _, a := range t.Args {
			for _, x := range concatParts(a) {
				add(x)
			}
		}
		return r
	}
	return []*Term{t}
}

// ownURL: the string is the base URL followed by the path of the method.
func (c *goClient) ownURL(t *Term, method string) string {
	for i := range c.ends {
		ps := concatParts(c.at(t, i))
		if len(ps) != 2 {
			return "the URL is " + c.at(t, i).String() + ", not the base URL followed by the path of the method"
		}
		if s, ok := ps[1].strConst(); !ok || s != rpcPath+method {
			return "the path after the base URL is " + ps[1].String() + ", not " + rpcPath + method
		}
		base := c.mk.Params[0]
		if ps[0] != base {
			e, n := resultOf(ps[0])
			ok := e != nil && n == 0 && (e.Name == "(*net/url.URL).String" || e.Name == "(net/url.URL).String")
			if ok {
				pe, pn := resultOf(e.Recv)
				ok = pe != nil && pn == 0 && pe.Name == "net/url.Parse" && pe.Args[0] == base
				if !ok {
					ok = derives(e.Recv, func(x *Term) bool { return x == base })
				}
				for _, s := range c.ends[i].St.events() {
					if ok && s.Kind == EvStore && s.Addr.Op == OFieldAddr && s.Addr.Args[0] == e.Recv {
						st := structOf(e.Recv.elemTyp())
						if ok = st != nil && st.Field(int(s.Addr.Off)).Name() == "Scheme"; ok && !noScheme(s.Snap) {
							return "the scheme of the base URL is replaced"
						}
					}
				}
			}
			if !ok {
				return "what precedes the path is " + ps[0].String() + ", not the base URL given"
			}
		}
	}
	return ""
}

// noScheme: the URL is known to have no scheme.
func noScheme(k *Facts) bool {
	for _, f := range k.f {
		x, s, ok := strFact(f.t)
		if ok && f.v && s == "" && isFieldNamed(x, "Scheme") {
			return true
		}
		if f.t.contains(func(y *Term) bool {
			return y.Op == OLen && isFieldNamed(y.Args[0], "Scheme") && k.z.leq(y, mkInt(0, nil), 0)
		}) {
			return true
		}
	}
	return false
}

// ownHTTP: the term is the HTTP client given to the constructor, or a copy of
// it that only differs in the treatment of redirects.
func (c *goClient) ownHTTP(t *Term) string {
	for i, o := range c.ends {
		x, given := c.at(t, i), c.mk.Params[1]
		if strip(x) == strip(given) || x == given {
			if !o.St.k.isNil(given) && !knownFalse(o.St.k, mkPure("dyntype:*net/http.Client", types.Typ[types.Bool], given)) {
				return "an *http.Client is used that follows redirects"
			}
			continue
		}
		ct := deref(c.mk.In, o.St, strip(x))
		s := (*types.Struct)(nil)
		if ct != nil {
			s = structOf(ct.Typ)
		}
		if s == nil {
			return "requests are not sent through the HTTP client given"
		}
		for j := 0; j < s.NumFields(); j++ {
			f := mkField(ct, j, s.Field(j).Type())
			if s.Field(j).Name() == "CheckRedirect" {
				if f.Op != OClosure && f.Op != OFunc {
					return "redirects are followed"
				}
				continue
			}
			if f.Op != OField || int(f.Off) != j || !derives(f.Args[0], func(y *Term) bool { return y == given }) {
				return "requests are sent with another " + s.Field(j).Name() + " than that of the HTTP client given"
			}
		}
	}
	return ""
}

// redirectPolicies: the functions that decide on redirects.
func (c *goClient) redirectPolicies() []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for i, o := range c.ends {
		x := contField(c.conts[i], "client")
		if x == nil {
			continue
		}
		if ct := deref(c.mk.In, o.St, strip(x)); ct != nil {
			if f := contField(ct, "CheckRedirect"); f != nil && (f.Op == OClosure || f.Op == OFunc) && !seen[f] {
				seen[f] = true
				r = append(r, f)
			}
		}
	}
	return r
}

func baseName(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// sendsHTTP: the call sends an HTTP request.
func (c *goClient) sendsHTTP(e *Event) bool {
	if e.Kind != EvCall {
		return false
	}
	if strings.HasSuffix(e.Name, "HTTPClient).Do") {
		return true
	}
	for _, p := range []string{"(*net/http.Client).", "net/http."} {
		if strings.HasPrefix(e.Name, p) {
			switch baseName(e.Name) {
			case "Do", "Get", "Head", "Post", "PostForm", "RoundTrip":
				return true
			}
		}
	}
	return strings.HasSuffix(e.Name, "RoundTrip")
}

// requestOf: the event that made the request, and the names it went by.
func requestOf(t *Term) (*Event, map[*Term]bool) {
	names := map[*Term]bool{}
	for {
		names[t] = true
		e, n := resultOf(t)
		if e == nil {
			return nil, names
		}
		switch e.Name {
		case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
			t = e.Recv
			continue
		case "net/http.NewRequest", "net/http.NewRequestWithContext":
			if n == 0 {
				return e, names
			}
		}
		return nil, names
	}
}

func bodyOf(t *Term) *Term {
	e, n := resultOf(t)
	if e == nil || n != 0 {
		return nil
	}
	switch e.Name {
	case "bytes.NewBuffer", "bytes.NewReader":
		return e.Args[0]
	case "bytes.NewBufferString", "strings.NewReader":
		if x := e.Args[0]; x.Op == OPure && x.Name == "bytes2str" {
			return x.Args[0]
		}
	}
	return nil
}

func checkC36(A *Analysis, r *Rep) {
	P := A.P
	r.rule("own-endpoint", "the only HTTP request of a call is a POST to the base URL of the client followed by /twirp/comfo.api.Comfo/<name of the method>, sent through the HTTP client given, and at most one is sent")
	r.rule("own-request", "the body sent is the encoding of the message given, made without error by the encoder of this client, and is sent with its content type")
	r.rule("own-response", "a message is returned only with a nil error, and then it is a fresh message of the response type of the RPC, decoded without error from the body of the response to this call, whose status is 200")
	r.rule("error", "a call that returns no message returns an error")
	r.rule("context", "the request carries the context given to the method, or one made from it")
	r.rule("error-kept", "an error response of the service with a valid error code is returned as an error with that code and its message")
	r.rule("works", "each method of each client can succeed")
	r.rule("body-closed", "the body of every response is closed")
	r.rule("no-redirect", "a redirect is not followed if the HTTP client is an *http.Client")
	itf, _ := P.Rpc.Members["Comfo"].(*ssa.Type)
	it, isItf := itf.Type().Underlying().(*types.Interface)
	if !isItf {
		r.undecided("Comfo", "the service interface is not found")
		return
	}
	for _, c := range A.goClients() {
		if c.mk == nil {
			r.undecided(c.name, c.why)
			continue
		}
		if len(r.use(c.mk)) < 1 {
			continue
		}
		if c.why != "" {
			r.undecided(c.name, c.why)
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			c.method(A, r, m.Name(), m.Type().(*types.Signature), c.ms[m.Name()])
		}
		for _, f := range c.redirectPolicies() {
			x := A.run("redirect:"+c.name, f.fn(), rootCfg{})
			if len(r.use(x)) < 1 {
				continue
			}
			for j := range x.Outs {
				if o := &x.Outs[j]; o.Kind == KRet {
					r.check("no-redirect", c.name, f.fn().Pos(), isLastResponse(x.In, o.Ret), o.St, "a redirect may be followed: the policy returns %s", o.Ret)
				}
			}
		}
	}
	r.atLeast("own-endpoint", 20)
	r.atLeast("own-request", 20)
	r.atLeast("own-response", 20)
	r.atLeast("body-closed", 20)
	r.atLeast("works", 20)
}

func isLastResponse(in *Interp, t *Term) bool {
	t = strip(t)
	return t.Src != nil && t.Src.Op == OGlobal && t.Src.Name == "net/http.ErrUseLastResponse" || strings.HasPrefix(t.String(), "net/http.ErrUseLastResponse")
}

func (c *goClient) method(A *Analysis, r *Rep, name string, sig *types.Signature, x *Root) {
	if len(r.use(x)) < 1 {
		return
	}
	in := x.Params[len(x.Params)-1]
	cn := c.name + "." + name
	pos := x.Fn.Pos()
	for _, l := range x.Iters {
		for _, s := range l.Iters {
			for _, e := range eventsUpTo(s.ev, l.Start) {
				if c.sendsHTTP(e) {
					r.check("own-endpoint", cn, e.Pos, false, s, "a request is sent in a loop")
				}
			}
		}
	}
	works, kept := false, false
	for i := range x.Outs {
		o := &x.Outs[i]
		if o.Kind != KRet {
			continue // a nil client, message or context
		}
		evs, k := o.St.events(), o.St.k
		var send *Event
		for _, e := range evs {
			if !c.sendsHTTP(e) {
				continue
			}
			if send != nil {
				r.check("own-endpoint", cn, e.Pos, false, o.St, "a second request is sent")
			}
			send = e
			ne, names := (*Event)(nil), map[*Term]bool(nil)
			why := ""
			if len(e.Args) == 1 && e.Recv != nil && baseName(e.Name) == "Do" {
				why = c.ownHTTP(e.Recv)
				ne, names = requestOf(e.Args[0])
			}
			switch {
			case why != "":
			case e.Thread != 0:
				why = "the request is sent after the call has returned"
			case ne == nil:
				why = "the request sent is not one made for this call"
			case ne.errTerm() == nil || !knownNil(e.Snap, ne.errTerm()):
				why = "the request may not have been built"
			default:
				a := ne.Args[len(ne.Args)-3:]
				if m, ok := a[0].strConst(); !ok || m != "POST" {
					why = "the request is no POST but " + a[0].String()
				} else {
					why = c.ownURL(a[1], name)
				}
			}
			r.check("own-endpoint", cn, e.Pos, why == "", o.St, "%s", why)
			if ne == nil || why != "" {
				continue
			}
			why = c.reqBody(evs, e, ne, names, in)
			r.check("own-request", cn, e.Pos, why == "", o.St, "%s", why)
			r.check("context", cn, e.Pos, ownContext(e.Args[0], x.Params[1]), o.St, "the request does not carry the context given to the method")
		}
		ret, err := x.ret(o, 0), x.ret(o, 1)
		if why, is := keptError(evs, k, err); is {
			r.check("error-kept", cn, pos, why == "", o.St, "%s", why)
			kept = kept || why == ""
		}
		switch {
		case k.isNil(err):
			why := c.respOK(o, send, ret, sig)
			r.check("own-response", cn, pos, why == "", o.St, "%s", why)
			if why == "" {
				works = true
			}
		case k.nonNil(err):
			r.check("own-response", cn, pos, k.isNil(ret), o.St, "a message is returned together with an error")
			r.check("error", cn, pos, true, o.St, "")
		default:
			r.check("error", cn, pos, k.nonNil(ret), o.St, "neither a message nor an error may be returned: %s", err)
			r.check("own-response", cn, pos, k.isNil(ret), o.St, "a message may be returned together with an error: %s", err)
		}
		if send != nil && send.errTerm() != nil && k.isNil(send.errTerm()) {
			closed := false
			for _, e := range evs {
				closed = closed || e.Kind == EvCall && baseName(e.Name) == "Close" && e.N > send.N && derives(e.Recv, func(y *Term) bool { return isResult0(y, send) })
			}
			r.check("body-closed", cn, send.Pos, closed, o.St, "the body of the response is not closed")
		}
	}
	r.check("works", cn, pos, works, nil, "no path of %s succeeds", cn)
	r.check("error-kept", cn, pos, kept, nil, "no path of %s returns an error of the service", cn)
}

// ownContext: the request sent carries ctx or a context made from it.
func ownContext(t, ctx *Term) bool {
	for {
		e, n := resultOf(t)
		if e == nil || n != 0 {
			return false
		}
		switch e.Name {
		case "(*net/http.Request).WithContext", "(*net/http.Request).Clone", "net/http.NewRequestWithContext":
			return derives(e.Args[0], func(x *Term) bool { return x == ctx })
		}
		return false
	}
}

// keptError: the path has decoded an error with a valid code from a response;
// what is wrong with the error it makes of it.
func keptError(evs []*Event, k *Facts, err *Term) (string, bool) {
	var tj *types.Struct
	var at *Event
	valid := false
	var made *Event
	for _, e := range evs {
		if e.Kind != EvCall {
			continue
		}
		switch e.Name {
		case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
			if e.errTerm() == nil || !knownNil(k, e.errTerm()) {
				continue
			}
			x := strip(e.Args[len(e.Args)-1])
			if s := structOf(x.elemTyp()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if jsonName(s, i) == "code" {
						tj, at = s, e
					}
				}
			}
		case "github.com/twitchtv/twirp.IsValidErrorCode":
			valid = valid || tj != nil && knownTrue(k, e.result(0))
		case "github.com/twitchtv/twirp.NewError", "github.com/twitchtv/twirp.InternalError", "github.com/twitchtv/twirp.NewErrorf", "github.com/twitchtv/twirp.InternalErrorWith":
			if made == nil && at != nil {
				made = e
			}
		}
	}
	if !valid {
		return "", false
	}
	field := func(t *Term, name string) bool {
		for t.Op == OConv {
			t = t.Args[0]
		}
		return t.Op == OField && structOf(t.Args[0].Typ) == tj && jsonName(tj, int(t.Off)) == name
	}
	for _, f := range k.f {
		if x, s, ok := strFact(f.t); ok && f.v && s == "" && field(x, "code") {
			return "", false // not a valid code
		}
	}
	if e, _ := resultOf(err); e != nil && e != made && !derives(err, func(x *Term) bool { return isResult0(x, made) }) {
		made = nil
	}
	if made == nil || len(made.Args) != 2 || !field(made.Args[0], "code") || !field(made.Args[1], "msg") {
		return "an error of the service is not returned with its code and message", true
	}
	return "", true
}

func jsonName(s *types.Struct, i int) string {
	n, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
	return n
}

// reqBody judges body and content type of a request.
func (c *goClient) reqBody(evs []*Event, send, ne *Event, names map[*Term]bool, in *Term) string {
	b := bodyOf(strip(ne.Args[len(ne.Args)-1]))
	if b == nil {
		return "the body of the request is not known bytes: " + ne.Args[len(ne.Args)-1].String()
	}
	m, n := resultOf(b)
	switch {
	case m == nil || n != 0 || !strings.HasPrefix(baseName(m.Name), "Marshal") || len(m.Args) == 0:
		return "the body of the request is no encoded message"
	case strip(m.Args[0]) != in:
		return "the message sent is not the one given"
	case m.errTerm() == nil || !knownNil(send.Snap, m.errTerm()):
		return "the message may not have been encoded"
	case encName(m.Name) != c.enc:
		return "the message is encoded as " + encName(m.Name)
	}
	ct := ""
	for _, e := range evs {
		if e.N > send.N || e.N < ne.N {
			continue
		}
		if e.Kind == EvStore && e.Addr.Op == OFieldAddr && names[e.Addr.Args[0]] {
			if s := structOf(e.Addr.Args[0].elemTyp()); s != nil {
				switch f := s.Field(int(e.Addr.Off)).Name(); f {
				case "Header":
					ct = ""
				case "Trailer", "Close", "GetBody":
				default:
					return f + " of the request is changed"
				}
			}
		}
		if e.Kind == EvCall && strings.HasPrefix(e.Name, "(net/http.Header).") && len(e.Args) > 0 {
			if h, ok := e.Args[0].strConst(); ok && strings.EqualFold(h, "content-type") {
				ct = ""
				if baseName(e.Name) == "Set" {
					ct, _ = e.Args[1].strConst()
				}
			}
		}
		if e.Kind == EvCall && e.N > ne.N && e != send {
			for _, a := range e.Args {
				if names[strip(a)] && e.Name != "(*net/http.Request).WithContext" {
					return "the request is passed to " + e.Name + " before it is sent"
				}
			}
		}
	}
	if ct != "application/"+c.enc {
		return "the content type of the request is not application/" + c.enc
	}
	return ""
}

// respOK judges a return without error.
func (c *goClient) respOK(o *Outcome, send *Event, ret *Term, sig *types.Signature) string {
	k := o.St.k
	if send == nil {
		return "a call succeeds without sending a request"
	}
	if send.errTerm() == nil || !k.isNil(send.errTerm()) {
		return "a call succeeds although sending the request may have failed"
	}
	resp := send.result(0)
	fromResp := func(t *Term) bool { return derives(t, func(y *Term) bool { return y == resp || isResult0(y, send) }) }
	ok200 := false
	for _, f := range k.f {
		t := f.t
		if f.v && t.Op == OBin {
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].intConst(); ok && v == 200 && isFieldNamed(t.Args[1-i], "StatusCode") && fromResp(t.Args[1-i]) {
					ok200 = true
				}
			}
		}
	}
	if !ok200 {
		return "a call succeeds although the status may not be 200"
	}
	p := strip(ret)
	pt, isPtr := sig.Results().At(0).Type().(*types.Pointer)
	if !isPtr || p.Op != OAlloc || !types.Identical(p.elemTyp(), pt.Elem()) {
		return "what is returned is no fresh message: " + ret.String()
	}
	var dec *Event
	for _, e := range o.St.events() {
		if e.Kind == EvStore && e.Addr.contains(func(y *Term) bool { return y == p }) && e.N > send.N {
			return "the message is changed after the request was sent"
		}
		if e.Kind != EvCall {
			continue
		}
		for i, a := range e.Args {
			if strip(a) != p {
				continue
			}
			if dec != nil || !strings.HasPrefix(baseName(e.Name), "Unmarshal") {
				return "the message is passed to " + e.Name + " besides its decoder"
			}
			dec = e
			n := len(e.Cont.Args) - len(e.Args)
			if z := e.Cont.Args[n+i]; z == nil || !isZeroMsg(z) {
				return "the message decoded into is not empty"
			}
		}
	}
	switch {
	case dec == nil:
		return "the message returned has not been decoded from the response"
	case dec.errTerm() == nil || !k.isNil(dec.errTerm()):
		return "the response may not have been decoded"
	case encName(dec.Name) != c.enc:
		return "the response is decoded as " + encName(dec.Name)
	case !fromResp(mkTuple(dec.Args)) && !fromResp(dec.Cont):
		return "what is decoded does not come from the body of the response"
	}
	if z := o.St.mem[p]; z == nil || z.Op != OSym || z.Src != p {
		return "the message has been changed after decoding"
	}
	// reads of the body that failed
	for _, e := range o.St.events() {
		if e.Kind == EvCall && e != dec && e.N > send.N && e.errTerm() != nil && k0(k, e) && baseName(e.Name) != "Close" && (fromResp(e.Recv) || fromResp(mkTuple(e.Args))) {
			return "a call succeeds although " + e.Name + " failed"
		}
	}
	return ""
}

func isFieldNamed(t *Term, name string) bool {
	if t == nil || t.Op != OField {
		return false
	}
	s := structOf(t.Args[0].Typ)
	return s != nil && int(t.Off) < s.NumFields() && s.Field(int(t.Off)).Name() == name
}

func init() {
	checks["C36"] = propCheck{checkC36, "Both constructors of RPC clients are analysed for every base URL and HTTP client, without options, and each method on what they return, for every context, message and response. On every path the HTTP request sent is followed back to the base URL, the method's path and the encoded message, and the message returned to the response's body."}
}
