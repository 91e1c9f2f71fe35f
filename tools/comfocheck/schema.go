package main

import (
	"encoding/hex"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// The facts about the Go side of the RPC interface that the checks of the
// Python client compare with: -facts writes them as JSON.

type goField struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Tag  string `json:"tag"`
	Pos  string `json:"pos"`
}

type goMsg struct {
	Fields  []goField         `json:"fields"`
	Getters map[string]string `json:"getters"` // getter -> field it returns, or "!..." what is wrong
	Index   map[string][]int  `json:"index"`   // method -> indices of the type it uses
	Pos     string            `json:"pos"`
}

type goEnum struct {
	Consts map[string]int64 `json:"consts"`
	Names  map[string]int64 `json:"names"`  // from the _name map
	Values map[string]int64 `json:"values"` // from the _value map
	Index  map[string][]int `json:"index"`
	Pos    string           `json:"pos"`
}

type goFacts struct {
	Messages  map[string]*goMsg    `json:"messages"`
	Enums     map[string]*goEnum   `json:"enums"`
	RawDesc   string               `json:"raw_desc"`
	TwirpDesc string               `json:"twirp_desc"`
	GoTypes   []string             `json:"go_types"`
	DepIdxs   []int64              `json:"dep_idxs"`
	Builder   map[string]int64     `json:"builder"`
	Service   map[string][2]string `json:"service"`
	Listen    []string             `json:"listen"` // default listen addresses, one per way to serve; "!..." what is wrong
	Routes    map[string]string    `json:"routes"` // method -> path under which it is served
	RoutesErr []string             `json:"routes_err"`
	Functions []string             `json:"functions"`
	Err       []string             `json:"err"`
}

func (A *Analysis) facts() *goFacts {
	P := A.P
	F := &goFacts{Messages: map[string]*goMsg{}, Enums: map[string]*goEnum{}, Builder: map[string]int64{}, Service: map[string][2]string{}, Routes: map[string]string{}}
	var pk *packages.Package
	for _, p := range P.pkgs {
		if p.PkgPath == modPath+"/rpc/comfo" {
			pk = p
		}
	}
	info := pk.TypesInfo
	intOf := func(e ast.Expr) (int64, bool) {
		if tv, ok := info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
			return constant.Int64Val(tv.Value)
		}
		return 0, false
	}
	// initialisers of package variables
	vars := map[string]ast.Expr{}
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == len(vs.Names) {
					for i, n := range vs.Names {
						vars[n.Name] = vs.Values[i]
					}
				}
			}
		}
	}
	bytesOf := func(name string) string {
		cl, ok := vars[name].(*ast.CompositeLit)
		if !ok {
			F.Err = append(F.Err, name+" is not a list of bytes")
			return ""
		}
		b := make([]byte, 0, len(cl.Elts))
		for _, e := range cl.Elts {
			v, ok := intOf(e)
			if !ok {
				F.Err = append(F.Err, name+" is not a list of bytes")
				return ""
			}
			b = append(b, byte(v))
		}
		return hex.EncodeToString(b)
	}
	F.RawDesc = bytesOf("file_comfo_proto_rawDesc")
	F.TwirpDesc = bytesOf("twirpFileDescriptor0")
	if cl, ok := vars["file_comfo_proto_goTypes"].(*ast.CompositeLit); ok {
		for _, e := range cl.Elts {
			F.GoTypes = append(F.GoTypes, strings.TrimPrefix(types.TypeString(info.TypeOf(e), types.RelativeTo(pk.Types)), "*"))
		}
	}
	if cl, ok := vars["file_comfo_proto_depIdxs"].(*ast.CompositeLit); ok {
		for _, e := range cl.Elts {
			v, _ := intOf(e)
			F.DepIdxs = append(F.DepIdxs, v)
		}
	}
	// types
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		ptr := types.NewMethodSet(types.NewPointer(named))
		switch u := named.Underlying().(type) {
		case *types.Struct:
			if ptr.Lookup(pk.Types, "ProtoReflect") == nil {
				continue
			}
			m := &goMsg{Getters: map[string]string{}, Index: map[string][]int{}, Pos: P.pos(tn.Pos())}
			F.Messages[n] = m
			names := map[string]int{}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() {
					continue
				}
				names[f.Name()] = i
				m.Fields = append(m.Fields, goField{f.Name(), types.TypeString(f.Type(), types.RelativeTo(pk.Types)), u.Tag(i), P.pos(f.Pos())})
			}
			for f := range names {
				s := ptr.Lookup(pk.Types, "Get"+f)
				if s == nil {
					continue
				}
				fn := P.prog.MethodValue(s)
				if fn == nil || len(fn.Params) != 1 {
					m.Getters["Get"+f] = "!not a getter"
					continue
				}
				m.Getters["Get"+f] = A.getterField(fn, u)
				F.Functions = append(F.Functions, fnName(fn))
			}
		case *types.Basic:
			if ptr.Lookup(pk.Types, "EnumDescriptor") == nil {
				continue
			}
			e := &goEnum{Consts: map[string]int64{}, Names: map[string]int64{}, Values: map[string]int64{}, Index: map[string][]int{}, Pos: P.pos(tn.Pos())}
			F.Enums[n] = e
			for _, c := range sc.Names() {
				if k, ok := sc.Lookup(c).(*types.Const); ok && types.Identical(k.Type(), named) {
					e.Consts[c], _ = constant.Int64Val(k.Val())
				}
			}
			str := func(x ast.Expr) string {
				if tv, ok := info.Types[x]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
					return constant.StringVal(tv.Value)
				}
				return "?"
			}
			for _, suffix := range []string{"_name", "_value"} {
				cl, ok := vars[n+suffix].(*ast.CompositeLit)
				if !ok {
					F.Err = append(F.Err, n+suffix+" is not a map literal")
					continue
				}
				for _, x := range cl.Elts {
					kv, ok := x.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					if suffix == "_name" {
						v, _ := intOf(kv.Key)
						e.Names[str(kv.Value)] = v
					} else {
						v, _ := intOf(kv.Value)
						e.Values[str(kv.Key)] = v
					}
				}
			}
		}
	}
	// indices used by the methods, and the builder's counts
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			var idx map[string][]int
			if fd.Recv != nil {
				n := strings.TrimPrefix(types.TypeString(info.TypeOf(fd.Recv.List[0].Type), types.RelativeTo(pk.Types)), "*")
				if m := F.Messages[n]; m != nil {
					idx = m.Index
				} else if e := F.Enums[n]; e != nil {
					idx = e.Index
				}
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.IndexExpr:
					if id, ok := x.X.(*ast.Ident); ok && idx != nil && (id.Name == "file_comfo_proto_msgTypes" || id.Name == "file_comfo_proto_enumTypes") {
						v, ok := intOf(x.Index)
						if !ok {
							v = -1
						}
						idx[fd.Name.Name] = append(idx[fd.Name.Name], int(v))
					}
				case *ast.CompositeLit:
					if t := info.TypeOf(x); t != nil && t.String() == "[]int" && idx != nil {
						for _, e := range x.Elts {
							v, ok := intOf(e)
							if !ok {
								v = -1
							}
							idx[fd.Name.Name] = append(idx[fd.Name.Name], int(v))
						}
					}
				case *ast.KeyValueExpr:
					if id, ok := x.Key.(*ast.Ident); ok && strings.HasPrefix(id.Name, "Num") && fd.Name.Name == "file_comfo_proto_init" {
						if v, ok := intOf(x.Value); ok {
							F.Builder[id.Name] = v
						}
					}
				}
				return true
			})
		}
	}
	// service interface
	if tn, ok := sc.Lookup("Comfo").(*types.TypeName); ok {
		if it, ok := tn.Type().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				s := m.Type().(*types.Signature)
				in, out := "?", "?"
				rel := func(t types.Type) string {
					return strings.TrimPrefix(types.TypeString(t, types.RelativeTo(pk.Types)), "*")
				}
				if s.Params().Len() == 2 && s.Results().Len() == 2 {
					in, out = rel(s.Params().At(1).Type()), rel(s.Results().At(0).Type())
				}
				F.Service[m.Name()] = [2]string{in, out}
			}
		}
	}
	A.listenFacts(F)
	A.routeFacts(F)
	sort.Strings(F.Functions)
	return F
}

// getterField: the field of its receiver a getter returns.
func (A *Analysis) getterField(fn *ssa.Function, u *types.Struct) string {
	x := A.run("pbget:"+fnName(fn), fn, rootCfg{})
	if x.Err != "" {
		return "!" + x.Err
	}
	field := ""
	for i := range x.Outs {
		o := &x.Outs[i]
		if o.Kind != KRet {
			return "!a path does not return"
		}
		t := o.Ret
		if knownNil(o.St.k, x.Params[0]) {
			if v, ok := t.intConst(); ok && v == 0 {
				continue
			}
			if v, ok := t.boolConst(); ok && !v {
				continue
			}
			if v, ok := t.strConst(); ok && v == "" {
				continue
			}
			if t.Op == OZero || t.isNil() || t.Op == OConst && t.String() == "0" {
				continue
			}
			return "!a missing message gives " + t.String()
		}
		if t.Op != OField || t.Args[0].Src != x.Params[0] || int(t.Off) >= u.NumFields() {
			return "!returns " + t.String()
		}
		n := u.Field(int(t.Off)).Name()
		if field != "" && field != n {
			return "!returns " + field + " or " + n
		}
		field = n
	}
	if field == "" {
		return "!returns nothing"
	}
	return field
}

// listenFacts: the default of the setting the server's address is read from.
func (A *Analysis) listenFacts(F *goFacts) {
	P := A.P
	x := A.mainRoot()
	bad := func(s string) { F.Listen = append(F.Listen, "!"+s) }
	if x == nil || x.Err != "" {
		bad("main cannot be analysed")
		return
	}
	var initEv []*Event
	if s := P.initEnd[P.Main.Pkg.Path()]; s != nil {
		initEv = s.events()
	}
	seen := map[string]bool{}
	for _, st := range x.ends() {
		evs := st.events()
		for i, e := range evs {
			s := serveOf(e)
			if s == nil {
				continue
			}
			v := ""
			if strings.HasSuffix(e.Name, "TLS") {
				v = "!the server speaks TLS"
			} else if c, ok := s.addr.strConst(); ok {
				v = c
			} else if key, _ := confOf(s.addr); key != "" {
				v = "!no default for " + key
				flag, set := "", ""
				for _, p := range append(append([]*Event{}, initEv...), evs[:i]...) {
					if p.Kind != EvCall {
						continue
					}
					arg := func(i int) (string, bool) {
						if i >= len(p.Args) {
							return "", false
						}
						return strip(p.Args[i]).strConst()
					}
					n := p.Name[strings.LastIndex(p.Name, ".")+1:]
					if strings.Contains(p.Name, "spf13/pflag") && strings.HasPrefix(n, "String") {
						k := 0
						if strings.HasPrefix(n, "StringVar") {
							k = 1
						}
						d := k + 1
						if strings.HasSuffix(n, "P") {
							d++
						}
						if name, ok := arg(k); ok && name == key {
							if flag, ok = arg(d); !ok {
								flag = "!the default of " + key + " is not constant"
							}
						}
					}
					if strings.Contains(p.Name, "spf13/viper") && (n == "SetDefault" || n == "Set") {
						if name, ok := arg(0); ok && strings.EqualFold(name, key) {
							if set, ok = arg(1); !ok {
								set = "!the default of " + key + " is not constant"
							}
						}
					}
				}
				if set != "" {
					v = set
				} else if flag != "" {
					v = flag
				}
			} else {
				v = "!the address is not known: " + s.addr.String()
			}
			if !seen[v] {
				seen[v] = true
				F.Listen = append(F.Listen, v)
			}
		}
	}
	if len(F.Listen) == 0 {
		bad("main never serves")
	}
}

// routeFacts: the path at which the RPC server calls each method, and whether
// requests for it arrive there.
func (A *Analysis) routeFacts(F *goFacts) {
	P := A.P
	mk, sv := A.rpcServer()
	if mk == nil || sv == nil || mk.Err != "" || sv.Err != "" {
		F.RoutesErr = append(F.RoutesErr, "the RPC server cannot be analysed")
		return
	}
	methods := map[string]bool{}
	for m := range F.Service {
		methods[m] = true
	}
	impl, req := mk.Params[0], sv.Params[2]
	for i := range sv.Outs {
		o := &sv.Outs[i]
		for _, e := range o.St.events() {
			if e.Kind != EvCall || e.Recv == nil || strip(e.Recv) != impl {
				continue
			}
			n := e.Name[strings.LastIndex(e.Name, ".")+1:]
			if !methods[n] {
				continue
			}
			rf := routing(o.St.k, req, methods)
			p := "?"
			if rf.svc && rf.prefix && rf.method != "" {
				p = rpcPath + rf.method
			}
			if q, ok := F.Routes[n]; ok && q != p {
				p = "?"
			}
			F.Routes[n] = p
		}
	}
	x := A.mainRoot()
	any := false
	for _, st := range x.ends() {
		for _, e := range st.events() {
			s := serveOf(e)
			if s == nil {
				continue
			}
			any = true
			r := newRep("facts", A)
			svc, why := A.mounted(r, x, st, e, s.handler)
			if why == "" {
				c := deref(x.In, st, svc)
				if c == nil {
					why = "the RPC server's content is not known"
				} else if p, ok := contField(c, "pathPrefix").strConst(); !ok || p+"/comfo.api.Comfo/" != rpcPath {
					why = "the RPC server may be set up for another path prefix than /twirp"
				}
			}
			if why != "" {
				F.RoutesErr = append(F.RoutesErr, why)
			}
		}
	}
	if !any {
		F.RoutesErr = append(F.RoutesErr, "main never serves")
	}
	if len(F.RoutesErr) > 5 {
		F.RoutesErr = F.RoutesErr[:5]
	}
	_ = P
}

func (A *Analysis) printFacts() {
	b, _ := json.MarshalIndent(A.facts(), "", " ")
	os.Stdout.Write(append(b, '\n'))
}
