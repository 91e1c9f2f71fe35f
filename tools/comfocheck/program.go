package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func itoa(v int64) string { return strconv.FormatInt(v, 10) }

const modPath = "github.com/ti-mo/comfo"

// Program is the type-checked source of the repository in SSA form, with what
// is known about its package variables.
type Program struct {
	dir     string
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    []*packages.Package
	Lib     *ssa.Package
	Srv     *ssa.Package
	Rpc     *ssa.Package
	Main    *ssa.Package
	repoPkg map[*ssa.Package]bool
	all     []*ssa.Function // functions of the repository, with closures

	inInit    bool
	initMem   map[*Term]*Term
	initChans map[*Term]*chanState
	initEnd   map[string]*State
	mutable   map[*Term]bool
	initPkg   map[*Term]*ssa.Package // package whose initialiser made it
	private   map[*Term]bool
	protects  map[*Term]map[*Term]byte
	errType   types.Type
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	storedG   map[*ssa.Global]token.Pos // package variables stored to after start-up
	codecs    map[codecKey]error
	regions   map[regionKey]error
	codecSafe map[*ssa.Function]bool // proven not to index out of range
	models    *ssa.Package           // functions of package bytes, for codecs
	notes     []string
}

func loadProgram(dir string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule | packages.NeedTypesSizes,
		Dir:  dir, Env: env,
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	P := &Program{dir: dir, fset: prog.Fset, prog: prog, pkgs: pk, repoPkg: map[*ssa.Package]bool{},
		initMem: map[*Term]*Term{}, initPkg: map[*Term]*ssa.Package{}, initChans: map[*Term]*chanState{}, mutable: map[*Term]bool{}, private: map[*Term]bool{},
		protects: map[*Term]map[*Term]byte{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, storedG: map[*ssa.Global]token.Pos{}, initEnd: map[string]*State{}}
	for i, p := range pk {
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.repoPkg[sp[i]] = true
		switch p.PkgPath {
		case modPath + "/libcomfo":
			P.Lib = sp[i]
		case modPath + "/comfoserver":
			P.Srv = sp[i]
		case modPath + "/rpc/comfo":
			P.Rpc = sp[i]
		case modPath:
			P.Main = sp[i]
		}
	}
	if P.Lib == nil || P.Srv == nil || P.Rpc == nil || P.Main == nil {
		return nil, fmt.Errorf("packages of the repository not found")
	}
	prog.Build()
	for p := range prog.AllPackages() {
		_ = p
	}
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
				P.errType = types.NewPointer(o.Type())
			}
		}
	}
	if P.errType == nil {
		P.errType = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorString", nil), types.NewStruct(nil, nil), nil))
	}
	P.collect()
	P.scanStores()
	P.runInits()
	return P, nil
}

func (P *Program) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		P.all = append(P.all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for p := range P.repoPkg {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := P.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(P.all, func(i, j int) bool { return P.all[i].Pos() < P.all[j].Pos() })
}

func (P *Program) isRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil && f.Synthetic != "" {
		// method values and expressions, promoted methods
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return P.repoPkg[f.Prog.Package(o.Pkg())]
		}
	}
	return f.Pkg != nil && P.repoPkg[f.Pkg]
}

func (P *Program) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := P.fset.Position(p)
	r, err := filepath.Rel(P.dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// scanStores finds package variables that are written, or whose address is
// taken for anything but reading, outside start-up code.
func (P *Program) scanStores() {
	for _, f := range P.all {
		if isInitFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if P.globalUseWrites(g, i, 0) {
						if _, ok := P.storedG[g]; !ok {
							P.storedG[g] = i.Pos()
						}
					}
				}
			}
		}
	}
	for g := range P.storedG {
		P.mutable[mkGlobal(g)] = true
	}
}

// globalUseWrites: may instruction i, using address v, write through it?
func (P *Program) globalUseWrites(v ssa.Value, i ssa.Instruction, d int) bool {
	if d > 8 {
		return true
	}
	switch i := i.(type) {
	case *ssa.Store:
		return i.Addr == v || i.Val == v
	case *ssa.UnOp:
		return false
	case *ssa.DebugRef:
		return false
	case *ssa.FieldAddr, *ssa.IndexAddr:
		iv := i.(ssa.Value)
		if isSyncType(iv.Type().Underlying().(*types.Pointer).Elem()) {
			return false
		}
		for _, r := range *iv.Referrers() {
			if P.globalUseWrites(iv, r, d+1) {
				return true
			}
		}
		return false
	case ssa.CallInstruction:
		c := i.Common()
		if f := c.StaticCallee(); f != nil {
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" || f.Pkg == nil {
				if pt, ok := v.Type().Underlying().(*types.Pointer); ok && isSyncType(pt.Elem()) {
					return false
				}
			}
			if len(f.Blocks) > 0 && P.isRepo(f) && len(f.Params) == len(c.Args) {
				for j, a := range c.Args {
					if a == v {
						for _, r := range *f.Params[j].Referrers() {
							if P.globalUseWrites(f.Params[j], r, d+1) {
								return true
							}
						}
					}
				}
				return false
			}
		}
		return true
	}
	return true
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// runInits evaluates the package initialisers, so that variables set only
// there have known contents.
func (P *Program) runInits() {
	for _, p := range []*ssa.Package{P.Lib, P.Srv, P.Main} {
		P.runInit(p)
	}
}

func (P *Program) runInit(p *ssa.Package) {
	in := newInterp(P)
	in.maxSteps = 200000
	defer func() {
		P.inInit = false
		if r := recover(); r != nil {
			if u, ok := r.(undecidedErr); ok {
				P.notes = append(P.notes, "initialiser of "+p.Pkg.Path()+" not evaluated: "+u.msg)
				return
			}
			panic(r)
		}
	}()
	P.inInit = true
	st := newState()
	f := p.Func("init")
	outs := in.callFn(st, nil, f, nil, nil, f.Pos())
	P.inInit = false
	var rets []*State
	for _, o := range outs {
		if o.Kind == KRet {
			rets = append(rets, o.St)
		}
	}
	if len(rets) == 0 {
		P.notes = append(P.notes, "initialiser of "+p.Pkg.Path()+" does not return")
		return
	}
	P.initEnd[p.Pkg.Path()] = rets[0]
	for r := range rets[0].mem {
		if _, ok := P.initPkg[r]; !ok {
			P.initPkg[r] = p
		}
	}
	for r, c := range rets[0].mem {
		same := true
		for _, s := range rets[1:] {
			if s.mem[r] != c {
				same = false
			}
		}
		if same {
			P.initMem[r] = c
		} else {
			P.mutable[r] = true
			P.initMem[r] = c
		}
	}
	for c, s := range rets[0].chans {
		P.initChans[c] = s
		P.initMem[c] = zeroTerm(types.Typ[types.Int])
	}
}

func newInterp(P *Program) *Interp {
	return &Interp{P: P, maxSteps: 10000000, entered: map[*ssa.Function]bool{}}
}

// protected: a held lock keeps other goroutines from changing this memory.
func (P *Program) protected(r *Term, held []Held) bool {
	for _, h := range held {
		if h.Lock.root() == r {
			return true
		}
		if m, ok := P.protects[r]; ok {
			if _, ok := m[h.Lock]; ok {
				return true
			}
		}
	}
	return false
}

var purePkgs = []string{
	"fmt.", "strings.", "errors.", "strconv.", "time.", "math.", "log.", "log/slog.", "unicode", "bytes.",
	"github.com/twitchtv/twirp.", "net/http.", "net.", "path.", "os.", "context.", "github.com/spf13/", "github.com/gorilla/mux.",
	"github.com/tarm/serial.", "google.golang.org/", "sync/atomic.", "net/url.", "encoding/json.", "io.", "mime.",
}

// isPure: a foreign function that does not write memory of its caller through
// its arguments.
func (P *Program) isPure(name string, f *ssa.Function) bool {
	n := strings.TrimLeft(name, "(*")
	base := name[strings.LastIndex(name, ".")+1:]
	switch base {
	case "Read", "ReadAt", "ReadFull", "ReadAtLeast", "ReadFrom", "CopyBuffer", "Unmarshal", "Decode", "Scan", "Scanf", "Scanln", "Sscan", "Sscanf", "Sscanln", "Fscan", "Fscanf", "Fscanln",
		"Sort", "Reverse", "Slice", "Stable", "As", "EncodeRune", "Encode":
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.HasPrefix(n, modPath) {
		return true
	}
	if f != nil && f.Signature.Recv() == nil && strings.Contains(name, ".init") {
		return true
	}
	switch name {
	case "(io.Writer).Write", "(io.Closer).Close", "(error).Error", "(fmt.Stringer).String", "(context.Context).Done", "(context.Context).Err", "(context.Context).Value":
		return true
	}
	return false
}
