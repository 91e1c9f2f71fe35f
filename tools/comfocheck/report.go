package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A Finding is one violated obligation: a rule at a construct.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Where     string   `json:"where"`
	Message   string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

func (f *Finding) key() string { return f.Rule + "|" + f.Construct }

type ruleStat struct {
	text        string
	obligations int
	discharged  int
	sites       map[string]bool
}

// Rep collects what a check looked at and what it found.
type Rep struct {
	ID       string
	A        *Analysis
	rules    map[string]*ruleStat
	order    []string
	findings map[string]*Finding
	forder   []string
	roots    map[string]*Root
	samples  []string
	undec    bool
}

func newRep(id string, A *Analysis) *Rep {
	return &Rep{ID: id, A: A, rules: map[string]*ruleStat{}, findings: map[string]*Finding{}, roots: map[string]*Root{}}
}

// rule declares a rule and what it demands.
func (r *Rep) rule(name, text string) {
	if _, ok := r.rules[name]; !ok {
		r.rules[name] = &ruleStat{text: text, sites: map[string]bool{}}
		r.order = append(r.order, name)
	}
}

func (r *Rep) add(f *Finding) {
	if _, ok := r.findings[f.key()]; !ok {
		r.findings[f.key()] = f
		r.forder = append(r.forder, f.key())
	}
}

// check records one obligation of a rule at a construct.
func (r *Rep) check(rule, construct string, pos token.Pos, ok bool, st *State, format string, a ...any) bool {
	s := r.rules[rule]
	if s == nil {
		r.rule(rule, "")
		s = r.rules[rule]
	}
	s.obligations++
	s.sites[construct] = true
	if ok {
		s.discharged++
		if len(r.samples) < 12 && len(s.sites) <= 2 && s.obligations <= 2 {
			r.samples = append(r.samples, rule+": "+construct+" at "+r.A.P.pos(pos))
		}
		return true
	}
	f := &Finding{Rule: rule, Construct: construct, Where: r.A.P.pos(pos), Message: fmt.Sprintf(format, a...)}
	if _, dup := r.findings[f.key()]; !dup && st != nil {
		f.Path = r.A.P.trace(st)
	}
	r.add(f)
	return false
}

// atLeast guards against rules that match nothing.
func (r *Rep) atLeast(rule string, n int) {
	s := r.rules[rule]
	have := 0
	if s != nil {
		have = len(s.sites)
	}
	if have < n {
		r.add(&Finding{Rule: "instances", Construct: rule, Where: "-", Message: fmt.Sprintf("rule %s applied to %d constructs, at least %d expected: an anchor is missing", rule, have, n)})
	}
}

// borrow applies rules of another property's check here too, because what
// breaks them breaks this property as well.
func (r *Rep) borrow(from string, f func(*Analysis, *Rep), rules ...string) {
	sub := newRep(from, r.A)
	f(r.A, sub)
	for _, n := range rules {
		s := sub.rules[n]
		if s == nil {
			continue
		}
		name := from + "/" + n
		r.rule(name, s.text)
		d := r.rules[name]
		d.obligations += s.obligations
		d.discharged += s.discharged
		for c := range s.sites {
			d.sites[c] = true
		}
		for _, k := range sub.forder {
			if g := sub.findings[k]; g.Rule == n {
				r.add(&Finding{Rule: name, Construct: g.Construct, Where: g.Where, Message: g.Message, Path: g.Path})
			}
		}
	}
}

func (r *Rep) undecided(construct, msg string) {
	r.undec = true
	r.add(&Finding{Rule: "undecided", Construct: construct, Where: "-", Message: msg})
}

// use notes the analysed roots and reports those that could not be decided.
func (r *Rep) use(roots ...*Root) []*Root {
	var ok []*Root
	for _, x := range roots {
		if x == nil {
			continue
		}
		r.roots[x.Name] = x
		if x.Err != "" {
			r.undecided(x.Name, x.Err)
			continue
		}
		ok = append(ok, x)
	}
	return ok
}

func (P *Program) trace(st *State) []string {
	var t []string
	last := ""
	for _, e := range st.events() {
		var s string
		switch e.Kind {
		case EvCall:
			s = "call " + e.Name
		case EvEnter:
			s = "enter " + e.Name
		case EvLock:
			s = "lock " + lockName(P, e.Addr)
		case EvUnlock:
			s = "unlock " + lockName(P, e.Addr)
		case EvStore:
			s = "store " + e.Addr.String()
		case EvSend:
			s = "send"
		case EvRecv:
			s = "receive"
		case EvGo:
			s = "go " + e.Name
		case EvExit:
			s = "exit"
		case EvLoop:
			s = "loop"
		default:
			continue
		}
		s = P.pos(e.Pos) + " " + s
		if s != last {
			t = append(t, s)
		}
		last = s
	}
	if len(t) > 60 {
		t = append(append([]string{}, t[:20]...), append([]string{"..."}, t[len(t)-39:]...)...)
	}
	return t
}

// known findings: lines "known: property=ID key=RULE|CONSTRUCT what fails".
func loadKnown(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		p := "known: property=" + id + " key="
		if !strings.HasPrefix(l, p) {
			continue
		}
		rest := strings.TrimPrefix(l, p)
		if !strings.HasPrefix(rest, "\"") {
			continue
		}
		if i := strings.Index(rest[1:], "\""); i >= 0 {
			m[rest[1:1+i]] = strings.TrimSpace(rest[i+2:])
		}
	}
	return m
}

// finish writes the evidence and the verdict; it returns the exit status.
func (r *Rep) finish(verif, tier string, seed int, wall float64, explain string) int {
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), r.ID)
	var viol, kn []*Finding
	for _, k := range r.forder {
		f := r.findings[k]
		if _, ok := known[k]; ok {
			kn = append(kn, f)
			continue
		}
		viol = append(viol, f)
	}
	type rs struct {
		Rule        string   `json:"rule"`
		Text        string   `json:"text"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Sites       int      `json:"constructs"`
		Examples    []string `json:"examples"`
	}
	var rules []rs
	obl, dis := 0, 0
	for _, n := range r.order {
		s := r.rules[n]
		var ex []string
		for k := range s.sites {
			ex = append(ex, k)
		}
		sort.Strings(ex)
		if len(ex) > 30 {
			ex = ex[:30]
		}
		rules = append(rules, rs{n, s.text, s.obligations, s.discharged, len(s.sites), ex})
		obl += s.obligations
		dis += s.discharged
	}
	var roots []string
	fns := map[string]bool{}
	paths, steps, loops := 0, 0, 0
	for n, x := range r.roots {
		roots = append(roots, n)
		paths += len(x.Outs)
		for _, l := range x.Iters {
			paths += len(l.Iters)
		}
		steps += x.In.steps
		loops += len(x.Iters)
		for f := range x.In.entered {
			fns[fnName(f)] = true
		}
	}
	sort.Strings(roots)
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"explanation":        explain,
		"rules":              rules,
		"obligations":        obl,
		"discharged":         dis,
		"roots":              roots,
		"functions_analysed": fl,
		"paths":              paths,
		"ssa_steps":          steps,
		"loops_summarised":   loops,
		"samples":            r.samples,
		"violations":         viol,
		"known_findings":     kn,
	}
	ev := map[string]any{"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, r.ID+".json")
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d rules, %d obligations (%d discharged) on %d roots, %d functions, %d paths\n", r.ID, len(rules), obl, dis, len(roots), len(fl), paths)
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", r.ID, f.Rule+" "+f.Construct, f.Where, known[f.key()])
	}
	if len(viol) == 0 {
		return 0
	}
	rf := filepath.Join(dir, r.ID+".violations.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: rule %s, construct %s: %s\n", f.Where, f.Rule, f.Construct, f.Message)
		for _, p := range f.Path {
			fmt.Fprintf(&sb, "    %s\n", p)
		}
	}
	os.WriteFile(rf, []byte(sb.String()), 0o644)
	for i, f := range viol {
		if i == 20 {
			fmt.Printf("... %d more in %s\n", len(viol)-i, rf)
			break
		}
		fmt.Printf("%s: rule %s, construct %s: %s\n", f.Where, f.Rule, f.Construct, f.Message)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rf)
	return 1
}

// lockName names a lock for people.
func lockName(P *Program, l *Term) string {
	if l == nil {
		return "?"
	}
	if l.Op == OAlloc {
		for _, p := range []string{"Lib", "Srv", "Main"} {
			_ = p
		}
		for r, c := range P.initMem {
			if r.Op == OGlobal && c == l {
				return r.Obj.(interface{ Name() string }).Name()
			}
		}
	}
	return strings.TrimPrefix(l.String(), "&")
}
