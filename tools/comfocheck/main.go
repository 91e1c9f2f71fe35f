package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

type propCheck struct {
	fn      func(A *Analysis, r *Rep)
	explain string
}

var checks = map[string]propCheck{}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence is written")
	prop := flag.String("prop", "", "property to check (or: all)")
	dump := flag.String("dump", "", "dump the paths of roots with this prefix")
	facts := flag.Bool("facts", false, "print facts about the RPC interface")
	codecs := flag.Bool("codec", false, "say which functions on bytes are proven to be the escaper or unescaper")
	sum := flag.Bool("sum", false, "summary of all roots")
	flag.BoolVar(&debugPanics, "panics", false, "")
	flag.Parse()
	t := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	var ids []string
	if *prop == "all" {
		for i := 1; i < 60; i++ {
			id := fmt.Sprintf("C%02d", i)
			if _, ok := checks[id]; ok {
				ids = append(ids, id)
			}
		}
	} else if *prop != "" {
		for _, id := range strings.Split(*prop, ",") {
			if _, ok := checks[id]; !ok {
				fmt.Fprintln(os.Stderr, "no check for", id)
				os.Exit(2)
			}
			ids = append(ids, id)
		}
	}
	P, err := loadProgram(*repo)
	if err != nil {
		if len(ids) > 0 {
			A := &Analysis{P: &Program{dir: *repo}, roots: map[string]*Root{}}
			rc := 0
			for _, id := range ids {
				r := newRep(id, A)
				r.undecided("program", "the repository cannot be loaded: "+err.Error())
				rc = max(rc, r.finish(*verif, tier, seed, time.Since(t).Seconds(), checks[id].explain))
			}
			os.Exit(rc)
		}
		fmt.Println(err)
		os.Exit(2)
	}
	A := newAnalysis(P)
	if *codecs {
		for _, f := range P.all {
			if len(f.Params) == 1 && isByteSlice(f.Params[0].Type()) && f.Signature.Results().Len() == 1 && isByteSlice(f.Signature.Results().At(0).Type()) {
				fmt.Printf("%s: escaper: %v; unescaper: %v\n", fnName(f), P.codecProof(f, false), P.codecProof(f, true))
				fmt.Println("  safe:", P.codecSafe[f])
			}
		}
	}
	if len(ids) > 0 {
		rc := 0
		for _, id := range ids {
			t1 := time.Now()
			r := newRep(id, A)
			func() {
				defer func() {
					if x := recover(); x != nil {
						if debugPanics {
							panic(x)
						}
						r.undecided("check", fmt.Sprintf("internal error: %v", x))
					}
				}()
				for _, n := range P.notes {
					r.undecided("initialisers", n)
				}
				checks[id].fn(A, r)
			}()
			w := time.Since(t1).Seconds()
			if len(ids) == 1 {
				w = time.Since(t).Seconds()
			}
			rc = max(rc, r.finish(*verif, tier, seed, w, checks[id].explain))
		}
		os.Exit(rc)
	}
	if *facts {
		A.printFacts()
		return
	}
	if *dump != "" || *sum {
		fmt.Println(P.notes)
		A.libRoots()
		A.exchangeRoots()
		A.libOther()
		A.handlerRoots()
		A.workerRoots()
		A.mainRoot()
		A.srvFnRoots()
		A.rpcServer()
		A.goClients()
		for _, k := range A.order {
			r := A.roots[k]
			if *dump != "" && strings.HasPrefix(k, *dump) {
				r.dump(P)
			} else if *sum {
				fmt.Printf("%-50s paths=%d steps=%d loops=%d err=%s\n", k, len(r.Outs), r.In.steps, len(r.Iters), r.Err)
			}
		}
		fmt.Println(time.Since(t))
	}
}
