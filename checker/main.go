// Command crossplanecheck decides properties of nginx-go-crossplane from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"

	"crossplanecheck/internal/checks"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"
)

func main() {
	prop := flag.String("prop", "", "property id, or a list separated by commas, or all")
	repo := flag.String("repo", "/repo", "the tree to analyse")
	verif := flag.String("verif", ".", "where evidence and the known findings are")
	list := flag.Bool("list", false, "list the checks")
	gen := flag.String("gen-ref", "", "write the reference of the directive tables to this file")
	try := flag.String("try", "", "run the abstract interpreter on a function and print what it finds")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *list {
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *gen != "" {
		p, err := load.Load(*repo)
		if err == nil {
			err = checks.WriteRef(p, *gen)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	if *try != "" {
		p, err := load.Load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range strings.Split(*try, ",") {
			fmt.Println("==", n)
			checks.Try(p, n)
		}
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = checks.IDs()
	}
	if len(ids) == 1 {
		checks.Only = ids[0]
	}
	known := rep.ReadKnown(*verif + "/known-findings.txt")
	p, err := load.Load(*repo)
	code := 0
	for _, id := range ids {
		r := rep.New(id, tier, seed)
		if err != nil {
			r.Explanation = "the source could not be loaded"
			r.Fail("load", "-", "the source cannot be analysed: %v", err)
		} else {
			run(p, id, r)
		}
		if c := r.Finish(*verif, known); c > code {
			code = c
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func run(p *load.Prog, id string, r *rep.R) {
	defer func() {
		if e := recover(); e != nil {
			r.Fail("internal", "-", "the analysis failed, nothing is decided: %v\n%s", e, debug.Stack())
		}
	}()
	c := checks.Get(id)
	if c == nil {
		r.Fail("internal", "-", "no check for %s", id)
		return
	}
	c.Run(p, r)
}
