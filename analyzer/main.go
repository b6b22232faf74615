package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type checkFn func(P *Prog) *Result

var checks = map[string]checkFn{}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id, or comma separated ids, or all")
	flag.Parse()
	debug.SetGCPercent(300)
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	for _, id := range ids {
		if checks[id] == nil {
			fmt.Println("error: no check for", id)
			os.Exit(2)
		}
	}
	P, err := loadProg(*repo, *verif+"/analyzer/deps.sum")
	if err != nil {
		// a tree that cannot be type-checked is undecided, and undecided is not "holds"
		for _, id := range ids {
			r := newResult()
			r.Obligations++
			r.add(Finding{Rule: "undecided", Func: "-", Construct: "program", Msg: "cannot load the program: " + err.Error()})
			report(&Prog{}, id, *verif, r, start)
		}
		os.Exit(1)
	}
	code := 0
	for _, id := range ids {
		if len(ids) > 1 {
			start = time.Now()
		}
		r := safely(checks[id], P)
		c := report(P, id, *verif, r, start)
		if c > code {
			code = c
		}
	}
	os.Exit(code)
}

// safely turns a crash of a rule into a finding: an undecided obligation must not pass.
func safely(f checkFn, P *Prog) (r *Result) {
	if os.Getenv("PS_PANIC") == "" {
		defer func() {
			if e := recover(); e != nil {
				r = newResult()
				r.Obligations++
				r.add(Finding{Rule: "undecided", Func: "-", Construct: "analysis failed", Msg: fmt.Sprint(e)})
			}
		}()
	}
	return f(P)
}
