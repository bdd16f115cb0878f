// gsesa decides semantic properties of go-ego/gse from its source.
//
//	gsesa -prop C01 -repo /repo -verif /verif
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type checkFn func(*Ctx)

var checks = map[string]checkFn{}

// hidden checks are development tools and not part of "all".
var hidden = map[string]bool{}

func register(id string, f checkFn) { checks[id] = f }

func main() {
	prop := flag.String("prop", "", "property id, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verif dir")
	noev := flag.Bool("noev", false, "do not write evidence and replay files")
	verbose := flag.Bool("v", false, "print all obligations")
	dbg := flag.String("debug", "", "debug function")
	flag.Parse()
	debugFn = *dbg

	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range checks {
			if !hidden[id] {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
	}
	rc := 0
	var w *World
	for _, id := range ids {
		f, ok := checks[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "no check %q\n", id)
			os.Exit(2)
		}
		t0 := time.Now()
		r := &Report{Prop: id, Verif: *verif, Tier: os.Getenv("VERIF_TIER")}
		if r.Tier == "" {
			r.Tier = "quick"
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Fail("analysis", "internal", "", fmt.Sprintf("the analysis did not complete: %v\n%s", e, debug.Stack()))
				}
			}()
			if w == nil {
				var err error
				w, err = load(*repo)
				if err != nil {
					r.Fail("load", "program", "", err.Error())
					w = nil
					return
				}
			}
			f(&Ctx{World: w, R: r})
		}()
		if r.Finish(time.Since(t0).Seconds(), *noev, *verbose) {
			rc = 1
		}
	}
	os.Exit(rc)
}
