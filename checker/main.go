package main

import (
	"flag"
	"fmt"
	"os"
	rdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Prop is one property's decision procedure.
type Prop struct {
	id          string
	explanation string
	rules       []string
	assumptions []string
	run         func(w *World, a *Anchors, r *Report)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.id] = p }

// registerDebug registers a helper that is reachable only while developing.
func registerDebug(p *Prop) {
	if os.Getenv("CC_DEV") != "" {
		props[p.id] = p
	}
}

var debug = os.Getenv("CC_DEBUG") != ""

func main() {
	dir := flag.String("dir", "/verif", "verification directory")
	repo := flag.String("repo", "/repo", "repository under analysis")
	flag.Parse()
	rdebug.SetGCPercent(300)
	var ids []string
	for _, id := range flag.Args() {
		if id == "all" {
			for k := range props {
				ids = append(ids, k)
			}
			sort.Strings(ids)
			continue
		}
		if props[id] == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		ids = append(ids, id)
	}
	if f := os.Getenv("CC_PROF"); f != "" {
		o, _ := os.Create(f)
		_ = pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	w, err := Load(*repo)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		os.Exit(2)
	}
	rc := 0
	for _, id := range ids {
		p := props[id]
		checkDeadline = time.Now().Add(600 * time.Second)
		r := NewReport(w, id)
		a := w.anchors()
		p.run(w, a, r)
		if c := r.Finish(*dir, "other", p.explanation, p.rules, append([]string{}, p.assumptions...)); c > rc {
			rc = c
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func dbg(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, strings.TrimSuffix(f, "\n")+"\n", a...)
	}
}
