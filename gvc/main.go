package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	repoDir := flag.String("repo", "/repo", "repository")
	specDir := flag.String("spec", "/verif/spec", "specifications")
	fnSel := flag.String("fn", "", "verify the named functions only (comma separated)")
	prop := flag.String("prop", "", "property to check")
	dump := flag.Bool("ssa", false, "print SSA of the selected functions")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list targets")
	qt := flag.Int("qt", 2, "quick timeout (s)")
	flag.String("verif", "/verif", "framework directory")
	funcs := flag.Bool("functions", false, "print the functions of the repository")
	layerOut := flag.String("layer", "", "write the results of the property to this file, for the check of another one")
	tm := flag.Int("t", 10, "timeout (s)")
	budget := flag.Int("budget", 400, "seconds of solving before failures are looked into")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("GVC_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	start := time.Now()
	repo, err := loadRepo(*repoDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	initTags(repo)
	spec := loadSpec(*specDir)
	if *prop != "" {
		spec.restrict(*prop)
	}
	eng := newEngine(repo, spec)
	eng.verbose = *verbose
	eng.quickTmo = time.Duration(*qt) * time.Second
	eng.tmo = time.Duration(*tm) * time.Second
	eng.budget = *budget
	eng.layerOut = *layerOut
	verif := flag.Lookup("verif").Value.String()
	eng.bindRenamed(filepath.Join(*specDir, "functions.txt"))
	eng.prepareInit()
	eng.collectTargets()
	if *funcs {
		for _, n := range sortedKeys(repo.funcs) {
			if f := repo.funcs[n]; eng.inRepo(f) {
				fmt.Println(n + "\t" + sigString(f.Signature))
			}
		}
		return
	}
	if *prop != "" && *fnSel == "" {
		rc := eng.runProp(*prop, verif, start)
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	if *dump {
		for _, n := range strings.Split(*fnSel, ",") {
			if f := repo.funcs[n]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", n)
			}
		}
		return
	}
	if *list {
		for _, t := range eng.targets {
			fmt.Println(fnName(t.fn), t.con.name)
		}
		return
	}
	var rs []*FnResult
	for _, t := range eng.targets {
		if *fnSel != "" && *fnSel != "all" {
			ok := false
			for _, n := range strings.Split(*fnSel, ",") {
				if n == fnName(t.fn) || strings.HasSuffix(n, "*") && strings.HasPrefix(fnName(t.fn), n[:len(n)-1]) || n == t.con.name {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		rs = append(rs, eng.verify(t))
	}
	for _, l := range spec.lemmas {
		if *fnSel == "all" || *fnSel == "lemmas" || *fnSel == l.name {
			rs = append(rs, eng.verifyLemma(l))
		}
	}
	gen := time.Since(start)
	eng.discharge(rs)
	for _, o := range eng.initObls {
		if o.Status != "proved" {
			fmt.Println("INIT", o.Name, o.Output)
		}
	}
	for _, m := range eng.missing {
		fmt.Println("MISSING", m)
	}
	tot, bad := 0, 0
	for _, r := range rs {
		nb := 0
		for _, o := range r.obls {
			tot++
			if o.Status != "proved" {
				nb++
			}
		}
		bad += nb
		mark := "ok"
		if nb > 0 || r.limit != "" {
			mark = "FAIL"
		}
		fmt.Printf("%-5s %s: %d obligations, %d failed (%d ms gen)\n", mark, r.name, len(r.obls), nb, r.ms)
		if r.limit != "" {
			fmt.Println("      limit:", r.limit)
		}
		for _, o := range r.obls {
			if o.Status != "proved" {
				fmt.Printf("      %s  %s [%s] %s\n", o.Status, o.Name, o.Pos, o.Src)
				if *verbose {
					fmt.Println(indent(o.Output))
				}
			}
		}
		if *verbose {
			for _, n := range r.notes {
				fmt.Println("      note:", n)
			}
		}
	}
	fmt.Printf("%d functions, %d obligations, %d failed; gen %v total %v; %d queries %d ms\n", len(rs), tot, bad, gen, time.Since(start), statQueries, statSolverMs)
}

func indent(s string) string {
	return "          " + strings.ReplaceAll(s, "\n", "\n          ")
}
