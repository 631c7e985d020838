package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

// bindRenamed: a contract whose function is gone is bound to the one new function (absent from the recorded
// list) with the same signature, if there is exactly one.
func (e *Engine) bindRenamed(listFile string) {
	b, err := os.ReadFile(listFile)
	if err != nil {
		return
	}
	known := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		known[strings.SplitN(strings.TrimSpace(l), "\t", 2)[0]] = true
	}
	sigs := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if p := strings.SplitN(strings.TrimSpace(l), "\t", 2); len(p) == 2 {
			sigs[p[0]] = p[1]
		}
	}
	for _, n := range sortedKeys(e.spec.contracts) {
		c := e.spec.contracts[n]
		if c.kind != "contract" || e.repo.funcs[n] != nil || sigs[n] == "" {
			continue
		}
		var cand []string
		for _, m := range sortedKeys(e.repo.funcs) {
			f := e.repo.funcs[m]
			if known[m] || f.Blocks == nil || !e.inRepo(f) || e.spec.contracts[m] != nil {
				continue
			}
			if sigString(f.Signature) == sigs[n] {
				cand = append(cand, m)
			}
		}
		if len(cand) == 1 {
			delete(e.spec.contracts, n)
			c.name = cand[0]
			e.spec.contracts[cand[0]] = c
			e.renamed = append(e.renamed, n+" -> "+cand[0])
		}
	}
}

func sigString(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Name() }
	r := ""
	if s.Recv() != nil {
		r = types.TypeString(s.Recv().Type(), q) + "."
	}
	return r + types.TypeString(types.NewTuple(varsOf(s.Params())...), q) + types.TypeString(types.NewTuple(varsOf(s.Results())...), q)
}

func varsOf(t *types.Tuple) []*types.Var {
	var out []*types.Var
	for i := 0; i < t.Len(); i++ {
		out = append(out, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return out
}

// restrict drops the clauses that are marked as serving other properties only, both where they would be
// proved and where they would be assumed.
func (s *Spec) restrict(p string) {
	keep := func(cs []*Clause) []*Clause {
		var out []*Clause
		for _, c := range cs {
			if len(c.tags) == 0 || hasTag(c.tags, p) {
				out = append(out, c)
			}
		}
		return out
	}
	for _, c := range s.contracts {
		c.requires = keep(c.requires)
		c.ensures = keep(c.ensures)
		c.panics = keep(c.panics)
		c.invs = keep(c.invs)
		c.cases = keep(c.cases)
		c.hints = keep(c.hints)
	}
}

type propFail struct {
	Obligation string `json:"obligation"`
	Kind       string `json:"kind"`
	Pos        string `json:"at"`
	Clause     string `json:"clause,omitempty"`
	Status     string `json:"status"`
	Output     string `json:"verifier_output"`
}

// runProp verifies one property and returns the exit code.
func (e *Engine) runProp(p, verif string, start time.Time) int {
	byCon := map[*Contract][]*Target{}
	for _, t := range e.targets {
		byCon[t.con] = append(byCon[t.con], t)
	}
	usedExtern := map[string]bool{}
	direct := 0
	// verifyAll verifies the functions under a contract of p and, transitively, the contracts they rely on.
	verifyAll := func(only map[string]bool) []*FnResult {
		var rs []*FnResult
		pl := newPool()
		var groups []*oblGroup
		done := map[*Target]bool{}
		var work []*Target
		for _, t := range e.targets {
			if hasTag(allTags(t.con), p) {
				work = append(work, t)
			}
		}
		direct = len(work)
		for len(work) > 0 {
			t := work[0]
			work = work[1:]
			if done[t] || only != nil && !only[t.fn.String()+"/"+t.con.name] {
				continue
			}
			done[t] = true
			r := e.verify(t)
			r.target = t
			groups = append(groups, e.submit(pl, r)...)
			rs = append(rs, r)
			var us []*Contract
			for c := range r.used {
				us = append(us, c)
			}
			sort.Slice(us, func(i, j int) bool { return us[i].name < us[j].name })
			for _, c := range us {
				if c.layer != "" && c.layer != p {
					e.startLayer(c.layer)
					continue
				}
				ts := byCon[c]
				if len(ts) == 0 {
					usedExtern[c.kind+" "+c.name] = true
				}
				work = append(work, ts...)
			}
		}
		for _, l := range e.spec.lemmas {
			if hasTag(allTags(l), p) {
				direct++
				if only == nil || only["lemma/"+l.name] {
					r := e.verifyLemma(l)
					r.lemma = l.name
					groups = append(groups, e.submit(pl, r)...)
					rs = append(rs, r)
				}
			}
		}
		e.finish(pl, groups)
		return rs
	}
	solverDeadline = start.Add(time.Duration(e.budget) * time.Second)
	rs := verifyAll(nil)
	found, searched, input := false, false, ""
	layers := e.waitLayers()
	if again := failedIn(rs); (len(again) > 0 || failedLayer(layers)) && os.Getenv("GVC_ONCE") == "" {
		if e.layerOut == "" {
			found, input = e.searchInput(p, verif)
			searched = true
		}
		if !found && len(again) > 0 {
			// No input shows it: give the solvers four times as long before reporting it.
			e.quickTmo *= 4
			e.tmo *= 4
			solverDeadline = start.Add(800 * time.Second)
			retried := verifyAll(again)
			byKey := map[string]*FnResult{}
			for _, r := range retried {
				byKey[r.key()] = r
			}
			for i, r := range rs {
				if n := byKey[r.key()]; n != nil && r.failed() {
					rs[i] = n
				}
			}
		}
	}
	var obls []*Obl
	for _, r := range rs {
		obls = append(obls, r.obls...)
	}
	obls = append(obls, e.initObls...)
	var fails []propFail
	back := map[string]int{}
	kinds := map[string]int{}
	okN := 0
	var solverMs int64
	for _, o := range obls {
		kinds[o.Kind]++
		solverMs += o.Ms
		if o.Status == "proved" {
			okN++
			b := o.Solver
			if o.Trivial || b == "" {
				b = "simplifier"
			}
			back[b]++
			continue
		}
		fails = append(fails, propFail{o.Name, o.Kind, o.Pos, o.Src, o.Status, o.Output})
	}
	total := len(obls)
	if direct == 0 {
		fails = append(fails, propFail{Obligation: p + "/contracts", Kind: "reach", Status: "failed", Output: "no function with a contract for this property remains: " + strings.Join(e.missing, ", ")})
	}
	var fns []string
	seen := map[string]bool{}
	notes := map[string]bool{}
	for _, r := range rs {
		if !seen[r.name] {
			seen[r.name] = true
			fns = append(fns, r.name)
		}
		for _, n := range r.notes {
			notes[n] = true
		}
	}
	for _, l := range sortedKeys(layers) {
		r := layers[l]
		total += r.Total
		okN += r.OK
		for k, v := range r.Back {
			back[k] += v
		}
		for k, v := range r.Kinds {
			kinds[k] += v
		}
		for _, n := range r.Notes {
			notes[n] = true
		}
		for _, n := range r.Extern {
			usedExtern[n] = true
		}
		for _, n := range r.Fns {
			if !seen[n] {
				seen[n] = true
				fns = append(fns, n)
			}
		}
		fails = append(fails, r.Fails...)
		statQueries += r.Queries
		statSolverMs += r.SolverMs
	}
	sort.Strings(fns)
	if e.layerOut != "" {
		r := &layerRun{Total: total, OK: okN, Back: back, Kinds: kinds, Notes: sortedKeys(notes), Extern: sortedKeys(usedExtern), Fns: fns, Fails: fails, Queries: statQueries, SolverMs: statSolverMs}
		b, _ := json.Marshal(r)
		if os.WriteFile(e.layerOut, b, 0o644) != nil {
			return 3
		}
		return 0
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	trusted := []string{
		"gvc: the verification-condition generator in /verif/gvc (symbolic execution of go/ssa with contracts, /verif/DESIGN.md)",
		"golang.org/x/tools/go/ssa as the semantics of the source text",
		"z3 4.8.12, z3-new, cvc5 1.1.2",
	}
	for _, k := range sortedKeys(usedExtern) {
		trusted = append(trusted, "assumed contract: "+k)
	}
	var assume []string
	assume = append(assume, e.spec.assume...)
	for _, n := range sortedKeys(notes) {
		assume = append(assume, n)
	}
	ev := map[string]any{
		"property": p, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": total, "discharged": okN,
			"checker_cmd":              "gvc -prop " + p + " (per obligation: z3-new, then z3, then cvc5)",
			"trusted_base":             trusted,
			"functions_under_contract": fns,
			"obligations_by_kind":      kinds,
			"discharged_by":            back,
			"solver_queries":           statQueries,
			"solver_ms":                statSolverMs,
			"contract_targets_absent":  e.missing,
			"contracts_rebound":        e.renamed,
		},
		"assumptions": assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  0,
	}
	code := 0
	var line string
	if len(fails) > 0 {
		code = 1
		ev["violations"] = 1
		cov := ev["coverage"].(map[string]any)
		var names []string
		for _, f := range fails {
			names = append(names, f.Obligation)
		}
		cov["failed_obligations"] = names
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, p+".json")
		if !searched {
			found, input = e.searchInput(p, verif)
		}
		rep := map[string]any{"property": p, "failed_obligations": fails}
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", p, path)
		if found {
			rep["failing_input"] = input
			rep["how_to_replay"] = "cd /verif && ./oracle.sh " + p + " (runs the real code against an independent reference on the inputs; the first disagreement is the failing_input)"
		} else {
			rep["failing_input"] = nil
			rep["search"] = input
			line += " no-failing-input-found"
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0o644)
		ev["wall_s"] = time.Since(start).Seconds()
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", p+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d solver queries (%d ms), %.1f s\n", p, len(fns), total, okN, statQueries, statSolverMs, time.Since(start).Seconds())
	for i, f := range fails {
		if i >= 12 {
			fmt.Printf("  ... %d more\n", len(fails)-i)
			break
		}
		fmt.Printf("  FAILED %s [%s] %s\n", f.Obligation, f.Pos, f.Clause)
		if f.Kind == "reach" {
			fmt.Println("   ", f.Output)
		}
	}
	if line != "" {
		fmt.Println(line)
	}
	return code
}

func (r *FnResult) key() string {
	if r.target != nil {
		return r.target.fn.String() + "/" + r.target.con.name
	}
	return "lemma/" + r.lemma
}

func (r *FnResult) failed() bool {
	for _, o := range r.obls {
		if o.Status != "proved" {
			return true
		}
	}
	return false
}

func failedIn(rs []*FnResult) map[string]bool {
	m := map[string]bool{}
	for _, r := range rs {
		if r.failed() {
			m[r.key()] = true
		}
	}
	return m
}

// searchInput runs the real code against the reference and looks for an input that shows the violation.
func (e *Engine) searchInput(p, verif string) (bool, string) {
	sh := filepath.Join(verif, "oracle.sh")
	if _, err := os.Stat(sh); err != nil {
		return false, "no oracle"
	}
	cmd := exec.Command("bash", sh, p)
	out, err := cmd.CombinedOutput()
	s := string(out)
	if len(s) > 20000 {
		s = s[:20000]
	}
	if err != nil && strings.Contains(s, "FAILING INPUT") {
		return true, s
	}
	return false, s
}

// layerRun is the outcome of verifying the functions below, whose contracts are those of another property.
type layerRun struct {
	Total, OK         int
	Back, Kinds       map[string]int
	Notes, Extern     []string
	Fns               []string
	Fails             []propFail
	Queries, SolverMs int64

	cmd  *exec.Cmd
	file string
	out  *strings.Builder
}

func (e *Engine) startLayer(l string) {
	if e.layers == nil {
		e.layers = map[string]*layerRun{}
	}
	if e.layers[l] != nil {
		return
	}
	r := &layerRun{out: &strings.Builder{}}
	e.layers[l] = r
	f, err := os.CreateTemp("", "gvc-layer")
	if err != nil {
		return
	}
	f.Close()
	r.file = f.Name()
	self, err := os.Executable()
	if err != nil {
		return
	}
	r.cmd = exec.Command(self, "-repo", flagValue("repo"), "-spec", flagValue("spec"), "-verif", flagValue("verif"), "-t", flagValue("t"), "-prop", l, "-layer", r.file)
	r.cmd.Stdout, r.cmd.Stderr = r.out, r.out
	if r.cmd.Start() != nil {
		r.cmd = nil
	}
}

func flagValue(n string) string { return flag.Lookup(n).Value.String() }

func (e *Engine) waitLayers() map[string]*layerRun {
	for l, r := range e.layers {
		ok := false
		if r.cmd != nil && r.cmd.Wait() == nil {
			if b, err := os.ReadFile(r.file); err == nil && json.Unmarshal(b, r) == nil {
				ok = true
			}
		}
		if r.file != "" {
			os.Remove(r.file)
		}
		if !ok {
			r.Fails = append(r.Fails, propFail{Obligation: l + "/layer", Kind: "reach", Status: "failed", Output: "the verification of the functions below did not finish: " + r.out.String()})
		}
	}
	return e.layers
}

func failedLayer(ls map[string]*layerRun) bool {
	for _, r := range ls {
		if len(r.Fails) > 0 {
			return true
		}
	}
	return false
}
