package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A property is decided by its units: specification functions, each analysed
// for every combination of its case splits. "pkg" stands for all units of a
// package, "pkg.Func" for one; units of other properties are lemmas.
type Property struct {
	ID      string
	Units   []string
	Rules   []string // program-wide rules, by name
	Shards  map[string]int
	MinObl  int // fewer obligations than this means the analysis lost its subject
	Rule    string
	Assumes []string
}

// worker runs the given units (comma separated, unit@shard/shards) and prints their results as JSON.
func worker(dir, list string) {
	only := map[string]bool{"v": true, "models": true}
	var items []string
	for _, u := range strings.Split(list, ",") {
		items = append(items, u)
		pkg, _, _ := strings.Cut(u, ".")
		only[pkg] = true
	}
	l, err := load(dir, specFiles(only))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var out []*UnitResult
	for _, u := range items {
		name, sh, has := strings.Cut(u, "@")
		shard, shards := 0, 1
		if has {
			a, b, _ := strings.Cut(sh, "/")
			shard, _ = strconv.Atoi(a)
			shards, _ = strconv.Atoi(b)
		}
		pkg, fn, _ := strings.Cut(name, ".")
		fns := []string{fn}
		if fn == "" {
			fns = checkFuncs(l, pkg)
		}
		for _, fn := range fns {
			out = append(out, runUnit(l, pkg, fn, shard, shards))
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

type known struct {
	property, unit, obligation, text string
}

// knownFindings reads the lines "known: property=ID unit=U obligation="..." text".
func knownFindings(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, ln := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(ln), "known: ")
		if !ok {
			continue
		}
		var k known
		for _, f := range []struct {
			name string
			dst  *string
		}{{"property=", &k.property}, {"unit=", &k.unit}, {"obligation=", &k.obligation}} {
			rest = strings.TrimSpace(rest)
			v, ok := strings.CutPrefix(rest, f.name)
			if !ok {
				continue
			}
			if strings.HasPrefix(v, "\"") {
				q, err := strconv.QuotedPrefix(v)
				if err != nil {
					continue
				}
				*f.dst, _ = strconv.Unquote(q)
				rest = v[len(q):]
			} else {
				*f.dst, rest, _ = strings.Cut(v, " ")
			}
		}
		k.text = strings.TrimSpace(rest)
		out = append(out, k)
	}
	return out
}

func check(dir, verif, id string) int {
	t0 := time.Now()
	var p *Property
	for i := range properties {
		if properties[i].ID == id {
			p = &properties[i]
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	// one job per unit function, with shards for the long ones
	var jobs []string
	for _, u := range p.Units {
		pkg, fn, _ := strings.Cut(u, ".")
		fns := []string{fn}
		if fn == "" {
			fns = specFuncs(pkg)
		}
		for _, fn := range fns {
			name := pkg + "." + fn
			n := p.Shards[name]
			if n <= 1 {
				jobs = append(jobs, name)
				continue
			}
			for i := 0; i < n; i++ {
				jobs = append(jobs, fmt.Sprintf("%s@%d/%d", name, i, n))
			}
		}
	}
	// group small jobs: at most 8 processes at once, each loads the program once
	procs := runtime.NumCPU()
	if procs > 8 {
		procs = 8
	}
	if procs > len(jobs) {
		procs = len(jobs)
	}
	queue := make(chan string, len(jobs))
	for _, j := range jobs {
		queue <- j
	}
	close(queue)
	var mu sync.Mutex
	var results []*UnitResult
	var broken []string
	var wg sync.WaitGroup
	self, _ := os.Executable()
	// small properties run in one process
	batch := 1
	if len(p.Shards) == 0 && len(jobs) > procs {
		batch = (len(jobs) + procs - 1) / procs
	}
	// what is not decided by then counts as undecided
	deadline, cancel := context.WithDeadline(context.Background(), t0.Add(checkBudget()))
	defer cancel()
	for w := 0; w < procs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				var mine []string
				for len(mine) < batch {
					j, ok := <-queue
					if !ok {
						break
					}
					mine = append(mine, j)
				}
				if len(mine) == 0 {
					return
				}
				cmd := exec.CommandContext(deadline, self, "-repo", dir, "-worker", strings.Join(mine, ","))
				var so, se bytes.Buffer
				cmd.Stdout, cmd.Stderr = &so, &se
				err := cmd.Run()
				var rs []*UnitResult
				if err == nil {
					err = json.Unmarshal(so.Bytes(), &rs)
				}
				mu.Lock()
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 2 || err != nil && deadline.Err() != nil {
					why := "the analysis ended abnormally: " + err.Error() + " " + tail(se.String(), 300)
					if deadline.Err() != nil {
						why = "the time for this check ran out"
					}
					rs = []*UnitResult{{Unit: mine[0], Obls: []Obl{{Unit: strings.Join(mine, ","), Name: "analysable", Detail: "not decided: " + why}}}}
				} else if err != nil {
					broken = append(broken, fmt.Sprintf("%s: %v\n%s", strings.Join(mine, ","), err, tail(se.String(), 4000)))
				}
				results = append(results, rs...)
				mu.Unlock()
			}
		}()
	}
	var rules []*RuleResult
	if len(p.Rules) > 0 {
		l, err := load(dir, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for _, r := range p.Rules {
			rules = append(rules, runRule(l, r))
		}
	}
	wg.Wait()
	if len(broken) > 0 {
		for _, b := range broken {
			fmt.Fprintln(os.Stderr, b)
		}
		return 2
	}
	return report(verif, p, results, rules, t0)
}

func checkBudget() time.Duration {
	if thoroughTier {
		return 4 * time.Hour
	}
	return 780 * time.Second
}

var thoroughTier = os.Getenv("VERIF_TIER") == "thorough"

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// specFuncs lists the Check_ functions of a specification package by its text.
func specFuncs(pkg string) []string {
	var out []string
	for name, src := range specFiles(map[string]bool{pkg: true}) {
		if !strings.HasPrefix(name, pkg+"/") {
			continue
		}
		for _, ln := range strings.Split(src, "\n") {
			if rest, ok := strings.CutPrefix(ln, "func Check_"); ok {
				n, _, _ := strings.Cut(rest, "(")
				out = append(out, "Check_"+n)
			}
		}
	}
	sort.Strings(out)
	return out
}

type RuleResult struct {
	Rule     string
	Analysed int
	What     string
	Obls     []Obl
	Funcs    []string
	Samples  []string
}

func report(verif string, p *Property, results []*UnitResult, rules []*RuleResult, t0 time.Time) int {
	units := map[string]*UnitResult{}
	funcs := map[string]int{}
	var obls []Obl
	cases, steps := 0, 0
	for _, r := range results {
		if r.Skipped {
			continue
		}
		u := units[r.Unit]
		if u == nil {
			u = &UnitResult{Unit: r.Unit}
			units[r.Unit] = u
		}
		u.Cases += r.Cases
		u.Obls = append(u.Obls, r.Obls...)
		u.Steps += r.Steps
		for i := 0; i < len(r.Samples) && len(u.Samples) < 3; i++ {
			u.Samples = append(u.Samples, r.Samples[i])
		}
		cases += r.Cases
		steps += r.Steps
		for f, n := range r.Funcs {
			funcs[f] += n
		}
		obls = append(obls, r.Obls...)
	}
	for _, r := range rules {
		obls = append(obls, r.Obls...)
		for _, f := range r.Funcs {
			funcs[f]++
		}
	}
	if len(obls) < p.MinObl {
		obls = append(obls, Obl{Unit: p.ID, Name: "the analysis covers its subject", Detail: fmt.Sprintf("only %d obligations, at least %d expected", len(obls), p.MinObl)})
	}
	bad := failed(obls)
	kn := knownFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var fresh []Obl
	seen := map[string]bool{}
	for _, o := range bad {
		hit := false
		for _, k := range kn {
			if k.property == p.ID && k.unit == o.Unit && k.obligation == o.Name {
				hit = true
				if !seen[k.text] {
					seen[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
				}
			}
		}
		if !hit {
			fresh = append(fresh, o)
		}
	}
	// evidence
	var names []string
	for n := range units {
		names = append(names, n)
	}
	sort.Strings(names)
	var usum []map[string]any
	for _, n := range names {
		u := units[n]
		usum = append(usum, map[string]any{"unit": n, "cases": u.Cases, "obligations": len(u.Obls), "discharged": len(u.Obls) - len(failed(u.Obls)), "transfer_steps": u.Steps, "sample_cases": u.Samples})
	}
	var rsum []map[string]any
	for _, r := range rules {
		rsum = append(rsum, map[string]any{"rule": r.Rule, "analysed": r.Analysed, "what": r.What, "obligations": len(r.Obls), "samples": r.Samples})
	}
	var samples []string
	for i, o := range obls {
		if i%(1+len(obls)/6) == 0 {
			samples = append(samples, strings.TrimSpace(fmt.Sprintf("%s [%s] %s: %v", o.Unit, o.Case, o.Name, o.OK)))
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]any{
		"explanation":        p.Rule,
		"obligations":        len(obls),
		"discharged":         len(obls) - len(bad),
		"cases":              cases,
		"transfer_steps":     steps,
		"functions_analysed": funcList(funcs),
		"units":              usum,
		"samples":            samples,
	}
	if len(rsum) > 0 {
		cov["rules"] = rsum
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": append(append([]string{}, commonAssumptions...), p.Assumes...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d units, %d cases, %d obligations, %d not discharged, %d library functions analysed, %.1fs\n", p.ID, len(units)+len(rules), cases, len(obls), len(bad), len(funcs), time.Since(t0).Seconds())
	if len(fresh) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", p.ID+".violation.txt")
	var rb bytes.Buffer
	fmt.Fprintf(&rb, "property %s: %d obligations not discharged\n", p.ID, len(fresh))
	for i, o := range fresh {
		if i >= 20 {
			break
		}
		fmt.Fprintf(&rb, "\nunit %s case [%s]\n  obligation: %s\n  %s\n  at %s\n", o.Unit, o.Case, o.Name, o.Detail, o.Pos)
		if i < 5 {
			fmt.Printf("  %s [%s] %s: %s (at %s)\n", o.Unit, o.Case, o.Name, cutStr(o.Detail, 300), cutStr(o.Pos, 300))
		}
	}
	fmt.Fprintf(&rb, "\nreplay: %s -unit <unit>\n", filepath.Join(verif, "bin", "analyze"))
	os.WriteFile(rp, rb.Bytes(), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	return 1
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
