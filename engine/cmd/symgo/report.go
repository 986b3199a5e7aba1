package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine/sym"
)

type knownFinding struct {
	Status   string `json:"status"` // known or fixed
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"`
	What     string `json:"what"`
}

func loadKnown() []knownFinding {
	var out []knownFinding
	f, err := os.Open(filepath.Join(*verif, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func report(rs []*result, nat *native, t0 time.Time, tLoad time.Duration) int {
	known := loadKnown()
	type job struct {
		r     *result
		f     sym.Finding
		final bool
		out   string
		txt   string
	}
	var jobs []*job
	for _, r := range rs {
		for _, f := range r.Exec.Findings {
			if f.Model == nil {
				continue
			}
			jobs = append(jobs, &job{r: r, f: f})
		}
		for _, f := range r.Exec.Probes {
			jobs = append(jobs, &job{r: r, f: f})
		}
		for _, m := range r.Exec.Finals {
			jobs = append(jobs, &job{r: r, f: sym.Finding{Kind: "path", Msg: "model of a finished path", Model: m}, final: true})
		}
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, j := range jobs {
		j := j
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			tries := 1
			if j.f.Kind != "path" && j.f.Kind != "loop" {
				tries = 8 // map iteration order is random natively
			}
			for k := 0; k < tries; k++ {
				j.out, j.txt = nat.replay(j.r.H, mkDoc(j.r.H, j.f))
				if j.out != "ok" {
					break
				}
			}
		}()
	}
	wg.Wait()

	violations := 0
	knownHit := map[string]bool{}
	var lines []string
	var inconclusive []string
	validated, mismatched := 0, 0
	seen := map[string]bool{}
	var samples []interface{}
	for _, j := range jobs {
		if j.final && j.out == "ok" {
			validated++
			if len(samples) < 4 {
				samples = append(samples, map[string]interface{}{"harness": j.r.H.Name, "inputs": short(mkDoc(j.r.H, j.f).Values), "native": "agrees"})
			}
			continue
		}
		switch j.out {
		case "assert", "panic", "exit", "hang", "race":
			msg := j.f.Msg
			if i := strings.Index(j.txt, "VERIF-ASSERT "); i >= 0 {
				msg = strings.SplitN(j.txt[i+13:], "\n", 2)[0]
			}
			key := j.r.H.Name + "|" + msg
			if seen[key] {
				continue
			}
			seen[key] = true
			isKnown := false
			for _, k := range known {
				if k.Status == "known" && k.Property == j.r.H.Prop && (k.Harness == "" || k.Harness == j.r.H.Name) && k.Message == msg {
					isKnown = true
					id := k.Property + k.What
					if !knownHit[id] {
						knownHit[id] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
					}
				}
			}
			if isKnown {
				continue
			}
			violations++
			d := mkDoc(j.r.H, j.f)
			d.Outcome, d.Output = j.out, j.txt
			d.HowTo = fmt.Sprintf("bash %s/run.sh replay %s <this file>", *verif, j.r.H.Name)
			dir := filepath.Join(*verif, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", j.r.H.Prop, j.r.H.Name, violations))
			js, _ := json.MarshalIndent(d, "", " ")
			os.WriteFile(p, js, 0o644)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", j.r.H.Prop, p))
			fmt.Printf("violated: %s: [%s] %s %s (native: %s)\n", j.r.H.Name, j.f.Kind, msg, j.f.Pos, j.out)
		default:
			if j.f.Kind == "assert" || j.f.Kind == "panic" || j.f.Kind == "exit" || j.f.Kind == "unwind" || j.f.Kind == "race" {
				mismatched++
				inconclusive = append(inconclusive, fmt.Sprintf("%s: candidate %q %s did not reproduce natively (%s)", j.r.H.Name, j.f.Kind+": "+j.f.Msg, j.f.Pos, j.out))
				if *verbose {
					d := mkDoc(j.r.H, j.f)
					js, _ := json.Marshal(d)
					fmt.Println("unreproduced:", clip(string(js), 3000), clip(j.txt, 1500))
				}
			} else if j.final {
				inconclusive = append(inconclusive, fmt.Sprintf("%s: path model replay gave %s", j.r.H.Name, j.out))
			}
		}
	}
	// incompleteness and vacuity
	tot := struct {
		steps, forks, merges, ifc, paths, asserts, un, triv, q, qs, qu, qk, cache int
		st, mx                                                                    time.Duration
	}{}
	enc := map[string]int{}
	stub := map[string]int{}
	var hsum []interface{}
	var assumptions []string
	for _, r := range rs {
		e := r.Exec
		st := "complete within its bounds"
		if r.Crash != "" {
			st = "engine error: " + strings.SplitN(r.Crash, "\n", 2)[0]
			inconclusive = append(inconclusive, r.H.Name+": "+st)
			if *verbose {
				fmt.Println(r.H.Name, r.Crash)
			}
		} else if r.Incomplete != "" {
			st = "incomplete: " + r.Incomplete
			inconclusive = append(inconclusive, r.H.Name+": "+r.Incomplete)
		}
		for _, f := range e.Findings {
			switch {
			case f.Kind == "unsupported" || f.Kind == "bound" || strings.HasPrefix(f.Kind, "unknown"):
				s := fmt.Sprintf("%s: %s: %s %s", r.H.Name, f.Kind, f.Msg, f.Pos)
				inconclusive = append(inconclusive, s)
				if st == "complete within its bounds" {
					st = "some paths not decided"
				}
			}
		}
		var miss []string
		for _, l := range r.H.Reach {
			if !e.Reached[l] {
				miss = append(miss, l)
			}
		}
		if len(miss) > 0 {
			inconclusive = append(inconclusive, fmt.Sprintf("%s: reachability witness missing: %s", r.H.Name, strings.Join(miss, " ")))
			st = "vacuous: " + strings.Join(miss, " ")
		}
		s := e.S.Stats
		tot.steps += e.Stats.Steps
		tot.forks += e.Stats.Forks + e.Stats.Splits
		tot.merges += e.Stats.Merges
		tot.ifc += e.Stats.IfConv
		tot.paths += e.Stats.Paths
		tot.asserts += e.Stats.Asserts
		tot.un += e.Stats.AssertUn
		tot.triv += e.Stats.AssertTriv
		tot.q += s.Queries
		tot.qs += s.QSat
		tot.qu += s.QUnsat
		tot.qk += s.QUnknown
		tot.cache += s.CacheHits
		tot.st += s.SolverTime
		if s.MaxQuery > tot.mx {
			tot.mx = s.MaxQuery
		}
		for k, v := range e.Encoded {
			enc[k] += v
		}
		for k, v := range e.Stubbed {
			stub[k] += v
		}
		for n := range e.Notes {
			if !strings.HasPrefix(n, "init") {
				assumptions = append(assumptions, r.H.Name+": "+n)
			}
		}
		var reached []string
		for l := range e.Reached {
			reached = append(reached, l)
		}
		sort.Strings(reached)
		hsum = append(hsum, map[string]interface{}{
			"harness": r.H.Name, "package": r.H.Pkg, "bounds": r.H.Bounds, "status": st, "paths": e.Stats.Paths,
			"assertion_instances": e.Stats.Asserts, "discharged_by_solver": e.Stats.AssertUn, "discharged_by_simplification": e.Stats.AssertTriv,
			"solver_queries": s.Queries, "solver_s": round(s.SolverTime.Seconds()), "wall_s": round(r.Wall.Seconds()), "reached": reached,
			"forks": e.Stats.Forks + e.Stats.Splits, "merges": e.Stats.Merges,
		})
		if *verbose {
			fmt.Printf("%-48s %-30s paths=%d steps=%d forks=%d merges=%d ifc=%d asserts=%d(%d solver,%d simp) q=%d(%d unk, %d cached) solver=%.1fs wall=%.1fs\n",
				r.H.Name, st, e.Stats.Paths, e.Stats.Steps, e.Stats.Forks+e.Stats.Splits, e.Stats.Merges, e.Stats.IfConv, e.Stats.Asserts, e.Stats.AssertUn, e.Stats.AssertTriv, s.Queries, s.QUnknown, s.CacheHits, s.SolverTime.Seconds(), r.Wall.Seconds())
			type fc struct {
				s string
				n int
			}
			var fs []fc
			for k, n := range e.ForkStat {
				fs = append(fs, fc{k, n})
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].n > fs[j].n })
			for i := 0; i < len(fs) && i < 12; i++ {
				fmt.Printf("    forks: %5d %s\n", fs[i].n, fs[i].s)
			}
			for n, c := range e.Notes {
				fmt.Println("    note:", n, c)
			}
		}
	}
	var encR, encO []string
	for k := range enc {
		if strings.Contains(k, modPath) {
			if !strings.Contains(k, ".VH_") && !strings.Contains(k, "verif") {
				encR = append(encR, strings.ReplaceAll(k, modPath+"/", ""))
			}
		} else {
			encO = append(encO, k)
		}
	}
	sort.Strings(encR)
	sort.Strings(encO)
	var stubs []string
	for k := range stub {
		if !strings.Contains(k, "verifsv") {
			stubs = append(stubs, k)
		}
	}
	sort.Strings(stubs)
	sort.Strings(assumptions)
	inconclusive = dedup(inconclusive)
	for _, s := range inconclusive {
		fmt.Println("inconclusive:", s)
	}
	if len(samples) == 0 {
		for _, r := range rs {
			for _, m := range r.Exec.Finals {
				if len(samples) < 3 {
					samples = append(samples, map[string]interface{}{"harness": r.H.Name, "inputs": short(mkDoc(r.H, sym.Finding{Model: m}).Values)})
				}
			}
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": round(time.Since(t0).Seconds()), "violations": violations,
		"coverage": map[string]interface{}{
			"explanation":                     "Bounded symbolic execution of the SSA form of the current /repo sources; every assertion is decided by SMT (z3/cvc5) for all values within the bounds listed per harness, candidates are replayed natively. states = symbolic branch points and merges, transitions = SSA instructions executed symbolically.",
			"states":                          tot.forks + tot.merges + tot.paths,
			"transitions":                     tot.steps,
			"symbolic_paths":                  tot.paths,
			"traces_validated_against_impl":   validated,
			"candidates_not_reproduced":       mismatched,
			"assertion_instances":             tot.asserts,
			"assertions_discharged_solver":    tot.un,
			"assertions_discharged_simplify":  tot.triv,
			"solver_queries":                  tot.q,
			"queries_sat":                     tot.qs,
			"queries_unsat":                   tot.qu,
			"queries_unknown":                 tot.qk,
			"feasibility_from_cached_models":  tot.cache,
			"solver_s":                        round(tot.st.Seconds()),
			"slowest_query_s":                 round(tot.mx.Seconds()),
			"load_s":                          round(tLoad.Seconds()),
			"functions_encoded_repo":          encR,
			"functions_encoded_library_count": len(encO),
			"functions_encoded_library":       trim(encO, 120),
			"functions_modelled":              stubs,
			"harnesses":                       hsum,
			"outside_the_bounds_or_undecided": inconclusive,
			"samples":                         samples,
			"solvers":                         "z3 5.3.2 (incremental), cvc5 1.1.2 and z3 4.8.12 (one-shot)",
		},
		"assumptions": dedup(assumptions),
	}
	if *only == "" && *prop != "all" {
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		js, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(js, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, wall %.1fs, %d native replays agree\n",
		*prop, *tier, len(rs), tot.paths, tot.asserts, tot.un, tot.q, tot.st.Seconds(), time.Since(t0).Seconds(), validated)
	if violations > 0 {
		for _, l := range lines {
			fmt.Println(l)
		}
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func trim(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string(nil), s[:n]...), fmt.Sprintf("... and %d more", len(s)-n))
	}
	return s
}

func dedup(s []string) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

// short drops zero values so that samples stay readable.
func short(m map[string]string) map[string]string {
	out := map[string]string{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if m[k] != "0x0" && len(out) < 40 {
			out[k] = m[k]
		}
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}
