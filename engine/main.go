package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func constKindString() token.Token { return token.STRING }

var (
	flProp    = flag.String("prop", "", "property id")
	flOnly    = flag.String("only", "", "run a single harness")
	flVerif   = flag.String("verif", "/verif", "verification directory")
	flRepo    = flag.String("repo", "/repo", "code under test")
	flWork    = flag.String("work", "", "scratch directory for build output")
	flWorkers = flag.Int("j", 0, "workers")
	flBudget  = flag.Float64("budget", 0, "exploration seconds")
	flTier    = flag.String("tier", "quick", "quick or thorough")
	flVerbose = flag.Bool("v", false, "verbose")
	flDumpq   = flag.Bool("dumpq", false, "dump queries")
	flReplay  = flag.String("replay", "", "replay a stored counterexample")
	flNoEv    = flag.Bool("noevidence", false, "do not write evidence")
	flNative  = flag.Bool("native", true, "replay on the real code")
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

type harnessInfo struct {
	name  string
	doc   string
	reach []string
}

type replayCase struct {
	Harness string   `json:"harness"`
	Values  []uint64 `json:"values"`
	Tier    int      `json:"tier"`
	Repeat  int      `json:"repeat,omitempty"`
}
type replayRes struct {
	Outcome string   `json:"outcome"`
	Obs     []ObsOut `json:"obs"`
	Reached []string `json:"reached"`
}

type replayFile struct {
	Property string     `json:"property"`
	Label    string     `json:"label"`
	Case     replayCase `json:"case"`
	Input    string     `json:"input"`
	Native   string     `json:"native_outcome"`
	Note     string     `json:"note"`
}

// native replay -------------------------------------------------------------

type native struct {
	bin  string
	race bool // built with the race detector
}

func buildNative(dir, work string, harnesses []string, race bool) (*native, error) {
	main := filepath.Join(work, "replay_main.go")
	var b bytes.Buffer
	b.WriteString("package main\n\nimport \"soqlverif/props\"\n\nfunc init() {\n")
	for _, h := range harnesses {
		fmt.Fprintf(&b, "\tharnesses[%q] = props.%s\n", h, h)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(main, b.Bytes(), 0o644); err != nil {
		return nil, err
	}
	ov := filepath.Join(work, "overlay.json")
	oj, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(dir, "cmd/replay/zz_harnesses.go"): main}})
	if err := os.WriteFile(ov, oj, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(work, "replay")
	args := []string{"build", "-overlay", ov, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./cmd/replay")
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), goEnv()...)
	if race {
		c.Env = append(c.Env, "CGO_ENABLED=1")
	}
	out, err := c.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	return &native{bin: bin, race: race}, nil
}

func goEnv() []string {
	return []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off"}
}

// run executes the cases; a crash of the process (fatal error, deadlock) is an outcome of
// the case that was running.
func (n *native) run(cases []replayCase) []replayRes {
	if n.race {
		return n.runFresh(cases)
	}
	return n.runAll(cases)
}

// runFresh runs every case in new processes of its own, so that it meets the state the
// process starts in.
func (n *native) runFresh(cases []replayCase) []replayRes {
	res := make([]replayRes, len(cases))
	var wg sync.WaitGroup
	work := make(chan int)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				c := cases[i]
				tries := 1
				if c.Repeat > 0 {
					tries = 12
					c.Repeat = 2
				}
				for t := 0; t < tries; t++ {
					res[i] = n.runAll([]replayCase{c})[0]
					if res[i].Outcome != "ok" {
						break
					}
				}
			}
		}()
	}
	for i := range cases {
		work <- i
	}
	close(work)
	wg.Wait()
	return res
}

func (n *native) runAll(cases []replayCase) []replayRes {
	res := make([]replayRes, 0, len(cases))
	for len(res) < len(cases) {
		rest := cases[len(res):]
		c := exec.Command(n.bin)
		if n.race {
			c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		}
		in, _ := c.StdinPipe()
		out, _ := c.StdoutPipe()
		var errb bytes.Buffer
		c.Stderr = &errb
		if err := c.Start(); err != nil {
			fatal("replay: %v", err)
		}
		go func() {
			w := bufio.NewWriter(in)
			e := json.NewEncoder(w)
			for _, x := range rest {
				e.Encode(x)
			}
			w.Flush()
			in.Close()
		}()
		rd := bufio.NewReaderSize(out, 1<<20)
		lines := make(chan []byte)
		go func() {
			for {
				l, err := rd.ReadBytes('\n')
				if len(l) > 0 && l[len(l)-1] == '\n' {
					lines <- l
				}
				if err != nil {
					close(lines)
					return
				}
			}
		}()
		got := 0
		bad := ""
	loop:
		for got < len(rest) {
			select {
			case l, ok := <-lines:
				if !ok {
					bad = "crash"
					break loop
				}
				var r replayRes
				if err := json.Unmarshal(l, &r); err != nil {
					bad = "crash"
					break loop
				}
				res = append(res, r)
				got++
			case <-time.After(60 * time.Second):
				bad = "hang"
				break loop
			}
		}
		c.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		c.Wait()
		if got < len(rest) {
			msg := bad
			if bad == "crash" {
				t := errb.String()
				if i := strings.Index(t, "DATA RACE"); i >= 0 {
					t = raceText(t[i:])
				} else if i := strings.IndexByte(t, '\n'); i > 0 {
					t = t[:i]
				}
				msg = "panic: process died: " + t
			}
			res = append(res, replayRes{Outcome: msg})
		}
	}
	return res
}

// raceText is the gist of a report of the race detector.
func raceText(t string) string {
	r := "DATA RACE"
	n := 0
	l := strings.Split(t, "\n")
	for i, x := range l {
		x = strings.TrimSpace(x)
		if (strings.HasPrefix(x, "Write at") || strings.HasPrefix(x, "Read at") || strings.HasPrefix(x, "Previous")) && i+1 < len(l) && n < 2 {
			w, _, _ := strings.Cut(x, " at 0x")
			r += "; " + w + " in " + strings.TrimSpace(l[i+1])
			n++
		}
	}
	return r
}

// known findings --------------------------------------------------------------

type known struct{ prop, harness, label, text string }

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := known{}
		l, k.text, _ = strings.Cut(strings.TrimPrefix(l, "finding:"), "|")
		k.text = strings.TrimSpace(k.text)
		for _, f := range strings.Fields(l) {
			a, v, _ := strings.Cut(f, "=")
			switch a {
			case "property":
				k.prop = v
			case "harness":
				k.harness = v
			case "label":
				k.label = v
			}
		}
		r = append(r, k)
	}
	return r
}

// ---------------------------------------------------------------------------

func (e *Engine) harnessDocs(infos map[string]*harnessInfo) {
	for _, f := range e.harness {
		hi := &harnessInfo{name: f.f.Name()}
		if d, ok := f.f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
			hi.doc = strings.Join(strings.Fields(strings.TrimPrefix(d.Doc.Text(), f.f.Name())), " ")
		}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if g == nil || seen[g] {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					cf := c.Call.StaticCallee()
					if cf == nil {
						continue
					}
					if cf.String() == symPkg+".Reach" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							s, _ := strconv.Unquote(k.Value.ExactString())
							hi.reach = append(hi.reach, s)
						}
					}
				}
			}
		}
		walk(f.f)
		infos[hi.name] = hi
	}
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30) // near it the collector runs more often than the percentage says
	t0 := time.Now()
	dir := filepath.Join(*flVerif, "harness")
	work := *flWork
	if work == "" {
		w, err := os.MkdirTemp("", "soqlverif")
		if err != nil {
			fatal("%v", err)
		}
		work = w
		defer os.RemoveAll(w)
	}
	if *flRepo != "/repo" {
		// a copy of the harness module that builds against another tree
		nd := filepath.Join(work, "harness")
		if out, err := exec.Command("cp", "-a", dir, nd).CombinedOutput(); err != nil {
			fatal("%s", out)
		}
		gm, err := os.ReadFile(filepath.Join(nd, "go.mod"))
		if err != nil {
			fatal("%v", err)
		}
		gm = bytes.ReplaceAll(gm, []byte("=> /repo"), []byte("=> "+*flRepo))
		if err := os.WriteFile(filepath.Join(nd, "go.mod"), gm, 0o644); err != nil {
			fatal("%v", err)
		}
		dir = nd
	}
	rc := run(dir, work, t0)
	if *flWork == "" {
		os.RemoveAll(work)
	}
	os.Exit(rc)
}

func run(dir, work string, t0 time.Time) int {
	tier := 0
	if *flTier == "thorough" {
		tier = 1
	}
	workers := *flWorkers
	if workers == 0 {
		workers = min(8, runtime.NumCPU())
	}
	budget := *flBudget
	if budget == 0 {
		budget = 420
		if tier == 1 {
			budget = 3000
		}
		if s := os.Getenv("VERIF_BUDGET"); s != "" {
			if f, err := strconv.ParseFloat(s, 64); err == nil {
				budget = f
			}
		}
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	prop := *flProp
	if *flReplay != "" {
		return doReplay(dir, work, *flReplay)
	}
	race := prop == "C18"

	e, err := loadEngine(dir, []string{propsPkg})
	if err != nil {
		fatal("cannot load the code under test: %v", err)
	}
	e.verbose = *flVerbose
	e.tier = tier
	if err := e.findHarnesses(prop); err != nil {
		fatal("%v", err)
	}
	if *flOnly != "" {
		var hs []*Func
		for _, f := range e.harness {
			if f.f.Name() == *flOnly {
				hs = append(hs, f)
			}
		}
		e.harness = hs
	}
	infos := map[string]*harnessInfo{}
	e.harnessDocs(infos)
	var names []string
	for _, f := range e.harness {
		names = append(names, f.f.Name())
	}
	var nat *native
	var natErr error
	natDone := make(chan struct{})
	go func() {
		if *flNative {
			nat, natErr = buildNative(dir, work, names, race)
		}
		close(natDone)
	}()
	e.sampleCap = 100
	ms := make([]*M, workers)
	var wg sync.WaitGroup
	var initErrs []string
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ms[i] = e.newMachine(i)
			ms[i].s.dumpAll = *flDumpq
			errs := ms[i].runInits()
			if i == 0 {
				initErrs = errs
			}
		}()
	}
	wg.Wait()
	loadT := time.Since(t0)
	te := time.Now()
	complete := e.explore(ms, time.Now().Add(time.Duration(budget*float64(time.Second))))
	expT := time.Since(te)
	<-natDone
	if natErr != nil {
		fatal("%v", natErr)
	}

	// totals
	hst := make([]Stats, len(e.harness))
	for i := range hst {
		hst[i].Reasons = map[string]int{}
	}
	q, hits, sat, unsat, unk := 0, 0, 0, 0, 0
	var sw time.Duration
	fns := map[string]int{}
	for _, m := range ms {
		m.s.stop()
		for h := range m.hst {
			hst[h].add(&m.hst[h])
		}
		q += m.s.queries
		hits += m.s.hits
		sat += m.s.sat
		unsat += m.s.unsat
		unk += m.s.unknown
		sw += m.s.wall
		for f, n := range m.fnUsed {
			if f.isTarget {
				fns[f.name] += n
			}
		}
		if m.s.lastErr != "" {
			fmt.Println("solver:", m.s.lastErr)
		}
	}
	var tot Stats
	tot.Reasons = map[string]int{}
	for i := range hst {
		tot.add(&hst[i])
	}

	// violations
	kn := readKnown(filepath.Join(*flVerif, "known_findings.txt"))
	var keys []string
	for k := range e.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	knownHit := map[string]bool{}
	viol := 0
	unconf := 0
	os.MkdirAll(filepath.Join(*flVerif, "evidence"), 0o755)
	var lines []string
	emit := func(h, label, input, nat, note string, c replayCase) {
		for _, k := range kn {
			if k.prop == prop && k.harness == h && k.label == label {
				if !knownHit[h+"|"+label] {
					knownHit[h+"|"+label] = true
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s: %s) input=%s", prop, k.text, h, label, input))
				}
				return
			}
		}
		viol++
		p := filepath.Join(*flVerif, "evidence", fmt.Sprintf("%s_violation_%d.json", prop, viol))
		b, _ := json.MarshalIndent(replayFile{prop, label, c, input, nat, note}, "", " ")
		os.WriteFile(p, b, 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, p))
		lines = append(lines, fmt.Sprintf("  harness=%s label=%q input=%s real code: %s", h, label, input, nat))
	}
	var cases []replayCase
	var cv []*Violation
	for _, k := range keys {
		for _, v := range e.viol[k] {
			cases = append(cases, replayCase{Harness: v.Harness, Values: v.Model, Tier: tier, Repeat: 40})
			cv = append(cv, v)
		}
	}
	if nat != nil && len(cases) > 0 {
		rs := nat.run(cases)
		doneKey := map[string]bool{}
		var firstUn = map[string]int{}
		for i, v := range cv {
			key := v.Harness + "|" + v.Label
			if doneKey[key] {
				continue
			}
			o := rs[i].Outcome
			if o == "assert: "+v.Label || strings.HasPrefix(o, "panic") && strings.HasPrefix(v.Label, "panic") || o == "hang" {
				doneKey[key] = true
				delete(firstUn, key)
				lab := v.Label
				emit(v.Harness, lab, v.Msg, o, "counterexample found by the solver and reproduced on the real code", cases[i])
			} else if strings.HasPrefix(o, "assert: ") || strings.HasPrefix(o, "panic") {
				doneKey[key] = true
				delete(firstUn, key)
				emit(v.Harness, strings.TrimPrefix(o, "assert: "), v.Msg, o, "solver label: "+v.Label, cases[i])
			} else if _, ok := firstUn[key]; !ok {
				firstUn[key] = i
			}
		}
		for k, i := range firstUn {
			unconf++
			fmt.Printf("UNCONFIRMED %s values=%v input=%q native=%s\n", k, cv[i].Model, cv[i].Msg, rs[i].Outcome)
		}
	} else if nat == nil {
		for _, v := range cv {
			fmt.Printf("CANDIDATE %s|%s %v %q\n", v.Harness, v.Label, v.Model, v.Msg)
		}
	}

	// sampled paths on the real code
	validated, mismatch, pruned := 0, 0, 0
	samples := e.pickSamples(seed)
	fall := e.fallback
	if nat != nil {
		cases = cases[:0]
		for _, s := range samples {
			cases = append(cases, replayCase{Harness: e.harness[s.H].f.Name(), Values: s.Values, Tier: tier})
		}
		for _, s := range fall {
			cases = append(cases, replayCase{Harness: e.harness[s.H].f.Name(), Values: s.Values, Tier: tier})
		}
		rs := nat.run(cases)
		seen := map[string]bool{}
		for i, r := range rs {
			isS := i < len(samples)
			o := r.Outcome
			if strings.HasPrefix(o, "assert: ") || strings.HasPrefix(o, "panic") || o == "hang" {
				label := strings.TrimPrefix(o, "assert: ")
				key := cases[i].Harness + "|" + label
				if seen[key] {
					continue
				}
				seen[key] = true
				in := ""
				for _, x := range r.Obs {
					if x.Label == "input" {
						in = x.Val
					}
				}
				emit(cases[i].Harness, label, in, o, "seen while replaying a path on the real code", cases[i])
				continue
			}
			if !isS {
				continue
			}
			if o == "ok" && obsEqual(r.Obs, samples[i].Obs) {
				validated++
			} else if o == "assume" {
				pruned++
			} else {
				mismatch++
				fmt.Printf("MODEL-MISMATCH harness=%s values=%v native=%s %v engine=%v\n", cases[i].Harness, cases[i].Values, o, r.Obs, samples[i].Obs)
			}
		}
	}

	// vacuity
	var vac []string
	if complete {
		for _, n := range names {
			for _, r := range infos[n].reach {
				if e.reach[n+":"+r] == 0 {
					vac = append(vac, n+":"+r)
				}
			}
			if e.reach[n] == 0 && !anyKnown(kn, prop, n) {
				vac = append(vac, n)
			}
		}
	}

	wall := time.Since(t0).Seconds()
	// report
	type hrep struct {
		Harness  string         `json:"harness"`
		Bounds   string         `json:"bounds"`
		Paths    int            `json:"paths"`
		Complete bool           `json:"complete"`
		Asserts  int            `json:"assertions_evaluated"`
		Trivial  int            `json:"assertions_decided_without_solver"`
		Pruned   int            `json:"paths_outside_assumptions"`
		Unsup    int            `json:"paths_not_encodable"`
		Reached  map[string]int `json:"reached"`
	}
	var hr []hrep
	for h, n := range names {
		r := map[string]int{}
		for _, l := range infos[n].reach {
			r[l] = e.reach[n+":"+l]
		}
		hr = append(hr, hrep{n, infos[n].doc, hst[h].Paths, e.pending[h] == 0 && hst[h].Unsupported+hst[h].StepOut+hst[h].Unknown == 0, hst[h].Asserts, hst[h].AssertTrivial, hst[h].Pruned, hst[h].Unsupported + hst[h].StepOut, r})
		fmt.Printf("%-34s paths=%-6d pruned=%-5d asserts=%-7d solver=%-6d unsup=%-3d left=%-4d steps=%d cpu=%.1fs\n", n, hst[h].Paths, hst[h].Pruned, hst[h].Asserts, hst[h].AssertSolver, hst[h].Unsupported+hst[h].StepOut, e.pending[h], hst[h].Steps, hst[h].Cpu.Seconds())
	}
	var rl []string
	for k, n := range tot.Reasons {
		rl = append(rl, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(rl)
	for i, r := range rl {
		if i < 30 {
			fmt.Println("  note:", r)
		}
	}
	for _, x := range initErrs {
		fmt.Println("  init:", x)
	}
	fmt.Printf("property %s: %d harnesses, %d paths, complete=%v, queries=%d (cache hits %d, sat %d, unsat %d, unknown %d) solver=%.1fs, native: validated=%d mismatch=%d, load=%.1fs explore=%.1fs wall=%.1fs\n",
		prop, len(names), tot.Paths, complete, q, hits, sat, unsat, unk, sw.Seconds(), validated, mismatch, loadT.Seconds(), expT.Seconds(), wall)
	if len(vac) > 0 {
		fmt.Println("VACUOUS:", strings.Join(vac, " "))
	}
	for _, l := range lines {
		fmt.Println(l)
	}

	var fl []string
	for f := range fns {
		fl = append(fl, strings.ReplaceAll(f, "github.com/shellyln/go-open-soql-parser/", ""))
	}
	sort.Strings(fl)
	var sm []any
	for i, s := range samples {
		if i >= 12 {
			break
		}
		in := ""
		for _, o := range s.Obs {
			if o.Label == "input" {
				in = o.Val
			}
		}
		sm = append(sm, map[string]any{"harness": e.harness[s.H].f.Name(), "input": in, "values": s.Values, "observed": s.Obs})
	}
	if sm == nil {
		sm = []any{}
	}
	if !*flNoEv && *flOnly == "" {
		ev := map[string]any{
			"property": prop, "tier": *flTier, "seed": seed, "level": "model_checking",
			"coverage": map[string]any{
				"states":                        tot.Branches + tot.Paths,
				"transitions":                   tot.Steps / 8,
				"states_rule":                   "symbolic decision points plus path ends; transitions: control transfers executed symbolically",
				"symbolic_paths":                tot.Paths,
				"traces_validated_against_impl": validated,
				"replay_mismatches":             mismatch,
				"samples":                       sm,
				"exhaustive":                    complete && tot.Unsupported+tot.StepOut+tot.Unknown+unconf+mismatch == 0,
				"functions_encoded":             fl,
				"functions_encoded_count":       len(fl),
				"harnesses":                     hr,
				"assertions_evaluated":          tot.Asserts,
				"assertions_decided_by_solver":  tot.AssertSolver,
				"assertions_decided_by_domain":  tot.AssertTrivial,
				"assertions_decided_by_intervals_and_linear_forms": tot.AssertRange,
				"fast_decisions_confirmed_by_z3":                   tot.CrossOK, "fast_decisions_sent_to_z3": tot.Cross,
				"solver":                         "z3 (" + z3Path + ")",
				"solver_queries":                 q,
				"solver_cache_hits":              hits,
				"solver_sat":                     sat,
				"solver_unsat":                   unsat,
				"solver_unknown":                 unk,
				"solver_seconds":                 round3(sw.Seconds()),
				"paths_not_encodable":            tot.Unsupported + tot.StepOut + tot.Unknown,
				"not_encodable_reasons":          rl,
				"paths_outside_assumptions":      tot.Pruned,
				"unconfirmed_counterexamples":    unconf,
				"vacuous":                        vac,
				"exploration_seconds":            round3(expT.Seconds()),
				"known_findings_seen":            len(knownHit),
				"paths_replayed_for_unsupported": len(fall),
			},
			"assumptions": []string{
				"bounds: the inputs, sizes and shapes named per harness; anything outside them is not covered",
				"Go standard library and takenoco functions named in engine/intrinsics.go and engine/charclass.go are replaced by summaries; sampled paths are replayed on the compiled code to check them",
				"time.Now is a constant; maps iterate in the order chosen by the harness",
			},
			"wall_s":     round3(wall),
			"violations": viol,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*flVerif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if viol > 0 {
		return 1
	}
	if unconf > 0 || mismatch > 0 {
		// the real code did not break the property; what the engine said of these paths is
		// not to be relied on, and the evidence says so
		fmt.Printf("NOTE: %d counterexamples not reproduced, %d replays observed otherwise by the engine\n", unconf, mismatch)
	}
	return 0
}

func anyKnown(kn []known, prop, h string) bool {
	for _, k := range kn {
		if k.prop == prop && k.harness == h {
			return true
		}
	}
	return false
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func obsEqual(a, b []ObsOut) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *Stats) add(t *Stats) {
	s.Paths += t.Paths
	s.Complete += t.Complete
	s.Pruned += t.Pruned
	s.Unsupported += t.Unsupported
	s.StepOut += t.StepOut
	s.Unknown += t.Unknown
	s.Decisions += t.Decisions
	s.Branches += t.Branches
	s.Steps += t.Steps
	s.Asserts += t.Asserts
	s.AssertTrivial += t.AssertTrivial
	s.AssertRange += t.AssertRange
	s.Cross += t.Cross
	s.CrossOK += t.CrossOK
	s.AssertSolver += t.AssertSolver
	s.AltQueries += t.AltQueries
	s.Cpu += t.Cpu
	for k, n := range t.Reasons {
		s.Reasons[k] += n
	}
}

func doReplay(dir, work, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	n, err := buildNative(dir, work, []string{rf.Case.Harness}, rf.Property == "C18")
	if err != nil {
		fatal("%v", err)
	}
	r := n.run([]replayCase{rf.Case})[0]
	fmt.Printf("property=%s harness=%s label=%q\ninput=%q\noutcome on the real code: %s\n", rf.Property, rf.Case.Harness, rf.Label, rf.Input, r.Outcome)
	for _, o := range r.Obs {
		fmt.Printf("  %s = %q\n", o.Label, o.Val)
	}
	if r.Outcome == "ok" || r.Outcome == "assume" {
		return 0
	}
	return 1
}
