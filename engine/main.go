package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = envOr("GOSYM_REPO", "/repo")
	verifDir = envOr("GOSYM_VERIF", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

const harnessPath = modulePath + "/zzverif/h"

// overlayFiles maps virtual files inside the module to the harness sources.
func overlayFiles() (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []string{"sym", "h"} {
		fs, err := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			m[filepath.Join(repoDir, "zzverif", d, filepath.Base(f))] = f
		}
	}
	return m, nil
}

var raceEntry = regexp.MustCompile(`^C[0-9][0-9]_`)

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOENV=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func load() (*Program, error) {
	files, err := overlayFiles()
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for v, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Env:     goEnv(),
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, harnessPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, harness: spkgs[0], entries: map[string]*ssa.Function{}}
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, fmt.Errorf("package runtime not loaded")
	}
	P.runtimeErrType = rt.Type("errorString").Object().Type()
	if rp := prog.ImportedPackage("reflect"); rp != nil {
		P.rtypeT = types.NewPointer(rp.Type("rtype").Object().Type())
		tRValue = rp.Type("Value").Object().Type()
	}
	for n, mem := range spkgs[0].Members {
		f, ok := mem.(*ssa.Function)
		if ok && entryRE.MatchString(n) && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			P.entries[n] = f
		}
	}
	return P, nil
}

var entryRE = regexp.MustCompile(`^[A-Z][0-9][0-9]_`)

// ---------- native replay ----------

type nativeJob struct {
	Entry  string      `json:"entry"`
	Assign *Assignment `json:"assignment"`
}

type nativeResult struct {
	Failed   []string        `json:"failed"`
	Panic    string          `json:"panic"`
	Trace    string          `json:"trace"`
	Excluded bool            `json:"excluded"`
	Missing  []string        `json:"missing"`
	Reached  map[string]bool `json:"reached"`
	Observed []struct {
		Name string `json:"name"`
		Kind string `json:"kind"`
		Int  uint64 `json:"int"`
		Data []byte `json:"data"`
	} `json:"observed"`
	Passed int    `json:"passed"`
	Died   string `json:"-"`
}

type native struct {
	race bool // built with the race detector
	bin  string
	dir  string
	err  error
}

func buildNative(entries []string) *native {
	n := &native{}
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		n.err = err
		return n
	}
	n.dir = dir
	files, err := overlayFiles()
	if err != nil {
		n.err = err
		return n
	}
	var src bytes.Buffer
	src.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\th \"" + harnessPath + "\"\n\t\"" + symPath + "\"\n)\n\nvar table = map[string]func(){\n")
	for _, e := range entries {
		fmt.Fprintf(&src, "\t%q: h.%s,\n", e, e)
	}
	src.WriteString(`}

type job struct {
	Entry  string          ` + "`json:\"entry\"`" + `
	Assign *sym.Assignment ` + "`json:\"assignment\"`" + `
}

func main() {
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var j job
		if dec.Decode(&j) != nil {
			return
		}
		enc.Encode(sym.Run(j.Assign, table[j.Entry]))
	}
}
`)
	mainFile := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainFile, src.Bytes(), 0o644); err != nil {
		n.err = err
		return n
	}
	rep := map[string]string{filepath.Join(repoDir, "zzverif", "replay", "main.go"): mainFile}
	for v, f := range files {
		rep[v] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	n.bin = filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", ovf, "-o", n.bin}
	env := goEnv()
	for _, e := range entries {
		n.race = n.race || raceEntry.MatchString(e)
	}
	if n.race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, modulePath+"/zzverif/replay")...)
	cmd.Dir = repoDir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	return n
}

func (n *native) close() {
	if n.dir != "" && strings.HasPrefix(filepath.Base(n.dir), "gosym-native-") {
		os.RemoveAll(n.dir)
	}
}

// run executes jobs in one process each batch; a job that kills the process is retried alone.
func (n *native) run(jobs []nativeJob) []nativeResult {
	res := make([]nativeResult, len(jobs))
	i := 0
	for i < len(jobs) {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, j := range jobs[i:] {
			enc.Encode(j)
		}
		out, err := n.exec(in.Bytes(), 60*time.Second)
		dec := json.NewDecoder(bytes.NewReader(out))
		got := 0
		for i+got < len(jobs) {
			var r nativeResult
			if dec.Decode(&r) != nil {
				break
			}
			res[i+got] = r
			got++
		}
		i += got
		if i < len(jobs) {
			// job i killed the process or hung
			var one bytes.Buffer
			json.NewEncoder(&one).Encode(jobs[i])
			out, err2 := n.exec(one.Bytes(), 20*time.Second)
			var r nativeResult
			if json.Unmarshal(out, &r) == nil {
				res[i] = r
			} else {
				why := "process died"
				if err2 != nil {
					why = err2.Error()
				} else if err != nil {
					why = err.Error()
				}
				res[i] = nativeResult{Died: why}
			}
			i++
		}
	}
	return res
}

func (n *native) exec(in []byte, timeout time.Duration, env ...string) ([]byte, error) {
	// the child gets a bounded address space so that a runaway allocation cannot hurt the machine
	cmd := exec.Command("bash", "-c", "ulimit -v 20000000; exec \"$0\"", n.bin)
	cmd.Env = append(append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66"), env...)
	cmd.Stdin = bytes.NewReader(in)
	var out, serr bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &serr
	cmd.Dir = n.dir
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			s := strings.TrimLeft(serr.String(), "=\n")
			if k := strings.IndexByte(s, '\n'); k > 0 {
				s = s[:k]
			}
			return out.Bytes(), fmt.Errorf("%v: %s", err, s)
		}
		return out.Bytes(), nil
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return out.Bytes(), fmt.Errorf("no answer within %s", timeout)
	}
}

// runRace repeats a job whose violation is a data race until the race detector sees it.
func (n *native) runRace(v Violation, r nativeResult) nativeResult {
	if !n.race || confirms(v, r) {
		return r
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for i := 0; i < 40; i++ {
		enc.Encode(nativeJob{v.Entry, v.Assign})
	}
	// on one processor items of pools pass from one operation to the other
	for _, procs := range []string{"GOMAXPROCS=1", "GOMAXPROCS=8"} {
		if _, err := n.exec(in.Bytes(), 60*time.Second, procs); err != nil {
			r.Died = err.Error()
			break
		}
	}
	return r
}

// confirms tells whether the native run shows the violation.
func confirms(v Violation, r nativeResult) bool {
	if r.Died != "" {
		return true
	}
	if v.Kind == "panic" {
		return r.Panic != ""
	}
	for _, f := range r.Failed {
		if f == v.Label {
			return true
		}
	}
	return r.Panic != "" && !r.Excluded
}

// ---------- known findings ----------

type finding struct {
	Kind     string `json:"kind"` // "known" or "fixed"
	Property string `json:"property"`
	Entry    string `json:"entry,omitempty"` // regular expression on the harness entry
	Label    string `json:"label,omitempty"` // regular expression on the failing assertion
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings() []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Kind == "known" {
			out = append(out, f)
		}
	}
	return out
}

func matchFinding(fs []finding, prop string, v Violation) *finding {
	for i, f := range fs {
		if f.Property != prop || f.Label == "" {
			continue
		}
		e, err1 := regexp.Compile("^(?:" + f.Entry + ")$")
		l, err2 := regexp.Compile("^(?:" + f.Label + ")$")
		if err1 == nil && err2 == nil && e.MatchString(v.Entry) && l.MatchString(v.Label) {
			return &fs[i]
		}
	}
	return nil
}

// ---------- main ----------

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay|entries ...")
		os.Exit(2)
	}
	rdebug.SetGCPercent(200)
	switch os.Args[1] {
	case "check", "run":
		os.Exit(check(os.Args[1], os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "entries":
		P, err := load()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, e := range sortedKeys(P.entries) {
			fmt.Println(e)
		}
	default:
		os.Exit(2)
	}
}

func replay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := buildNative([]string{v.Entry})
	defer n.close()
	if n.err != nil {
		fmt.Fprintln(os.Stderr, n.err)
		return 2
	}
	r := n.runRace(v, n.run([]nativeJob{{v.Entry, v.Assign}})[0])
	o, _ := json.MarshalIndent(r, "", "  ")
	fmt.Println(string(o))
	if r.Died != "" {
		fmt.Println("process died:", r.Died)
	}
	if confirms(v, r) {
		fmt.Printf("reproduced: %s\n", v.Label)
		return 1
	}
	return 0
}

func check(mode string, args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	entryF := fs.String("entry", "", "regular expression on entries (run mode)")
	budget := fs.Duration("budget", 0, "time budget for exploration")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	solver := fs.String("solver", defaultSolver(), "solver")
	qt := fs.Duration("qt", 0, "solver timeout per query")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))

	natCh := make(chan *native, 1)
	P, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadT := time.Since(t0)
	thorough := *tier == "thorough"
	if thorough {
		P.tier = 1
	}
	if *budget == 0 {
		*budget = 420 * time.Second
		if thorough {
			*budget = 3000 * time.Second
		}
	}
	if *qt == 0 {
		*qt = 60 * time.Second
		if thorough {
			*qt = 180 * time.Second
		}
	}
	var entries []string
	for _, e := range sortedKeys(P.entries) {
		if mode == "check" {
			if !strings.HasPrefix(e, *prop+"_") || strings.HasSuffix(e, "_Deep") && !thorough {
				continue
			}
		} else if ok, _ := regexp.MatchString(*entryF, e); !ok {
			continue
		}
		entries = append(entries, e)
	}
	if len(entries) == 0 {
		fmt.Fprintln(os.Stderr, "no harness entries for", *prop, *entryF)
		return 2
	}
	go func() { natCh <- buildNative(entries) }()
	ex := newExplorer(P)
	if thorough {
		ex.maxSteps *= 5
	}
	ex.deadline = time.Now().Add(*budget)
	tx := time.Now()
	ex.run(entries, *workers, *solver, *qt, seed)
	exploreT := time.Since(tx)
	nat := <-natCh
	defer nat.close()
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, nat.err)
		return 2
	}
	// ---- replay violations and samples natively ----
	var jobs []nativeJob
	for _, v := range ex.violations {
		jobs = append(jobs, nativeJob{v.Entry, v.Assign})
	}
	var smps []Sample
	for _, e := range entries {
		smps = append(smps, ex.samples[e]...)
	}
	nv := len(jobs)
	for _, s := range smps {
		jobs = append(jobs, nativeJob{s.Entry, s.Assign})
	}
	results := nat.run(jobs)
	findings := loadFindings()
	var confirmed, known, unconfirmed []Violation
	knownWhat := map[string]bool{}
	for i, v := range ex.violations {
		if !confirms(v, nat.runRace(v, results[i])) {
			unconfirmed = append(unconfirmed, v)
			continue
		}
		if f := matchFinding(findings, *prop, v); f != nil {
			known = append(known, v)
			knownWhat[f.What] = true
			continue
		}
		confirmed = append(confirmed, v)
	}
	validated := 0
	var mismatches []string
	var sampleOut []any
	for i, s := range smps {
		r := results[nv+i]
		if bad := compareSample(s, r); bad != "" {
			if len(r.Failed) > 0 || r.Panic != "" || r.Died != "" {
				lbl := "panic: " + r.Panic
				if len(r.Failed) > 0 {
					lbl = r.Failed[0]
				} else if r.Died != "" {
					lbl = "process died: " + r.Died
				}
				v := Violation{Entry: s.Entry, Kind: "validation", Label: lbl, Assign: s.Assign}
				if f := matchFinding(findings, *prop, v); f != nil {
					knownWhat[f.What] = true
				} else {
					confirmed = append(confirmed, v)
				}
			}
			mismatches = append(mismatches, s.Entry+": "+bad)
			if debug || mode == "run" {
				b, _ := json.Marshal(s.Assign)
				fmt.Fprintf(os.Stderr, "MISMATCH %s: %s\n  %s\n  %s\n", s.Entry, bad, b, r.Trace)
			}
			continue
		}
		validated++
		if len(sampleOut) < 12 {
			sampleOut = append(sampleOut, map[string]any{"entry": s.Entry, "assignment": s.Assign})
		}
	}
	wall := time.Since(t0)

	// ---- report ----
	type entryOut struct {
		Entry       string         `json:"entry"`
		Paths       int            `json:"paths"`
		Completed   int            `json:"completed"`
		OutOfBounds int            `json:"cut_by_bounds"`
		NotEncoded  int            `json:"not_encoded"`
		Excluded    int            `json:"excluded_by_assumptions"`
		Left        int            `json:"left_unexplored"`
		Instr       int64          `json:"ssa_instructions_executed"`
		Asserts     map[string]int `json:"assertions_discharged"`
		Trivial     map[string]int `json:"assertions_by_simplification"`
		Reached     map[string]int `json:"reached"`
		Seconds     float64        `json:"seconds"`
	}
	var eo []entryOut
	paths, trans, discharged := 0, 0, 0
	complete := true
	for _, e := range entries {
		s := ex.stat(e)
		eo = append(eo, entryOut{e, s.paths, s.done, s.bounded + s.limited, s.unsup, s.assumed, ex.left[e], s.steps, s.asserts, s.trivial, s.reached, s.dur.Seconds()})
		paths += s.paths
		trans += s.decisions
		for _, c := range s.asserts {
			discharged += c
		}
		if s.bounded+s.limited+s.unsup+ex.left[e] > 0 {
			complete = false
		}
	}
	if mode == "run" {
		for _, e := range eo {
			b, _ := json.Marshal(e)
			fmt.Println(string(b))
		}
		for _, n := range sortedKeys(ex.notes) {
			fmt.Printf("note: %s (x%d)\n", n, ex.notes[n])
		}
		for _, v := range confirmed {
			b, _ := json.Marshal(v)
			fmt.Printf("CONFIRMED %s\n", b)
		}
		for _, v := range unconfirmed {
			b, _ := json.Marshal(v)
			fmt.Printf("UNCONFIRMED %s\n", b)
		}
		for _, v := range known {
			fmt.Printf("KNOWN %s %s\n", v.Entry, v.Label)
		}
		fmt.Printf("load %.1fs explore %.1fs total %.1fs; %d paths, %d queries (%d sat %d unsat %d unknown) solver %.1fs slowest %.2fs; validated %d/%d; terms %d\n", loadT.Seconds(), exploreT.Seconds(), wall.Seconds(), paths, ex.queries, ex.nsat, ex.nunsat, ex.nunk, ex.solverTime.Seconds(), ex.slowest.Seconds(), validated, len(smps), ex.termsMax)
		return 0
	}
	for _, w := range sortedKeys(knownWhat) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, w)
	}
	var fns []string
	for f := range ex.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var notes []string
	for _, n := range sortedKeys(ex.notes) {
		notes = append(notes, fmt.Sprintf("%s (x%d)", n, ex.notes[n]))
	}
	if len(sampleOut) == 0 {
		sampleOut = append(sampleOut, "no completed path")
	}
	var unc []any
	for _, v := range unconfirmed {
		unc = append(unc, v)
	}
	cov := map[string]any{
		"states":                          paths,
		"transitions":                     trans,
		"traces_validated_against_impl":   validated,
		"samples":                         sampleOut,
		"exhaustive":                      false,
		"within_bounds_complete":          complete,
		"functions_encoded":               fns,
		"entries":                         eo,
		"bounds":                          boundsText(*prop),
		"outside_the_bounds_or_cut":       notes,
		"solver":                          *solver,
		"queries":                         ex.queries,
		"queries_sat":                     ex.nsat,
		"queries_unsat":                   ex.nunsat,
		"queries_unknown":                 ex.nunk,
		"solver_seconds":                  ex.solverTime.Seconds(),
		"slowest_query_seconds":           ex.slowest.Seconds(),
		"assertions_discharged_by_solver": discharged,
		"encoding_mismatches":             mismatches,
		"unconfirmed_counterexamples":     unc,
		"known_findings_seen":             sortedKeys(knownWhat),
		"load_seconds":                    loadT.Seconds(),
		"explore_seconds":                 exploreT.Seconds(),
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": len(confirmed),
		"assumptions": []string{
			"the Go standard library outside the functions listed as encoded is executed symbolically from its own source, except encoding/json, encoding/binary.Read/Write, reflect, fmt, math kernels, sync, os and bytealg kernels, which are modelled (DESIGN.md lists the models)",
			"gc compiler on linux/amd64: little-endian, 64-bit int; float operations round to nearest even without fusing",
			"single goroutine",
			"z3's verdicts",
		},
	}
	if err := writeJSON(filepath.Join(verifDir, "evidence", *prop+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rc := 0
	seen := map[string]bool{}
	for i, v := range confirmed {
		if seen[v.Entry+v.Label] {
			continue
		}
		seen[v.Entry+v.Label] = true
		p := filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-%d.json", *prop, i))
		writeJSON(p, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		fmt.Printf("  %s: %s\n", v.Entry, v.Label)
		rc = 1
	}
	fmt.Printf("%s %s: %d paths, %d assertions discharged, %d queries, solver %.1fs, validated %d/%d, wall %.1fs, complete=%v, unconfirmed=%d\n", *prop, *tier, paths, discharged, ex.queries, ex.solverTime.Seconds(), validated, len(smps), wall.Seconds(), complete, len(unconfirmed))
	return rc
}

func boundsText(prop string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "bounds.json"))
	if err != nil {
		return ""
	}
	m := map[string]string{}
	json.Unmarshal(b, &m)
	return m[prop]
}

func writeJSON(p string, v any) error {
	os.MkdirAll(filepath.Dir(p), 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(p, append(b, '\n'), 0o644)
}

func compareSample(s Sample, r nativeResult) string {
	switch {
	case r.Died != "":
		return "native process died: " + r.Died
	case r.Panic != "":
		return "native panic: " + r.Panic
	case len(r.Failed) > 0:
		return "native assertion failed: " + strings.Join(r.Failed, "; ")
	case r.Excluded:
		return "natively excluded by an assumption"
	case len(r.Missing) > 0:
		return "native run asked for other inputs: " + strings.Join(r.Missing, ",")
	}
	for _, l := range s.Reached {
		if !r.Reached[l] {
			return "native run did not reach " + l
		}
	}
	if len(s.Reached) != len(r.Reached) {
		return fmt.Sprintf("native run reached more points: %v vs %v", r.Reached, s.Reached)
	}
	if len(s.Observes) > len(r.Observed) {
		return fmt.Sprintf("native run observed %d values instead of %d", len(r.Observed), len(s.Observes))
	}
	for i, o := range s.Observes {
		if i >= len(r.Observed) {
			break
		}
		n := r.Observed[i]
		if n.Name != o.name {
			return "native run observed " + n.Name + " instead of " + o.name
		}
		if o.kind == "skip" {
			continue
		}
		if o.kind == "int" {
			a, b := o.v, n.Int
			if a != b {
				if n.Kind == "f32" && fpConst(SFP32, a) != fpConst(SFP32, a) && fpConst(SFP32, b) != fpConst(SFP32, b) {
					continue
				}
				if n.Kind == "f64" && fpConst(SFP64, a) != fpConst(SFP64, a) && fpConst(SFP64, b) != fpConst(SFP64, b) {
					continue
				}
				return fmt.Sprintf("observed %s: native %#x, symbolic %#x", n.Name, b, a)
			}
		} else if !bytes.Equal(o.data, n.Data) {
			return fmt.Sprintf("observed %s: native %q, symbolic %q", n.Name, n.Data, o.data)
		}
	}
	return ""
}

func defaultSolver() string {
	if _, err := os.Stat("/usr/local/bin/z3-new"); err == nil {
		return "/usr/local/bin/z3-new"
	}
	return "/usr/bin/z3"
}
