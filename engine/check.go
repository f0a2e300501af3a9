package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// openList names what the verifier does not decide on the tree the contracts
// were written for. It is committed; nothing writes it during a check.
type openList struct {
	// Open: obligation key (target|kind|what) -> why it is not discharged.
	Open map[string]string
	// Undecided: target|kind -> why the function could not be brought within reach.
	Undecided map[string]string
	// Targets seen; an unproved generic obligation of a function that did not exist is reported, not raised.
	Targets map[string]bool
	// Ext: functions outside the package the verifier has a model for or treats as an unknown function.
	Ext map[string]bool
	// Contracts: contract functions that were type-correct, by target.
	Contracts map[string]bool
}

func openPath(verif string) string { return filepath.Join(verif, "open.json") }

func loadOpen(verif string) *openList {
	o := &openList{Open: map[string]string{}, Undecided: map[string]string{}, Targets: map[string]bool{}, Ext: map[string]bool{}, Contracts: map[string]bool{}}
	var f struct {
		Open, Undecided         map[string]string
		Targets, Ext, Contracts []string
	}
	b, err := os.ReadFile(openPath(verif))
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		return o
	}
	if f.Open != nil {
		o.Open = f.Open
	}
	if f.Undecided != nil {
		o.Undecided = f.Undecided
	}
	for _, t := range f.Targets {
		o.Targets[t] = true
	}
	for _, t := range f.Ext {
		o.Ext[t] = true
	}
	for _, t := range f.Contracts {
		o.Contracts[t] = true
	}
	return o
}

func (o *openList) save(verif string) error {
	b, err := json.MarshalIndent(struct {
		Open, Undecided         map[string]string
		Targets, Ext, Contracts []string
	}{o.Open, o.Undecided, sortedKeys(o.Targets), sortedKeys(o.Ext), sortedKeys(o.Contracts)}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(openPath(verif), append(b, '\n'), 0o644)
}

var reNums = regexp.MustCompile(`\(path \d+/\d+\)|inv_([A-Za-z_]+)_\d+`)

// oblKey identifies an obligation without positions or path numbers.
func oblKey(target, kind, what string) string {
	w := reNums.ReplaceAllStringFunc(what, func(s string) string {
		if strings.HasPrefix(s, "inv_") {
			return s
		}
		return ""
	})
	return target + "|" + kind + "|" + strings.TrimSpace(w)
}

// what of each property is decided by which kind of obligation
var genericKinds = map[string]string{"C05": "panic", "C04": "error", "C14": "frame"}

// jobsFor lists the functions whose obligations make up a property.
func (e *Engine) jobsFor(prop string) []job {
	var jobs []job
	seen := map[string]bool{}
	gk := genericKinds[prop]
	for _, fn := range e.entrySet() {
		n := shortName(fn)
		var kinds []string
		if gk != "" && e.hasGeneric(gk, fn) {
			kinds = append(kinds, gk)
		}
		if c := e.contracts[n]; c != nil && contains(c.Props, prop) {
			kinds = append(kinds, "spec")
		}
		if len(kinds) > 0 && !seen[n] {
			seen[n] = true
			jobs = append(jobs, job{n, kinds})
		}
	}
	return jobs
}

// hasGeneric: whether a function can have obligations of a generic kind at all.
func (e *Engine) hasGeneric(kind string, fn *ssa.Function) bool {
	if kind != "error" {
		return true
	}
	res, in := false, false
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		res = res || e.errCapable(sig.Results().At(i).Type())
	}
	for _, p := range fn.Params {
		in = in || e.errCapable(p.Type())
	}
	return res && in
}

type violation struct {
	Obligations []oblRes `json:",omitempty"`
	Targets     []string `json:",omitempty"`
	Input       *failure `json:",omitempty"`
}

type failure struct {
	Key      string
	What     string
	Input    string
	Expected string
	Actual   string
}

type replayOut struct {
	Cases    int
	Distinct int
	Samples  []string
	Failures []failure
	Seconds  float64
	Note     string
}

const trustedNote = "the obligation generator in /verif/engine (Go SSA semantics as implemented there), golang.org/x/tools/go/ssa and go/types, z3 4.x and cvc5 1.1.2"

func cmdCheck(repo, verif, prop string) int {
	t0 := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	limit, total, rtime := 45*time.Second, 420*time.Second, 20*time.Second
	if tier == "thorough" {
		limit, total, rtime = 300*time.Second, 3000*time.Second, 180*time.Second
	}
	open := loadOpen(verif)

	// the replay program is built and run while the verifier works
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rch := make(chan replayOut, 1)
	go func() { rch <- runReplay(ctx, repo, verif, prop, seed, rtime) }()

	e, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load", repo, err)
		return 2
	}
	jobs := e.jobsFor(prop)
	var run []job
	undecided := map[string]string{}
	for _, j := range jobs {
		var ks []string
		for _, k := range j.Kinds {
			if w, ok := open.Undecided[j.Target+"|"+k]; ok && tier != "thorough" {
				undecided[j.Target+"|"+k] = w
				continue
			}
			ks = append(ks, k)
		}
		if len(ks) > 0 {
			run = append(run, job{j.Target, ks})
		}
	}
	vacuous := len(run) == 0
	rs := runJobs(repo, verif, run, 8, limit, t0.Add(total))
	// unknowns and given-up functions get a second try with nothing else running
	var again []job
	idx := map[string]int{}
	for i, r := range rs {
		idx[r.Target] = i
		retry := r.Unsupp != "" && !open.has(r.Target) && strings.Contains(r.Unsupp, "answer")
		for _, o := range r.Obls {
			if o.Status == "unknown" && open.Open[oblKey(r.Target, o.Kind, o.What)] == "" {
				retry = true
			}
		}
		if retry {
			again = append(again, run[i])
		}
	}
	if len(again) > 0 && len(again) <= 12 {
		os.Setenv("VC_SLOW", "1")
		for _, r := range runJobs(repo, verif, again, 3, 2*limit, t0.Add(total+200*time.Second)) {
			rs[idx[r.Target]] = r
		}
		os.Unsetenv("VC_SLOW")
	}
	rep := <-rch

	ev := newEvidence(prop, tier, seed, e, verif)
	ev.open = open
	ev.undecided = undecided
	// excuse tells why an obligation that is not discharged is no alarm by itself
	excuse := func(r *jobRes, o oblRes) string {
		newExt := ""
		for x := range r.Ext {
			if !open.Ext[x] {
				newExt = x
			}
		}
		k := oblKey(r.Target, o.Kind, o.What)
		generic := kindGroup(o.Kind) != "spec"
		switch {
		case open.Open[k] != "":
			return open.Open[k]
		case o.Kind == "vacuity":
			return ""
		case generic && !open.Targets[r.Target]:
			return "the function is not in the tree the contracts were written for"
		case open.Undecided[r.Target+"|"+kindGroup(o.Kind)] != "":
			return "out of reach on the tree the contracts were written for"
		case newExt != "":
			return "depends on " + newExt + ", which the verifier has no model of"
		case o.Status == "unknown":
			return noAnswer
		case loopDependent(o):
			return noInvariant
		}
		return ""
	}
	var vio violation
	seenT := map[string]bool{}
	var unroll []job
	for i, r := range rs {
		ev.add(r)
		lost := r.Unsupp != "" && !open.has(r.Target) && (strings.Contains(r.Unsupp, "answer") || strings.Contains(r.Unsupp, "steps"))
		for _, o := range r.Obls {
			if o.Status == "proved" {
				continue
			}
			why := excuse(r, o)
			if why != "" {
				ev.openNow[oblKey(r.Target, o.Kind, o.What)] = why
				lost = lost || why == noAnswer || why == noInvariant
				continue
			}
			vio.Obligations = append(vio.Obligations, o)
			seenT[r.Target] = true
		}
		if lost {
			unroll = append(unroll, run[i])
		}
		if r.Unsupp != "" {
			for _, k := range []string{"spec", "error", "panic", "frame"} {
				ev.undecided[r.Target+"|"+k] = r.Unsupp
			}
		}
	}
	// obligations lost for want of an invariant or an answer are tried for lists
	// of fixed lengths, where no invariant is needed: this decides nothing for all
	// lengths, but a refutation found this way is one.
	if len(unroll) > 0 && len(unroll) <= 40 {
		for _, n := range fixedLengths {
			if time.Since(t0) > total {
				break
			}
			os.Setenv("VC_FIXLEN", strconv.Itoa(n))
			for _, r := range runJobs(repo, verif, unroll, 8, limit, t0.Add(total+150*time.Second)) {
				ev.unrolled[r.Target+"|"+strconv.Itoa(n)] = len(r.Obls)
				for _, o := range r.Obls {
					if o.Status == "failed" && o.Kind != "vacuity" && o.Kind != "frame" && excuse(r, o) == "" {
						o.What += " (for lists of " + strconv.Itoa(n) + " elements)"
						vio.Obligations = append(vio.Obligations, o)
						seenT[r.Target] = true
					}
				}
			}
			os.Unsetenv("VC_FIXLEN")
		}
	}
	for t := range open.Contracts {
		parts := strings.SplitN(t, "|", 2)
		if len(parts) == 2 && contains(strings.Fields(parts[1]), prop) && e.contracts[parts[0]] == nil {
			ev.undecided[parts[0]+"|spec"] = "the contract no longer applies to the code"
		}
	}
	vio.Targets = sortedKeys(seenT)
	ev.replay = rep
	known := knownFindings(verif, prop)
	var fresh *failure
	for i := range rep.Failures {
		f := rep.Failures[i]
		if kf, ok := known[f.Key]; ok {
			kf.seen = true
			continue
		}
		if fresh == nil {
			fresh = &f
		}
	}
	code := 0
	nvio := 0
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[k].text)
	}
	if fresh != nil || len(vio.Obligations) > 0 {
		nvio = len(vio.Obligations)
		if fresh != nil {
			nvio++
		}
		vio.Input = fresh
		dir := filepath.Join(verif, "evidence")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, prop+".replay.json")
		b, _ := json.MarshalIndent(vio, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		for i, o := range vio.Obligations {
			if i < 5 {
				fmt.Printf("failed obligation [%s] %s at %s: %s\n  goal %s\n", o.Kind, o.What, o.Pos, o.Solver, clipN(o.Goal, 400))
			}
		}
		if fresh != nil {
			fmt.Printf("failing input: %s\n  %s\n  expected %s\n  actual   %s\n", fresh.What, clipN(fresh.Input, 1500), clipN(fresh.Expected, 600), clipN(fresh.Actual, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
		code = 1
	}
	if vacuous {
		fmt.Fprintln(os.Stderr, "no obligations for", prop)
		return 2
	}
	if code == 0 && ev.obligations == 0 {
		fmt.Fprintln(os.Stderr, "no obligation was generated for", prop)
		return 2
	}
	ev.violations = nvio
	ev.write(filepath.Join(verif, "evidence", prop+".json"), time.Since(t0))
	fmt.Printf("%s: %d functions, %d obligations, %d proved, %d open keys, %d undecided functions; %d replay cases; %.1fs\n",
		prop, ev.functions, ev.obligations, ev.discharged, len(ev.openNow), len(ev.undecided), rep.Cases, time.Since(t0).Seconds())
	e.pool.Close()
	return code
}

func (o *openList) has(target string) bool {
	for _, k := range []string{"spec", "error", "panic", "frame"} {
		if _, ok := o.Undecided[target+"|"+k]; ok {
			return true
		}
	}
	return false
}

var reLoop = regexp.MustCompile(`\b(lv|k|lw)!\d+`)

const (
	noAnswer    = "the solvers gave no answer"
	noInvariant = "no loop invariant strong enough was found"
)

var fixedLengths = []int{0, 1, 2, 3, 4, 5}

// loopDependent: the failure is stated about the values a loop leaves behind.
func loopDependent(o oblRes) bool {
	return reLoop.MatchString(o.Goal) || reLoop.MatchString(o.Given)
}

type knownFinding struct {
	text string
	seen bool
}

// knownFindings: lines "finding: property=ID key=KEY text"; "fixed:" lines suppress nothing.
func knownFindings(verif, prop string) map[string]*knownFinding {
	out := map[string]*knownFinding{}
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		w := strings.SplitN(strings.TrimSpace(sc.Text()), " ", 4)
		if len(w) == 4 && w[0] == "finding:" && w[1] == "property="+prop && strings.HasPrefix(w[2], "key=") {
			out[w[2][4:]] = &knownFinding{text: w[3]}
		}
	}
	return out
}

// runReplay builds the program in /verif/replay against the repository and runs it.
func runReplay(ctx context.Context, repo, verif, prop string, seed int, d time.Duration) replayOut {
	var out replayOut
	src := filepath.Join(verif, "replay")
	if _, err := os.Stat(filepath.Join(src, "main.go")); err != nil {
		out.Note = "no replay program"
		return out
	}
	tmp, err := os.MkdirTemp("", "vcreplay")
	if err != nil {
		out.Note = err.Error()
		return out
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	if err := buildReplay(ctx, repo, src, tmp, bin); err != nil {
		out.Note = "the replay program does not build: " + err.Error()
		return out
	}
	res := filepath.Join(tmp, "out.json")
	c2, cancel := context.WithTimeout(ctx, d+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-time", d.String(), "-out", res)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	var eb strings.Builder
	cmd.Stderr = &eb
	runErr := cmd.Run()
	b, err := os.ReadFile(res)
	if err != nil || json.Unmarshal(b, &out) != nil {
		out.Note = fmt.Sprintf("the replay program ended without a result: %v %s", runErr, clipN(eb.String(), 3000))
		// a crash of the code under test that a recover cannot catch (stack exhaustion, concurrent map write)
		if strings.Contains(eb.String(), "fatal error") && !strings.Contains(eb.String(), "out of memory") {
			out.Failures = append(out.Failures, failure{Key: "crash", What: "the process is ended by the code under test", Input: "replay -prop " + prop + " -seed " + fmt.Sprint(seed), Expected: "no crash", Actual: clipN(eb.String(), 3000)})
		}
	}
	return out
}

func buildReplay(ctx context.Context, repo, src, tmp, bin string) error {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	lines := strings.Split(string(mod), "\n")
	name := ""
	for _, l := range lines {
		if strings.HasPrefix(l, "module ") {
			name = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	m := "module vcreplay\n\ngo 1.21\n\nrequire " + name + " v0.0.0\n\nreplace " + name + " => " + repo + "\n"
	// the repository's own requirements
	in := false
	for _, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "require (") {
			in = true
			m += "\nrequire (\n"
			continue
		}
		if in {
			m += l + "\n"
			if t == ")" {
				in = false
			}
			continue
		}
		if strings.HasPrefix(t, "require ") {
			m += l + "\n"
		}
	}
	work := filepath.Join(tmp, "src")
	if err := os.MkdirAll(work, 0o755); err != nil {
		return err
	}
	fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(work, filepath.Base(f)), b, 0o644); err != nil {
			return err
		}
	}
	if err := genFuncTable(repo, filepath.Join(work, "zz_funcs.go")); err != nil {
		return err
	}
	os.WriteFile(filepath.Join(work, "go.mod"), []byte(m), 0o644)
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(work, "go.sum"), sum, 0o644)
	cmd := exec.CommandContext(ctx, "go", "build", "-mod=mod", "-o", bin, ".")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=", "GOWORK=off")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, clipN(string(b), 2000))
	}
	return nil
}

// ---------------------------------------------------------------- baseline

// cmdBaseline writes open.json: what is not discharged on this tree.
func cmdBaseline(repo, verif string, names []string) {
	t0 := time.Now()
	e, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	open := &openList{Open: map[string]string{}, Undecided: map[string]string{}, Targets: map[string]bool{}, Ext: map[string]bool{}, Contracts: map[string]bool{}}
	if len(names) > 0 {
		open = loadOpen(verif)
	}
	match := func(n string) bool {
		if len(names) == 0 {
			return true
		}
		for _, m := range names {
			if n == m || strings.HasSuffix(m, "*") && strings.HasPrefix(n, m[:len(m)-1]) {
				return true
			}
		}
		return false
	}
	for _, m := range []map[string]string{open.Open, open.Undecided} {
		for k := range m {
			if match(strings.SplitN(k, "|", 2)[0]) {
				delete(m, k)
			}
		}
	}
	for k := range open.Contracts {
		if match(strings.SplitN(k, "|", 2)[0]) {
			delete(open.Contracts, k)
		}
	}
	var jobs []job
	for _, fn := range e.entrySet() {
		n := shortName(fn)
		if !match(n) {
			continue
		}
		open.Targets[n] = true
		c := e.contracts[n]
		if c != nil {
			open.Contracts[n+"|"+strings.Join(c.Props, " ")] = true
			if c.Spec != nil || len(c.Ensures) > 0 {
				jobs = append(jobs, job{n, []string{"spec"}})
			}
		}
		jobs = append(jobs, job{n, []string{"panic"}}, job{n, []string{"frame"}})
		if e.hasGeneric("error", fn) {
			jobs = append(jobs, job{n, []string{"error"}})
		}
	}
	rs := runJobs(repo, verif, jobs, 7, 20*time.Second, t0.Add(5*time.Hour))
	var mu sync.Mutex
	_ = &mu
	nb := 0
	for i, r := range rs {
		for x := range r.Ext {
			open.Ext[x] = true
		}
		kind := jobs[i].Kinds[0]
		if r.Unsupp != "" {
			open.Undecided[r.Target+"|"+kind] = r.Unsupp
			if kind == "spec" {
				fmt.Printf("UNS spec %s: %s\n", r.Target, r.Unsupp)
			}
			continue
		}
		if r.Wall > 15 {
			open.Undecided[r.Target+"|"+kind] = fmt.Sprintf("takes too long (%.0f s)", r.Wall)
			if kind == "spec" {
				fmt.Printf("SLOW spec %s: %.0f\n", r.Target, r.Wall)
			}
			continue
		}
		for _, o := range r.Obls {
			k := oblKey(r.Target, o.Kind, o.What)
			if o.Status != "proved" {
				if open.Open[k] == "" {
					nb++
					if kind == "spec" {
						fmt.Printf("OPEN %s: %s goal %s\n", k, o.Status, clipN(o.Goal, 300))
					}
				}
				open.Open[k] = o.Status
			} else if o.Ms > 3000 {
				if open.Open[k] == "" {
					open.Open[k] = "proved, but too slowly to rely on"
				}
			}
		}
	}
	if err := open.save(verif); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%d jobs, %d open obligations, %d undecided functions, %.0fs\n", len(jobs), len(open.Open), len(open.Undecided), time.Since(t0).Seconds())
	e.pool.Close()
}

// ---------------------------------------------------------------- evidence

type evidence struct {
	prop, tier              string
	seed                    int
	e                       *Engine
	verif                   string
	functions               int
	obligations, discharged int
	bySolver                map[string]int
	byKind                  map[string]int
	solverMs                float64
	calls                   int
	openNow                 map[string]string
	unrolled                map[string]int
	undecided               map[string]string
	open                    *openList
	ext                     map[string]int
	contractsUsed           map[string]int
	targets                 []string
	samples                 []string
	replay                  replayOut
	violations              int
}

func newEvidence(prop, tier string, seed int, e *Engine, verif string) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, e: e, verif: verif, bySolver: map[string]int{}, byKind: map[string]int{}, openNow: map[string]string{}, unrolled: map[string]int{}, ext: map[string]int{}, contractsUsed: map[string]int{}, undecided: map[string]string{}}
}

func (ev *evidence) add(r *jobRes) {
	if len(r.Obls) > 0 {
		ev.functions++
		ev.targets = append(ev.targets, r.Target)
	}
	ev.calls += r.Calls
	ev.solverMs += r.SolverMs
	for k, v := range r.Ext {
		ev.ext[k] += v
	}
	for k, v := range r.Called {
		ev.contractsUsed[k] += v
	}
	for _, o := range r.Obls {
		ev.obligations++
		ev.byKind[o.Kind]++
		if o.Status == "proved" {
			ev.discharged++
			ev.bySolver[o.Solver]++
			if o.Solver != "simplifier" && len(ev.samples) < 5 {
				ev.samples = append(ev.samples, r.Target+": "+o.What+" ("+o.Solver+")")
			}
		}
	}
}

func (ev *evidence) write(path string, wall time.Duration) {
	var exm []string
	for _, k := range sortedKeys(ev.e.exempt) {
		for _, t := range sortedKeys(ev.e.exempt[k]) {
			exm = append(exm, k+" "+t+": "+ev.e.exempt[k][t])
		}
	}
	tb := []string{trustedNote,
		"Go standard library functions used by the code, modelled or treated as unknown pure functions: " + strings.Join(sortedKeys(ev.ext), ", "),
		"integers are mathematical; floating point is uninterpreted; strings are sequences of characters",
		"the key of a value made by getAddress differs from every key that exists before the call (xid is unique)",
	}
	assumptions := []string{
		"functions called with an arbitrary receiver get one that satisfies the class invariants in contracts/inv.go; that every exported function keeps them is among the obligations of C05 (those it does not discharge are listed there as open)",
		"accept, enter and leave of a part, called through an interface, are unknown functions of the part and the state of the renderer; each implementation is under its own contract",
		"no concurrent use of one value (the package starts no goroutines)",
	}
	cov := map[string]any{
		"obligations":                 ev.obligations,
		"discharged":                  ev.discharged,
		"checker_cmd":                 "bin/vc check " + ev.prop,
		"trusted_base":                tb,
		"functions_with_obligations":  ev.functions,
		"functions":                   ev.targets,
		"obligations_by_kind":         ev.byKind,
		"discharged_by":               ev.bySolver,
		"solver_calls":                ev.calls,
		"solver_seconds":              ev.solverMs / 1000,
		"open_obligations":            ev.openNow,
		"bounded_unrolled":            map[string]any{"note": "functions whose obligations were lost for want of a loop invariant or an answer, tried for lists of fixed lengths; bounded, not counted as discharged", "lengths": fixedLengths, "obligations_by_function_and_length": ev.unrolled},
		"functions_out_of_reach":      ev.undecided,
		"contracts_used_at_calls":     ev.contractsUsed,
		"contract_declarations_unfit": append(append([]string{}, ev.e.dropped...), ev.e.orphans...),
		"exemptions":                  exm,
		"sample_obligations":          ev.samples,
		"bounded_stand_in": map[string]any{
			"what":     "random programs over the exported API compared with an independent model; used to find failing inputs for failed obligations and, labelled bounded, for the functions out of reach",
			"cases":    ev.replay.Cases,
			"distinct": ev.replay.Distinct,
			"seconds":  ev.replay.Seconds,
			"samples":  ev.replay.Samples,
			"note":     ev.replay.Note,
		},
	}
	m := map[string]any{
		"property": ev.prop, "tier": ev.tier, "seed": ev.seed, "level": "proof",
		"coverage": cov, "assumptions": assumptions, "wall_s": wall.Seconds(), "violations": ev.violations,
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

var _ = sort.Strings

// genFuncTable lists the exported functions and variables of the package for the replay program.
func genFuncTable(repo, path string) error {
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, repo, func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		return err
	}
	var fs, vs []string
	for n, p := range pkgs {
		if n != "cypher" {
			continue
		}
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() && d.Type.TypeParams == nil {
						fs = append(fs, d.Name.Name)
					}
				case *ast.GenDecl:
					if d.Tok == token.VAR {
						for _, s := range d.Specs {
							for _, n := range s.(*ast.ValueSpec).Names {
								if n.IsExported() {
									vs = append(vs, n.Name)
								}
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(fs)
	sort.Strings(vs)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport cypher \"github.com/manhcuongbk56/cypher-go-dsl\"\n\nvar apiFuncs = map[string]any{\n")
	for _, f := range fs {
		fmt.Fprintf(&sb, "\t%q: cypher.%s,\n", f, f)
	}
	sb.WriteString("}\n\nvar apiVars = map[string]any{\n")
	for _, v := range vs {
		fmt.Fprintf(&sb, "\t%q: cypher.%s,\n", v, v)
	}
	sb.WriteString("}\n")
	return os.WriteFile(path, []byte(sb.String()), 0o644)
}
