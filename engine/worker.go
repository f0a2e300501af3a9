package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// One function is verified by one worker process at a time: the term store
// is not shared, and a function that explodes can be stopped.

type job struct {
	Target string
	Kinds  []string // spec error panic frame
}

type oblRes struct {
	Kind, What, Status, Solver, Pos string
	Goal, Given, Detail             string `json:",omitempty"`
	Ms                              float64
}

type jobRes struct {
	Target   string
	Obls     []oblRes
	Paths    int
	Unsupp   string
	Props    []string
	HasSpec  bool
	Ext      map[string]int
	Called   map[string]int
	Problems []string
	Calls    int
	SolverMs float64
	Wall     float64
}

func kindGroup(k string) string {
	switch k {
	case "pre", "inv", "panic", "vacuity":
		return "panic"
	case "ensures", "spec":
		return "spec"
	}
	return k
}

func (e *Engine) runJob(j job) *jobRes {
	t0 := time.Now()
	fn := e.funcs[j.Target]
	r := &jobRes{Target: j.Target}
	if fn == nil {
		r.Unsupp = "no such function"
		return r
	}
	want := map[string]bool{}
	for _, k := range j.Kinds {
		want[k] = true
	}
	e.usedExt = map[string]int{}
	e.usedContracts = map[string]int{}
	c0, s0 := e.pool.Calls, e.pool.Time
	all := wants{want["spec"], want["error"], want["panic"], want["frame"]}
	var tr *TargetResult
	if c := e.contracts[j.Target]; c != nil && len(c.Opaque) > 0 && all.spec && all != (wants{spec: true}) {
		// the postconditions see other functions as unknown ones, the rest does not
		tr = e.verify(fn, wants{spec: true})
		all.spec = false
		rest := e.verify(fn, all)
		keep := tr.Obls[:0]
		for _, o := range tr.Obls {
			if kindGroup(o.Kind) == "spec" || o.Kind == "vacuity" {
				keep = append(keep, o)
			}
		}
		tr.Obls = append(keep, rest.Obls...)
		if tr.Unsupp == "" {
			tr.Unsupp = rest.Unsupp
		}
	} else {
		tr = e.verify(fn, all)
	}
	var obls []*Obligation
	for _, o := range tr.Obls {
		if want[kindGroup(o.Kind)] || o.Kind == "vacuity" {
			obls = append(obls, o)
		}
	}
	e.discharge(obls, 0)
	r.Paths, r.Unsupp, r.HasSpec = tr.Paths, tr.Unsupp, tr.C != nil && tr.C.Spec != nil
	if tr.C != nil {
		r.Props = tr.C.Props
	}
	for _, o := range obls {
		q := oblRes{Kind: o.Kind, What: o.What, Status: o.Status, Solver: o.Solver, Ms: o.Ms, Pos: strings.TrimPrefix(e.fset.Position(o.Pos).String(), e.repo+"/")}
		if o.Status != "proved" {
			q.Goal = clipN(o.Goal.String(), 3000)
			q.Given = clipN(fmt.Sprint(o.Assume), 3000)
			q.Detail = clipN(o.Detail, 6000)
		}
		r.Obls = append(r.Obls, q)
	}
	r.Ext, r.Called, r.Problems = e.usedExt, e.usedContracts, e.invProblems
	r.Calls, r.SolverMs = e.pool.Calls-c0, float64((e.pool.Time - s0).Milliseconds())
	r.Wall = time.Since(t0).Seconds()
	return r
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func cmdWorker(repo, verif string) {
	debug.SetGCPercent(400)
	e, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			break
		}
		var j job
		if json.Unmarshal([]byte(line), &j) != nil {
			continue
		}
		r := e.runJob(j)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	e.pool.Close()
}

type workerProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(repo, verif string) (*workerProc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "worker")
	cmd.Env = append(os.Environ(), "VC_REPO="+repo, "VC_VERIF="+verif, "GOMEMLIMIT=3GiB")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &workerProc{cmd, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

func (w *workerProc) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func (w *workerProc) do(j job, d time.Duration) (*jobRes, error) {
	b, _ := json.Marshal(j)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		s, err := w.out.ReadString('\n')
		ch <- res{s, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return nil, fmt.Errorf("worker died: %v", r.err)
		}
		var jr jobRes
		if err := json.Unmarshal([]byte(r.s), &jr); err != nil {
			return nil, err
		}
		return &jr, nil
	case <-time.After(d):
		return nil, fmt.Errorf("no answer within %v", d)
	}
}

// runJobs verifies the targets on n worker processes; a job over its time limit is given up.
func runJobs(repo, verif string, jobs []job, n int, limit time.Duration, deadline time.Time) []*jobRes {
	res := make([]*jobRes, len(jobs))
	var mu sync.Mutex
	next := 0
	prog := os.Getenv("VC_PROGRESS") != ""
	var wg sync.WaitGroup
	if n > len(jobs) {
		n = len(jobs)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *workerProc
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				if next >= len(jobs) {
					mu.Unlock()
					return
				}
				k := next
				next++
				mu.Unlock()
				left := time.Until(deadline)
				if left < time.Second {
					res[k] = &jobRes{Target: jobs[k].Target, Unsupp: "not reached within the time limit of the check"}
					continue
				}
				lim := limit
				if left < lim {
					lim = left
				}
				if w == nil {
					var err error
					w, err = startWorker(repo, verif)
					if err != nil {
						res[k] = &jobRes{Target: jobs[k].Target, Unsupp: "worker: " + err.Error()}
						w = nil
						continue
					}
				}
				r, err := w.do(jobs[k], lim)
				if err != nil {
					w.stop()
					w = nil
					r = &jobRes{Target: jobs[k].Target, Unsupp: err.Error()}
				}
				res[k] = r
				if prog {
					fmt.Fprintf(os.Stderr, "%d/%d %s %v %.1fs %s\n", k, len(jobs), jobs[k].Target, jobs[k].Kinds, r.Wall, r.Unsupp)
				}
			}
		}()
	}
	wg.Wait()
	return res
}

func cmdSweep(repo, verif string, kinds []string) {
	t0 := time.Now()
	e, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if e.dropped != nil || e.orphans != nil {
		fmt.Println("dropped", e.dropped, "orphans", e.orphans)
	}
	var jobs []job
	var names []string
	i := 0
	for ; i < len(kinds); i++ {
		if kinds[i] == "--" {
			names = kinds[i+1:]
			kinds = kinds[:i]
		}
	}
	for _, fn := range e.entrySet() {
		n := shortName(fn)
		if len(names) > 0 {
			ok := false
			for _, m := range names {
				ok = ok || n == m || strings.HasSuffix(m, "*") && strings.HasPrefix(n, m[:len(m)-1])
			}
			if !ok {
				continue
			}
		}
		jobs = append(jobs, job{n, kinds})
	}
	lim := 20 * time.Second
	rs := runJobs(repo, verif, jobs, 8, lim, t0.Add(3*time.Hour))
	tot, bad, uns := 0, 0, 0
	for _, r := range rs {
		nb := 0
		tot += len(r.Obls)
		seen := map[string]bool{}
		for _, o := range r.Obls {
			if o.Status != "proved" {
				nb++
				key := o.Kind + o.What + o.Pos
				if seen[key] {
					continue
				}
				seen[key] = true
				fmt.Printf("BAD %s [%s] %s at %s: %s | goal %s\n", r.Target, o.Kind, o.What, o.Pos, o.Status, clipN(o.Goal, 200))
			}
		}
		if nb > 0 {
			bad++
		}
		if r.Unsupp != "" {
			uns++
			fmt.Printf("UNS %s: %s\n", r.Target, r.Unsupp)
		}
		for _, p := range r.Problems {
			fmt.Println("PROBLEM", p)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Wall > rs[j].Wall })
	for i, r := range rs {
		if i < 10 && r.Wall > 1 {
			fmt.Printf("slow %s %.1fs\n", r.Target, r.Wall)
		}
	}
	fmt.Printf("%d functions, %d obligations, %d functions with failures, %d unsupported, %.1fs\n", len(jobs), tot, bad, uns, time.Since(t0).Seconds())
	e.pool.Close()
}
