// Command replay looks for inputs on which the exported API does not do what
// the properties say. It is run by the checks to find a failing input for a
// failed obligation, and as a bounded stand-in for functions out of reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

type failure struct {
	Key      string
	What     string
	Input    string
	Expected string
	Actual   string
}

type output struct {
	Cases    int
	Distinct int
	Samples  []string
	Failures []failure
	Seconds  float64
	Note     string
}

var (
	out      output
	seen     = map[uint64]bool{}
	deadline time.Time
	rnd      *rand.Rand
	failed   = map[string]bool{}
)

// note counts a case.
func note(s string) {
	out.Cases++
	h := fnv.New64a()
	h.Write([]byte(s))
	k := h.Sum64()
	if len(seen) < 2000000 && !seen[k] {
		seen[k] = true
		out.Distinct++
		if len(out.Samples) < 6 && out.Cases%7 == 1 {
			out.Samples = append(out.Samples, clip(s, 500))
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// fail records a failing input; the first two per key are kept.
func fail(key, what, input, expected, actual string) {
	n := 0
	for _, f := range out.Failures {
		if f.Key == key {
			n++
		}
	}
	if n < 1 && len(out.Failures) < 40 {
		out.Failures = append(out.Failures, failure{key, what, clip(input, 6000), clip(expected, 3000), clip(actual, 3000)})
	}
}

func enough() bool { return len(out.Failures) >= 12 }

// guard runs f; a panic is a failure of the given key.
func guard(key, input string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			st := string(debug.Stack())
			// keep the frames of the library
			var fr []string
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "cypher-go-dsl.") || strings.HasPrefix(strings.TrimSpace(l), "/") && strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") {
					fr = append(fr, strings.TrimSpace(l))
				}
			}
			if len(fr) > 14 {
				fr = fr[:14]
			}
			if lastSrc != "" {
				input = lastSrc
			}
			fail(key, "a call panics", input, "no panic", fmt.Sprint(r)+"\n"+strings.Join(fr, "\n"))
		}
	}()
	f()
	return true
}

func render(s cypher.Statement) (string, error) {
	return cypher.NewRenderer().Render(s)
}

type suite struct {
	name string
	f    func()
}

// suites: what is run for each property; every suite checks one random case per call.
var suites = map[string][]suite{}

func reg(f func(), name string, props ...string) {
	for _, p := range props {
		suites[p] = append(suites[p], suite{name, f})
	}
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	d := flag.Duration("time", 10*time.Second, "")
	max := flag.Int("max", 1<<30, "")
	file := flag.String("out", "", "")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	t0 := time.Now()
	deadline = t0.Add(*d)
	ss := suites[*prop]
	if *prop == "all" {
		for _, p := range sortedProps() {
			ss = append(ss, suites[p]...)
		}
	}
	for _, once := range onces[*prop] {
		rnd = rand.New(rand.NewSource(*seed))
		guard("panic", "fixed cases", once)
	}
	for i := 0; time.Now().Before(deadline) && len(ss) > 0 && i < *max && !enough(); i++ {
		for j, s := range ss {
			rnd = rand.New(rand.NewSource(*seed*1000003 + int64(i)*97 + int64(j)))
			where = s.name
			resetIDs()
			lastSrc = ""
			guard("panic:"+s.name, "suite "+s.name+fmt.Sprintf(" seed %d case %d", *seed, i), s.f)
		}
	}
	out.Seconds = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(out, "", " ")
	if *file != "" {
		os.WriteFile(*file, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

var where string

// lastSrc is the program text of the case being run.
var lastSrc string

var onces = map[string][]func(){}

func once(f func(), props ...string) {
	for _, p := range props {
		onces[p] = append(onces[p], f)
	}
}

func sortedProps() []string {
	var r []string
	for i := 1; i <= 20; i++ {
		r = append(r, fmt.Sprintf("C%02d", i))
	}
	return r
}

func pick[T any](xs ...T) T { return xs[rnd.Intn(len(xs))] }
func chance(p float64) bool { return rnd.Float64() < p }
