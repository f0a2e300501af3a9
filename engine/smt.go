package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- SMT-LIB output

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		if c == '"' {
			b.WriteString(`""`)
		} else if c >= 32 && c < 127 && c != '\\' {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(n int64) string {
	if n < 0 {
		return "(- " + strconv.FormatInt(-n, 10) + ")"
	}
	return strconv.FormatInt(n, 10)
}

func sym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$') {
			return "|" + strings.NewReplacer("!", "!21", "|", "!7c", `\`, "!5c").Replace(s) + "|"
		}
	}
	return s
}

type printer struct {
	decl    strings.Builder
	body    strings.Builder
	sortsD  map[*Sort]bool
	funs    map[string]bool
	names   map[*Term]string
	refs    map[*Term]int
	freshK  []*Term
	freshR  []*Term
	dialect string
}

func (p *printer) sort(s *Sort) string {
	if p.sortsD[s] {
		return s.key2(p)
	}
	p.sortsD[s] = true
	switch s.K {
	case SIface:
		p.decl.WriteString("(declare-sort Iface 0)\n(declare-fun tag (Iface) Int)\n(declare-const nilI Iface)\n(assert (= (tag nilI) 0))\n")
	case SRef:
		p.decl.WriteString("(declare-sort Ref 0)\n(declare-const nullref Ref)\n")
	case SOpaque:
		fmt.Fprintf(&p.decl, "(declare-sort O_%s 0)\n", s.Name)
	case SStruct:
		for _, f := range s.Fields {
			p.sort(f)
		}
		fmt.Fprintf(&p.decl, "(declare-datatypes ((S_%s 0)) (((mk_%s", s.Name, s.Name)
		for i, f := range s.Fields {
			fmt.Fprintf(&p.decl, " (f%d_%s %s)", i, s.Name, f.key2(p))
		}
		p.decl.WriteString("))))\n")
	case SSeq:
		p.sort(s.Elem)
	case SMap:
		p.sort(s.Key)
		p.sort(optOf(s.Elem))
	case SOpt:
		p.sort(s.Elem)
		n := s.key()
		fmt.Fprintf(&p.decl, "(declare-datatypes ((%s 0)) (((none_%s) (some_%s (val_%s %s)))))\n", n, n, n, n, s.Elem.key2(p))
	}
	return s.key2(p)
}

func (s *Sort) key2(p *printer) string { return s.key() }

func (p *printer) fun(name string, args []*Sort, ret *Sort) {
	if p.funs[name] {
		return
	}
	p.funs[name] = true
	as := []string{}
	for _, a := range args {
		as = append(as, p.sort(a))
	}
	r := p.sort(ret)
	fmt.Fprintf(&p.decl, "(declare-fun %s (%s) %s)\n", name, strings.Join(as, " "), r)
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
}

func (p *printer) term(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if p.refs[t] > 1 && len(t.Args) > 0 && !t.hasBound {
		n := "t" + strconv.Itoa(t.ID)
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, p.sort(t.Sort), s)
		p.names[t] = n
		return n
	}
	return s
}

func (p *printer) raw(t *Term) string {
	a := func(i int) string { return p.term(t.Args[i]) }
	all := func() string {
		xs := make([]string, len(t.Args))
		for i := range t.Args {
			xs[i] = a(i)
		}
		return strings.Join(xs, " ")
	}
	switch t.Op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONot:
		return "(not " + a(0) + ")"
	case OAnd:
		return "(and " + all() + ")"
	case OOr:
		return "(or " + all() + ")"
	case OEq:
		return "(= " + all() + ")"
	case OIte:
		return "(ite " + all() + ")"
	case OIntC:
		return smtInt(t.N)
	case OLin:
		xs := []string{}
		for i := range t.Args {
			if t.Coefs[i] == 1 {
				xs = append(xs, a(i))
			} else {
				xs = append(xs, "(* "+smtInt(t.Coefs[i])+" "+a(i)+")")
			}
		}
		if t.N != 0 {
			xs = append(xs, smtInt(t.N))
		}
		if len(xs) == 1 {
			return xs[0]
		}
		return "(+ " + strings.Join(xs, " ") + ")"
	case OLe0:
		return "(<= " + a(0) + " 0)"
	case OMul:
		return "(* " + all() + ")"
	case OStrC:
		return smtStr(t.S)
	case OConcat:
		return "(str.++ " + all() + ")"
	case OVar:
		n := sym(t.S)
		if !p.funs[n] && nonneg(t) {
			p.funs[n] = true
			fmt.Fprintf(&p.decl, "(declare-fun %s () Int)\n(assert (>= %s 0))\n", n, n)
		}
		p.fun(n, nil, t.Sort)
		return n
	case OBound:
		p.sort(t.Sort)
		return t.S
	case OApp:
		if t.F.Builtin {
			return "(" + t.F.Name + " " + all() + ")"
		}
		n := sym(t.F.Name)
		p.fun(n, t.F.Args, t.F.Ret)
		if len(t.Args) == 0 {
			return n
		}
		return "(" + n + " " + all() + ")"
	case OMk:
		p.sort(t.Sort)
		if len(t.Args) == 0 {
			return "mk_" + t.Sort.Name
		}
		return "(mk_" + t.Sort.Name + " " + all() + ")"
	case OSel:
		p.sort(t.Args[0].Sort)
		return fmt.Sprintf("(f%d_%s %s)", t.N, t.Args[0].Sort.Name, a(0))
	case OBox:
		n := "box_" + mangle(t.S)
		p.fun(n, []*Sort{t.Args[0].Sort}, IfaceS)
		return "(" + n + " " + a(0) + ")"
	case OUnbox:
		n := "unbox_" + mangle(t.S)
		p.fun(n, []*Sort{IfaceS}, t.Sort)
		return "(" + n + " " + a(0) + ")"
	case OTag:
		p.sort(IfaceS)
		return "(tag " + a(0) + ")"
	case ONil:
		p.sort(IfaceS)
		return "nilI"
	case ONull:
		p.sort(RefS)
		return "nullref"
	case OFreshRef:
		n := fmt.Sprintf("newref%d", t.N)
		if !p.funs[n] {
			p.freshR = append(p.freshR, t)
		}
		p.fun(n, nil, RefS)
		return n
	case OFreshKey:
		n := fmt.Sprintf("key%d", t.N)
		if !p.funs[n] {
			p.freshK = append(p.freshK, t)
		}
		p.fun(n, nil, Str)
		return n
	case OSeqEmpty:
		return "(as seq.empty " + p.sort(t.Sort) + ")"
	case OSeqUnit:
		p.sort(t.Sort)
		return "(seq.unit " + a(0) + ")"
	case OSeqConcat:
		return "(seq.++ " + all() + ")"
	case OSeqLen:
		return "(seq.len " + a(0) + ")"
	case OSeqNth:
		if i := t.Args[1]; fixLen >= 0 && inputLeaf(t.Args[0]) && i.Op == OIntC && i.N >= 0 && i.N < fixLen {
			return p.element(t.Args[0], i.N)
		}
		return "(seq.nth " + all() + ")"
	case OSeqExtract:
		return "(seq.extract " + all() + ")"
	case OSeqUpdate:
		s, i, v := a(0), a(1), a(2)
		return fmt.Sprintf("(seq.++ (seq.extract %s 0 %s) (seq.unit %s) (seq.extract %s (+ %s 1) (seq.len %s)))", s, i, v, s, i, s)
	case OMapEmpty:
		n := optOf(t.Sort.Elem)
		p.sort(t.Sort)
		return fmt.Sprintf("((as const %s) (as none_%s %s))", t.Sort.key(), n.key(), n.key())
	case OMapStore:
		return "(store " + all() + ")"
	case OSelect:
		return "(select " + all() + ")"
	case ONone:
		p.sort(t.Sort)
		return fmt.Sprintf("(as none_%s %s)", t.Sort.key(), t.Sort.key())
	case OSome:
		p.sort(t.Sort)
		return fmt.Sprintf("(some_%s %s)", t.Sort.key(), a(0))
	case OIsSome:
		k := t.Args[0].Sort.key()
		return fmt.Sprintf("((_ is some_%s) %s)", k, a(0))
	case OOptVal:
		return fmt.Sprintf("(val_%s %s)", t.Args[0].Sort.key(), a(0))
	case OExists, OForall:
		q := "exists"
		if t.Op == OForall {
			q = "forall"
		}
		if t.Op == OForall {
			return fmt.Sprintf("(forall ((%s %s)) (=> (>= %s 0) %s))", t.Args[0].S, p.sort(t.Args[0].Sort), t.Args[0].S, a(1))
		}
		return fmt.Sprintf("(%s ((%s %s)) (and (>= %s 0) %s))", q, t.Args[0].S, p.sort(t.Args[0].Sort), t.Args[0].S, a(1))
	}
	panic(fmt.Sprintf("smt op %d", t.Op))
}

// element i of a list of fixed length
func (p *printer) element(l *Term, i int64) string {
	n := "elem_" + mangle(l.Sort.key())
	p.fun(n, []*Sort{l.Sort, Int}, l.Sort.Elem)
	return fmt.Sprintf("(%s %s %d)", n, p.term(l), i)
}

// query renders: assumptions and not goal.
func smtScript(assume []*Term, goal *Term, dialect string) string {
	p := &printer{sortsD: map[*Sort]bool{}, funs: map[string]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}, dialect: dialect}
	ng := Not(goal)
	for _, x := range assume {
		p.count(x)
	}
	p.count(ng)
	for _, x := range assume {
		s := p.term(x)
		p.body.WriteString("(assert " + s + ")\n")
	}
	s := p.term(ng)
	p.body.WriteString("(assert " + s + ")\n")
	if fixLen >= 0 {
		// lists of fixed length: the elements are functions of the list, and where
		// the list itself is mentioned it consists of them
		var lists []*Term
		whole := map[*Term]bool{}
		collect(append(append([]*Term{}, assume...), ng), func(t *Term) {
			for i, l := range t.Args {
				if !whole[l] && !l.hasBound && inputLeaf(l) && !(t.Op == OSeqNth && i == 0 && t.Args[1].Op == OIntC && t.Args[1].N >= 0 && t.Args[1].N < fixLen) {
					whole[l] = true
					lists = append(lists, l)
				}
			}
		})
		for _, l := range lists {
			if fixLen == 0 {
				p.body.WriteString("(assert (= 0 (seq.len " + p.term(l) + ")))\n")
				continue
			}
			var xs []string
			for i := int64(0); i < fixLen; i++ {
				xs = append(xs, "(seq.unit "+p.element(l, i)+")")
			}
			x := xs[0]
			if len(xs) > 1 {
				x = "(seq.++ " + strings.Join(xs, " ") + ")"
			}
			p.body.WriteString("(assert (= " + p.term(l) + " " + x + "))\n")
		}
	}
	if len(p.freshR) > 0 {
		xs := []string{"nullref"}
		for _, r := range p.freshR {
			xs = append(xs, p.raw(r))
		}
		p.body.WriteString("(assert (distinct " + strings.Join(xs, " ") + "))\n")
	}
	if len(p.freshK) > 0 {
		xs := []string{`""`}
		for _, r := range p.freshK {
			if r.N > 0 {
				xs = append(xs, p.raw(r))
			}
		}
		if len(xs) > 1 {
			p.body.WriteString("(assert (distinct " + strings.Join(xs, " ") + "))\n")
		}
	}
	return p.decl.String() + p.body.String()
}

// ---------------------------------------------------------------- axioms

func collect(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// groundAxioms instantiates the background theory on the terms of a query.
func (e *Engine) groundAxioms(ts []*Term) []*Term { return e.groundAxiomsN(ts, 4) }

func (e *Engine) groundAxiomsN(ts []*Term, rounds int) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	done := map[*Term]bool{}
	add := func(x *Term) {
		if x != True && !have[x] {
			have[x] = true
			out = append(out, x)
		}
	}
	var impls []*Term
	unfold := map[*Term]int{} // rec application -> depth
	collect(ts, func(t *Term) {
		if t.Op == OApp && t.F.Rec != nil && !t.hasBound {
			unfold[t] = 0
		}
	})
	for round := 0; round < rounds; round++ {
		cur := append(append([]*Term{}, ts...), out...)
		tags := map[*Term]map[string]bool{}
		var newTerms []*Term
		collect(cur, func(t *Term) {
			if t.Op == OEq && t.Args[0].Op == OTag || t.Op == OEq && t.Args[1].Op == OTag {
				x, c := t.Args[0], t.Args[1]
				if x.Op != OTag {
					x, c = c, x
				}
				if c.Op == OIntC && x.Op == OTag && c.N > 0 {
					if tags[x.Args[0]] == nil {
						tags[x.Args[0]] = map[string]bool{}
					}
					tags[x.Args[0]][tagNames[c.N]] = true
				}
			}
			if t.Op == OEq && t.Args[0].Sort == IfaceS {
				for i := 0; i < 2; i++ {
					if x, b := t.Args[i], t.Args[1-i]; b.Op == OBox && x.Op != OBox {
						if tags[x] == nil {
							tags[x] = map[string]bool{}
						}
						tags[x][b.S] = true
					}
				}
			}
			if t.Op == OUnbox {
				if tags[t.Args[0]] == nil {
					tags[t.Args[0]] = map[string]bool{}
				}
				tags[t.Args[0]][t.S] = true
			}
			if !done[t] {
				newTerms = append(newTerms, t)
			}
		})
		n0 := len(out)
		for _, t := range newTerms {
			done[t] = true
			if t.hasBound {
				continue
			}
			switch t.Op {
			case OBox:
				add(mk(OEq, Bool, mk(OTag, Int, t), IntC(tagID(t.S))))
				add(mk(OEq, Bool, intern(&Term{Op: OUnbox, S: t.S, Args: []*Term{t}, Sort: t.Args[0].Sort}), t.Args[0]))
			case OUnbox:
				x := t.Args[0]
				add(Implies(Eq(Tag(x), IntC(tagID(t.S))), Eq(x, Box(t.S, t))))
			}
			if t.Sort == IfaceS && t.Op != OBox && t.Op != ONil && t.Op != OIte {
				add(Eq(Eq(Tag(t), IntC(0)), IsNil(t)))
				add(Le(IntC(0), Tag(t)))
			}
			if t.Op == OSeqConcat {
				for i := 0; i+1 < len(t.Args); i++ {
					a, b := t.Args[i], t.Args[i+1]
					if a.Op == OSeqExtract && b.Op == OSeqUnit && b.Args[0].Op == OSeqNth && b.Args[0].Args[0] == a.Args[0] && b.Args[0].Args[1] == Add(a.Args[1], a.Args[2]) {
						m := append([]*Term{}, t.Args[:i]...)
						m = append(m, SeqExtract(a.Args[0], a.Args[1], Add(a.Args[2], IntC(1))))
						m = append(m, t.Args[i+2:]...)
						r := m[0]
						if len(m) > 1 {
							r = SeqConcat(t.Sort, m...)
						}
						if r != t {
							add(Implies(And(Le(IntC(0), a.Args[1]), Le(IntC(0), a.Args[2]), Lt(b.Args[0].Args[1], SeqLen(a.Args[0]))), Eq(t, r)))
						}
					}
				}
			}
			if t.Op == OApp && t.F.Rec != nil {
				d := unfold[t]
				if d < 2 {
					if ax := e.unfoldRec(t); ax != nil {
						add(ax)
						collect([]*Term{ax}, func(u *Term) {
							if u.Op == OApp && u.F.Rec != nil && u != t {
								if _, ok := unfold[u]; !ok && !done[u] {
									if u.Args[len(u.Args)-1].Op == OIntC {
										unfold[u] = 0
									} else {
										unfold[u] = d + 2
									}
								}
							}
						})
					}
				}
			}
			if t.Op == OApp && strings.HasPrefix(t.F.Name, "impl_") {
				for id := range tagNames {
					if id > 0 {
						c := mk(OEq, Bool, t.Args[0], IntC(int64(id)))
						if t.Args[0].Op == OTag {
							// kept apart: that a type is named here is no reason to look at its methods
							if x := Implies(c, Eq(t, App(t.F, IntC(int64(id))).implFold(e))); x != True && !have[x] {
								have[x] = true
								impls = append(impls, x)
							}
						}
					}
				}
			}
			for _, ax := range e.extraAxioms(t) {
				add(ax)
			}
			for _, ax := range e.valueAxioms(t) {
				add(ax)
			}
		}
		// method applications on values of known dynamic type
		collect(cur, func(t *Term) {
			if t.Op == OApp && t.F.Method != "" && !t.hasBound {
				for tn := range tags[t.Args[0]] {
					if v := e.staticMethod(tn, t.F.Method, t.Args); v != nil {
						add(Implies(Eq(Tag(t.Args[0]), IntC(tagID(tn))), Eq(t, v)))
					}
				}
			}
		})
		if len(out) == n0 {
			break
		}
	}
	return append(out, impls...)
}

func (t *Term) implFold(e *Engine) *Term {
	if t.Op == OApp && strings.HasPrefix(t.F.Name, "impl_") && t.Args[0].Op == OIntC {
		return e.implTag(t.F, t.Args[0].N)
	}
	return t
}

// ---------------------------------------------------------------- solver processes

type solverProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Pool struct {
	mu    sync.Mutex
	idle  []*solverProc
	sem   chan struct{}
	Time  time.Duration
	Calls int
	cache map[string]string
}

func NewPool(n int) *Pool {
	return &Pool{sem: make(chan struct{}, n), cache: map[string]string{}}
}

func startZ3() (*solverProc, error) {
	cmd := exec.Command("z3-new", "-in", "-memory:3000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{cmd, in, bufio.NewReader(out)}, nil
}

func (s *solverProc) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// checkZ3 returns "unsat", "sat", "unknown" or an error text; detail has the model when sat.
func (pl *Pool) checkZ3(script string, ms int, model bool) (string, string) {
	pl.sem <- struct{}{}
	defer func() { <-pl.sem }()
	t0 := time.Now()
	defer func() {
		if os.Getenv("VC_TRACE") != "" && time.Since(t0) > 200*time.Millisecond {
			fmt.Fprintf(os.Stderr, "z3 %v of %d ms, %d bytes\n", time.Since(t0), ms, len(script))
			os.WriteFile("/tmp/vc_slow.smt2", []byte(script+"(check-sat)\n"), 0o644)
		}
		pl.mu.Lock()
		pl.Time += time.Since(t0)
		pl.Calls++
		pl.mu.Unlock()
	}()
	pl.mu.Lock()
	var s *solverProc
	if n := len(pl.idle); n > 0 {
		s = pl.idle[n-1]
		pl.idle = pl.idle[:n-1]
	}
	pl.mu.Unlock()
	if s == nil {
		var err error
		s, err = startZ3()
		if err != nil {
			return "error: " + err.Error(), ""
		}
	}
	type res struct{ v, d string }
	ch := make(chan res, 1)
	go func() {
		fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"done1\")\n", ms, script)
		var lines []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{"error: solver ended", ""}
				return
			}
			l = strings.TrimSpace(l)
			if l == "done1" || l == `"done1"` {
				break
			}
			lines = append(lines, l)
		}
		v := "unknown"
		for _, l := range lines {
			if strings.HasPrefix(l, "(error") {
				v = "error: " + l
				break
			}
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				v = l
			}
		}
		d := ""
		if v == "sat" && model {
			fmt.Fprintf(s.in, "(get-model)\n(echo \"done2\")\n")
			var b strings.Builder
			for {
				l, err := s.out.ReadString('\n')
				if err != nil {
					break
				}
				if strings.Contains(l, "done2") {
					break
				}
				b.WriteString(l)
			}
			d = b.String()
		}
		ch <- res{v, d}
	}()
	select {
	case r := <-ch:
		if strings.HasPrefix(r.v, "error") {
			s.kill()
			return r.v, r.d
		}
		pl.mu.Lock()
		pl.idle = append(pl.idle, s)
		pl.mu.Unlock()
		return r.v, r.d
	case <-time.After(time.Duration(ms+3000) * time.Millisecond):
		s.kill()
		return "timeout", ""
	}
}

func (pl *Pool) checkCVC5(script string, ms int) string {
	pl.sem <- struct{}{}
	defer func() { <-pl.sem }()
	t0 := time.Now()
	defer func() {
		pl.mu.Lock()
		pl.Time += time.Since(t0)
		pl.Calls++
		pl.mu.Unlock()
	}()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--strings-exp", "--tlimit="+strconv.Itoa(ms))
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + script + "(check-sat)\n")
	out, _ := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l
		}
	}
	return "timeout"
}

func (pl *Pool) Close() {
	pl.mu.Lock()
	defer pl.mu.Unlock()
	for _, s := range pl.idle {
		s.kill()
	}
	pl.idle = nil
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ground leaves out what is quantified: with fewer premises a proof is still a proof.
func ground(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if !t.hasBound {
			out = append(out, t)
		}
	}
	return out
}

// firstTry is the query with few premises; "" if it would be the whole query.
func (e *Engine) firstTry(as []*Term, goal *Term, rounds int) string {
	gs := ground(as)
	ax := ground(e.groundAxiomsN(append(append([]*Term{}, gs...), goal), rounds))
	return smtScript(append(gs, ax...), goal, "z3")
}
