package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// Random programs over the whole exported API, made by reflection.

type V struct {
	v    reflect.Value
	st   reflect.Type // the type the program sees
	s    string
	bad  bool
	dump string
}

func (v V) static() reflect.Type {
	if v.st != nil {
		return v.st
	}
	return v.v.Type()
}

type fuzzer struct {
	vals  []V
	steps int
}

var (
	exprT  = reflect.TypeOf((*cypher.Expression)(nil)).Elem()
	errT   = reflect.TypeOf((*error)(nil)).Elem()
	anyT   = reflect.TypeOf((*interface{})(nil)).Elem()
	locT   = reflect.TypeOf(time.UTC)
	rendT  = reflect.TypeOf((*cypher.CypherRenderer)(nil))
	fnames []string
	vnames []string
	makers = map[reflect.Type][]string{}
)

func prepareFuzz() {
	if fnames != nil {
		return
	}
	for n := range apiFuncs {
		ft := reflect.TypeOf(apiFuncs[n])
		ok := ft.NumOut() > 0
		for i := 0; i < ft.NumIn(); i++ {
			t := ft.In(i)
			if t == rendT || t.Kind() == reflect.Func || t.Kind() == reflect.Ptr && t != locT {
				ok = false
			}
		}
		if ok && n != "NewRenderer" {
			fnames = append(fnames, n)
		}
	}
	sort.Strings(fnames)
	for n := range apiVars {
		vnames = append(vnames, n)
	}
	sort.Strings(vnames)
}

func isErr(v reflect.Value) (error, bool) {
	if !v.IsValid() || !v.CanInterface() {
		return nil, false
	}
	if g, ok := v.Interface().(interface{ GetError() error }); ok {
		return g.GetError(), true
	}
	return nil, false
}

// want makes an argument for a parameter of type t; bad says it carries an error.
func (f *fuzzer) want(t reflect.Type, d int, bad *bool) (V, bool) {
	switch t.Kind() {
	case reflect.String:
		s := pick(aName(), aString(), plainName(), "")
		if s == "" && (doDump || !chance(0.3)) {
			s = "x"
		}
		return V{v: reflect.ValueOf(s).Convert(t), s: q(s)}, true
	case reflect.Int, reflect.Int64, reflect.Int32:
		n := pick(0, 1, 2, 5, -1, 7, math.MaxInt32, math.MinInt32)
		if doDump {
			n = 1 + rnd.Intn(5)
		}
		return V{v: reflect.ValueOf(n).Convert(t), s: fmt.Sprint(n)}, true
	case reflect.Float64:
		n := pick(0, 0.5, 1, 0.25, -1, 3, math.NaN(), math.Inf(1), 1e300)
		return V{v: reflect.ValueOf(n), s: fmt.Sprint(n)}, true
	case reflect.Bool:
		b := chance(0.5)
		return V{v: reflect.ValueOf(b), s: fmt.Sprint(b)}, true
	case reflect.Slice:
		n := rnd.Intn(4)
		sl := reflect.MakeSlice(t, 0, n+rnd.Intn(2))
		var src []string
		for i := 0; i < n; i++ {
			e, ok := f.want(t.Elem(), d-1, bad)
			if !ok {
				return V{}, false
			}
			sl = reflect.Append(sl, e.v)
			src = append(src, e.s)
		}
		return V{v: sl, s: t.String() + "{" + strings.Join(src, ", ") + "}"}, true
	}
	switch t {
	case errT:
		*bad = true
		return V{v: reflect.ValueOf(errors.New("an error")), s: "errors.New(\"an error\")"}, true
	case locT:
		return V{v: reflect.ValueOf(time.UTC), s: "time.UTC"}, true
	case anyT:
		if chance(0.4) || doDump && chance(0.7) {
			return f.want(reflect.TypeOf(""), d, bad)
		}
		return f.want(exprT, d, bad)
	}
	// an existing value
	var c []V
	for _, v := range f.vals {
		if v.static().AssignableTo(t) {
			c = append(c, v)
		}
	}
	if len(c) > 0 && (chance(0.7) || d <= 0) {
		v := c[rnd.Intn(len(c))]
		if v.bad {
			*bad = true
		}
		return v, true
	}
	if d <= 0 {
		return V{}, false
	}
	for try := 0; try < 4; try++ {
		ms := f.makersOf(t)
		if len(ms) == 0 {
			break
		}
		n := ms[rnd.Intn(len(ms))]
		if v, ok := f.callFunc(n, d-1); ok && v.static().AssignableTo(t) {
			if v.bad {
				*bad = true
			}
			return v, true
		}
	}
	if len(c) > 0 {
		v := c[rnd.Intn(len(c))]
		if v.bad {
			*bad = true
		}
		return v, true
	}
	return V{}, false
}

func (f *fuzzer) makersOf(t reflect.Type) []string {
	if m, ok := makers[t]; ok {
		return m
	}
	var r []string
	for _, n := range fnames {
		o := reflect.TypeOf(apiFuncs[n]).Out(0)
		if o.AssignableTo(t) {
			r = append(r, n)
		}
	}
	makers[t] = r
	return r
}

func (f *fuzzer) args(ft reflect.Type, first, d int) (in []reflect.Value, src []string, bad bool, ok bool) {
	for i := first; i < ft.NumIn(); i++ {
		if ft.IsVariadic() && i == ft.NumIn()-1 {
			for k := rnd.Intn(4); k > 0; k-- {
				a, ok := f.want(ft.In(i).Elem(), d, &bad)
				if !ok {
					break
				}
				in, src = append(in, a.v), append(src, a.s)
			}
			break
		}
		a, ok := f.want(ft.In(i), d, &bad)
		if !ok {
			return nil, nil, false, false
		}
		in, src = append(in, a.v), append(src, a.s)
	}
	return in, src, bad, true
}

// callFunc calls an exported function of the package.
func (f *fuzzer) callFunc(n string, d int) (V, bool) {
	f.steps++
	if f.steps > 400 {
		return V{}, false
	}
	fv := reflect.ValueOf(apiFuncs[n])
	in, src, bad, ok := f.args(fv.Type(), 0, d)
	if !ok {
		return V{}, false
	}
	return f.run(fv, in, n+"("+strings.Join(src, ", ")+")", n, bad, src)
}

func (f *fuzzer) run(fv reflect.Value, in []reflect.Value, src, name string, bad bool, args []string) (V, bool) {
	lastSrc = src
	if len(src) > 3000 {
		return V{}, false
	}
	note(src)
	var out []reflect.Value
	key := "fuzz panic: " + name
	var before []string
	if doDump {
		for _, a := range in {
			before = append(before, dumpV(a))
		}
	}
	if !guard(key, src, func() { out = fv.Call(in) }) {
		return V{}, false
	}
	if doDump {
		for i, a := range in {
			if n := dumpV(a); n != before[i] {
				dumpEq("fuzz changed: "+name, "a call changes one of its arguments", src, before[i], n)
			}
		}
	}
	o := out[0]
	if o.Kind() == reflect.Interface {
		if o.IsNil() {
			if len(out) == 2 && !out[1].IsNil() {
				return V{}, false // an error
			}
			if bad && doErr && !silent(name) {
				fail("fuzz error: "+name, "an erroneous argument is accepted", src, "an error", "nil")
			}
			return V{}, false
		}
		o = o.Elem()
	}
	if o.Kind() == reflect.Ptr && o.IsNil() {
		return V{}, false
	}
	r := V{v: o, st: fv.Type().Out(0), s: src}
	if len(out) == 2 && out[1].Type() == errT {
		if !out[1].IsNil() {
			return V{}, false
		}
		if bad && doErr && !silent(name) {
			fail("fuzz error: "+name, "an erroneous argument is accepted", src, "an error", "no error")
		}
	}
	if e, ok := isErr(o); ok {
		r.bad = e != nil
		if bad && e == nil && doErr && !silent(name) {
			if b, isB := buildErr(o); !isB || b == nil {
				fail("fuzz error: "+name, "an erroneous argument is accepted", src, "an error", "no error")
			}
		}
	} else if b, ok := buildErr(o); ok {
		r.bad = bad
		if bad && b == nil && doErr && !silent(name) {
			fail("fuzz error: "+name, "an erroneous argument is accepted", src, "an error from Build", "no error")
		}
	} else {
		r.bad = bad
	}
	if k := o.Kind(); k == reflect.Struct || k == reflect.Ptr {
		if doDump {
			r.dump = dumpV(o)
		}
		f.vals = append(f.vals, r)
	}
	return r, true
}

// buildErr builds what can be built, after a RETURN where it needs one.
func buildErr(o reflect.Value) (err error, ok bool) {
	if !o.CanInterface() {
		return nil, false
	}
	x := o.Interface()
	guard("fuzz panic: Build", lastSrc, func() {
		if c, isC := x.(interface{ AsCondition() cypher.Condition }); isC && false {
			_ = c
		}
		var st cypher.Statement
		if b, is := x.(interface {
			Returning(...cypher.Expression) cypher.OngoingReadingAndReturn
		}); is {
			st, err = b.Returning(cypher.NullLiteralCreate()).Build()
			ok = true
		} else if b, is := x.(interface {
			Build() (cypher.Statement, error)
		}); is {
			st, err = b.Build()
			ok = true
		}
		if ok && err == nil && st != nil {
			err = st.GetError()
		}
	})
	return
}

func dumpV(v reflect.Value) string {
	if !v.IsValid() {
		return ""
	}
	d := &dumper{seen: map[uintptr]bool{}, left: 20000}
	d.val(v)
	return d.sb.String()
}

var doDump, doErr bool

// method calls one of the exported methods of a value made so far.
func (f *fuzzer) method() {
	if len(f.vals) == 0 {
		return
	}
	v := f.vals[rnd.Intn(len(f.vals))]
	t := v.static()
	if t.NumMethod() == 0 || t == rendT {
		return
	}
	m := t.Method(rnd.Intn(t.NumMethod()))
	if m.PkgPath != "" || m.Name == "PrepareVisit" {
		return
	}
	if doDump && chance(0.5) {
		v := v
		// values with a method that extends them come first
		for i := 0; i < 6; i++ {
			if e := extending(v.v.Type()); len(e) > 0 {
				f.fork(v, e[rnd.Intn(len(e))])
				return
			}
			v = f.vals[rnd.Intn(len(f.vals))]
		}
		if n := v.static().NumMethod(); n > 0 {
			f.fork(v, v.static().Method(rnd.Intn(n)).Name)
		}
		return
	}
	f.invoke(v, m.Name)
}

var extendingOf = map[reflect.Type][]string{}

// extending lists the methods of a type that make a value of this type from another one and arguments.
func extending(t reflect.Type) []string {
	if e, ok := extendingOf[t]; ok {
		return e
	}
	var e []string
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() < 2 || m.Type.NumOut() != 1 || m.Name == "PrepareVisit" {
			continue
		}
		if o := m.Type.Out(0); o == t || o.Kind() == reflect.Interface && t.Implements(o) && o.NumMethod() > 3 && o != exprT {
			e = append(e, m.Name)
		}
	}
	extendingOf[t] = e
	return e
}

// fork extends a value a few times by one method and then twice from the same value on.
func (f *fuzzer) fork(v V, name string) {
	t := v.v.Type()
	for i := 0; i < rnd.Intn(5); i++ {
		r, ok := f.invoke(v, name)
		if !ok || !r.v.IsValid() || r.v.Type() != t {
			break
		}
		v = r
	}
	a, ok := f.invoke(v, name)
	if !ok {
		return
	}
	_, _ = f.invoke(v, name)
	if a.v.IsValid() {
		if n := dumpV(a.v); a.dump != "" && n != a.dump {
			dumpEq("fuzz changed: sibling", "a value changes when another one is derived from the same value", a.s+"; and then "+lastSrc, a.dump, n)
		}
	}
}

func (f *fuzzer) invoke(v V, mname string) (none V, no bool) {
	if mname == "PrepareVisit" {
		return // a hook of the renderer, not a call a user makes
	}
	t := v.static()
	m, has := t.MethodByName(mname)
	mv := v.v.MethodByName(mname)
	if !has || !mv.IsValid() {
		return
	}
	mt := mv.Type()
	for i := 0; i < mt.NumIn(); i++ {
		if k := mt.In(i); k == rendT || k.Kind() == reflect.Func || k.Kind() == reflect.Ptr && k != locT {
			return
		}
	}
	if t.Kind() == reflect.Ptr {
		if _, ok := t.Elem().MethodByName(m.Name); !ok {
			return // steps of builders that work in place
		}
	}
	in, src, bad, ok := f.args(mt, 0, 1)
	if !ok {
		return
	}
	name := v.v.Type().Name() + "." + m.Name
	s := v.s + "." + m.Name + "(" + strings.Join(src, ", ") + ")"
	bad = bad || v.bad
	if mt.NumOut() == 0 {
		lastSrc = s
		guard("fuzz panic: "+name, s, func() { mv.Call(in) })
		return
	}
	before := v.dump
	r, made := f.run(mv, in, s, name, bad, src)
	if doDump {
		if n := dumpV(v.v); n != before {
			dumpEq("fuzz changed: "+name, "a call changes its receiver", s, before, n)
		}
	}
	return r, made
}

// renderAll renders everything made.
func (f *fuzzer) renderAll() {
	for _, v := range f.vals {
		if !v.v.CanInterface() {
			continue
		}
		x := v.v.Interface()
		lastSrc = v.s
		guard("fuzz panic: Render", v.s, func() {
			var st cypher.Statement
			var err error
			switch e := x.(type) {
			case cypher.Statement:
				st = e
			case interface {
				Build() (cypher.Statement, error)
			}:
				st, err = e.Build()
			case cypher.Condition:
				st, err = cypher.Match(cypher.AnyNode()).Where(e).Returning(cypher.AnAsterisk()).Build()
			case cypher.Expression:
				st, err = cypher.CypherReturning(e).Build()
			case cypher.PatternElement:
				st, err = cypher.Match(e).Returning(cypher.AnAsterisk()).Build()
			default:
				return
			}
			if err != nil || st == nil {
				return
			}
			s, err := render(st)
			if doErr && err == nil && v.bad {
				fail("fuzz error: render", "an erroneous value is rendered", v.s, "an error", s)
			}
			if err != nil && s != "" {
				fail("fuzz error: render", "an error comes with text", v.s, "", s)
			}
		})
	}
}

func runFuzz(dumps, errs bool) {
	prepareFuzz()
	doDump, doErr = dumps, errs
	f := &fuzzer{}
	for i := 0; i < 3; i++ {
		e := simple()
		f.vals = append(f.vals, V{v: reflect.ValueOf(e.x), s: e.s, dump: dumpV(reflect.ValueOf(e.x))})
	}
	n := pick("n", "m")
	nd := cypher.AnyNode().NamedByString(n)
	f.vals = append(f.vals, V{v: reflect.ValueOf(nd), s: "AnyNode().NamedByString(" + q(n) + ")", dump: dumpV(reflect.ValueOf(nd))})
	if len(vnames) > 0 && chance(0.5) {
		n := vnames[rnd.Intn(len(vnames))]
		v := reflect.ValueOf(apiVars[n])
		if v.IsValid() && (v.Kind() == reflect.Struct) {
			f.vals = append(f.vals, V{v: v, s: n, dump: dumpV(v)})
		}
	}
	if !doDump && chance(0.4) {
		e := cypher.ASymbolic("")
		f.vals = append(f.vals, V{v: reflect.ValueOf(e), s: "ASymbolic(\"\")", bad: true, dump: dumpV(reflect.ValueOf(e))})
	}
	for i := 0; i < 6; i++ {
		f.callFunc(fnames[rnd.Intn(len(fnames))], 2)
		for k := 0; k < 4; k++ {
			f.method()
		}
		if enough() {
			return
		}
	}
	f.renderAll()
	if dumps {
		for _, v := range f.vals {
			if n := dumpV(v.v); n != v.dump {
				dumpEq("fuzz changed: later", "a value changes after it was made", v.s, v.dump, n)
			}
		}
	}
}

// silent: results that have no place for an error, or take no part of the argument.
func silent(name string) bool {
	if i := strings.Index(name, "."); i >= 0 && silentMethods[name[i+1:]] {
		return true
	}
	return silentNames[name]
}

var silentMethods = map[string]bool{
	"GetSymbolicName":   true, // part of the value that may be without error
	"Get":               true,
	"GetExpressionType": true,
	"GetError":          true,
}

var silentNames = map[string]bool{}

func init() {
	reg(func() { runFuzz(false, false) }, "any calls", "C05")
	reg(func() { runFuzz(false, true) }, "any calls with errors", "C04")
	reg(func() { runFuzz(true, false) }, "any calls leave values alone", "C14")
}
