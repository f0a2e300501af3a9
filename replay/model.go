package main

import (
	"math/big"
	"strconv"
	"strings"
	"unicode"
)

// The model of a query: pieces of text in which a named node is written in
// full once, and an aliased expression is written out once.

type M interface{ w(c *ctx) }

type ctx struct {
	sb      strings.Builder
	nodes   map[int]bool
	aliased map[int]string
}

func text(m M) string {
	c := &ctx{nodes: map[int]bool{}, aliased: map[int]string{}}
	m.w(c)
	return strings.TrimSpace(c.sb.String())
}

type T string

func (t T) w(c *ctx) { c.sb.WriteString(string(t)) }

type S []M

func (s S) w(c *ctx) {
	for _, m := range s {
		m.w(c)
	}
}

// X is a value with an identity: once it has been given an alias, the alias stands for it.
type X struct {
	id   int
	body M
}

func (x X) w(c *ctx) {
	if a, ok := c.aliased[x.id]; ok {
		T(name(a)).w(c)
		return
	}
	x.body.w(c)
}

// A is "x AS alias" where it occurs first and the alias afterwards.
type A struct {
	x     X
	alias string
}

func (a A) w(c *ctx) {
	if al, ok := c.aliased[a.x.id]; ok {
		T(name(al)).w(c)
	} else {
		a.x.body.w(c)
		T(" AS " + name(a.alias)).w(c)
	}
	c.aliased[a.x.id] = a.alias
}

// N is a node pattern: (name:Label {..}) the first time, (name) afterwards.
type N struct {
	id    int
	name  string
	rest  M
	named bool
}

func (n N) w(c *ctx) {
	T("(").w(c)
	if n.named {
		T(name(n.name)).w(c)
	}
	if !n.named || !c.nodes[n.id] {
		n.rest.w(c)
	}
	if n.named {
		c.nodes[n.id] = true
	}
	T(")").w(c)
}

func join(sep string, ms ...M) M {
	var s S
	for i, m := range ms {
		if i > 0 {
			s = append(s, T(sep))
		}
		s = append(s, m)
	}
	return s
}

// plain: letters, digits and underscores, not starting with a digit.
func plain(s string) bool {
	if s == "" {
		return false
	}
	for i, r := range []rune(s) {
		if r == '_' || unicode.IsLetter(r) || i > 0 && unicode.IsDigit(r) {
			continue
		}
		return false
	}
	return true
}

func quoted(s string) string {
	var sb strings.Builder
	sb.WriteByte('`')
	for i := 0; i < len(s); i++ {
		if s[i] == '`' {
			sb.WriteByte('`')
		}
		sb.WriteByte(s[i])
	}
	sb.WriteByte('`')
	return sb.String()
}

// name: how a name is written where quoting is optional.
func name(s string) string {
	if plain(s) || strings.TrimSpace(s) == "" {
		return s
	}
	return quoted(s)
}

func strLit(s string) string {
	var sb strings.Builder
	sb.WriteByte('\'')
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' || s[i] == '\'' || s[i] == '"' {
			sb.WriteByte('\\')
		}
		sb.WriteByte(s[i])
	}
	sb.WriteByte('\'')
	return sb.String()
}

// numOK: the text is a decimal numeral without exponent that denotes exactly the shortest decimal of f.
func floatText(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func sameNumber(text string, f float64) bool {
	if strings.ContainsAny(text, "eE") {
		return false
	}
	r, ok := new(big.Rat).SetString(text)
	if !ok {
		return false
	}
	g, _ := r.Float64()
	return g == f
}
