package cypher

import (
	"strings"
	"unicode"
)

// Contracts of the text of names and literals.

// specIdentifier: a name that needs no quotes.
func specIdentifier(name string) bool {
	cs := []rune(name)
	return name != "" && vcAll(len(cs), func(i int) bool {
		return cs[i] == '_' || unicode.IsLetter(cs[i]) || i > 0 && unicode.IsDigit(cs[i])
	})
}

// @ ensures isIdentifier
// @ props C01
func en_isIdentifier(name string, r bool) bool { return r == specIdentifier(name) }

// @ ensures EscapeIfNecessary
// @ props C01
func en_EscapeIfNecessary(name string, r string) bool {
	if strings.TrimSpace(name) == "" || specIdentifier(name) {
		return r == name
	}
	return r == specQuoted(name)
}

// specEscaped: backslashes and quotes behind a backslash each.
func specEscaped(text string) string {
	return strings.NewReplacer("\\", "\\\\", "'", "\\'", "\"", "\\\"").Replace(text)
}

// @ ensures escapeStringLiteral
// @ props C02
func en_escapeStringLiteral(value string, r string) bool { return r == specEscaped(value) }

// @ ensures StringLiteral.AsString
// @ props C02
func en_StringLiteral_AsString(s StringLiteral, r string) bool {
	return r == "'"+specEscaped(s.content)+"'"
}

// @ ensures AQuote
// @ props C02
func en_AQuote(unquotedString string, r string) bool { return r == "'"+specEscaped(unquotedString)+"'" }

// @ ensures RawStringLiteral.AsString
// @ props C02 C03
func en_RawStringLiteral_AsString(s RawStringLiteral, r string) bool { return r == s.content }

// @ ensures BooleanLiteral.AsString
// @ props C03
func en_BooleanLiteral_AsString(b BooleanLiteral, r string) bool {
	return b.content && r == "true" || !b.content && r == "false"
}

// @ ensures NilLiteral.AsString
// @ props C03
func en_NilLiteral_AsString(n NilLiteral, r string) bool { return r == "NULL" }

// @ ensures NumberLiteral.AsString
// @ props C03
func en_NumberLiteral_AsString(n NumberLiteral, r string) bool {
	return r == n.content.Text('f', -1)
}

// @ ensures ListLiteral.AsString
// @ props C03 C07
func en_ListLiteral_AsString(l ListLiteral, r string) bool {
	return r == "["+specListed(l.content, len(l.content))+"]"
}

// @ rec
//
// specListed: the first n literals with a comma between them.
func specListed(ls []Literal, n int) string {
	if n <= 0 {
		return ""
	}
	if n == 1 {
		return ls[0].AsString()
	}
	return specListed(ls, n-1) + ", " + ls[n-1].AsString()
}

// @ ensures Asterisk.AsString
// @ props C08
func en_Asterisk_AsString(s Asterisk, r string) bool { return r == s.content }

// @ ensures Dot.AsString
// @ props C19
func en_Dot_AsString(s Dot, r string) bool { return r == s.content }

// @ ensures Namespace.AsString
// @ props C18
func en_Namespace_AsString(n Namespace, r string) bool { return r == strings.Join(n.content, ".") }

// @ ensures ProcedureName.getQualifiedName
// @ props C18
func en_ProcedureName_getQualifiedName(p ProcedureName, r string) bool {
	if p.optionalNamespace.notNil {
		return r == strings.Join(p.optionalNamespace.content, ".")+"."+p.value
	}
	return r == p.value
}
