package cypher

// The renderer itself: which element is written, at which level, and with
// which separator in front of it.

//@ fileprops C07 C09 C06
//@ transformer CypherRenderer.postLeave

// specBlocked: nothing is written while the content of a node is skipped, or
// inside an alias that was written before.
func specBlocked(r *CypherRenderer) bool {
	if r.skipNodeContent {
		return true
	}
	n := len(r.currentAliasedElements)
	if n == 0 {
		return false
	}
	_, known := r.visitableToAliased[r.currentAliasedElements[n-1].delegate.getKey()]
	return known
}

func specUsed(r *CypherRenderer, v Visitable) Visitable {
	if a, ok := r.visitableToAliased[v.getKey()]; ok {
		return a
	}
	return v
}

// @ spec CypherRenderer.getAliasedIfSeen
func spec_CypherRenderer_getAliasedIfSeen(r *CypherRenderer, v Visitable) Visitable {
	return specUsed(r, v)
}

func specOpen(r *CypherRenderer, used Visitable) {
	if a, ok := used.(AliasedExpression); ok {
		r.currentAliasedElements = append(r.currentAliasedElements, a)
	}
	r.currentLevel++
	if _, list := used.(SubVisitable); list {
		r.separatorOnLevel[r.currentLevel+1] = ""
	}
	if separator, ok := r.separatorOnLevel[r.currentLevel]; ok {
		r.append(separator)
		r.separatorOnLevel[r.currentLevel] = ""
	}
}

// @ spec CypherRenderer.PreEnter
func spec_CypherRenderer_PreEnter(r *CypherRenderer, v *Visitable) bool {
	if specBlocked(r) {
		return false
	}
	specOpen(r, *v)
	return true
}

// @ spec CypherRenderer.enter
func spec_CypherRenderer_enter(r *CypherRenderer, v Visitable) {
	used := specUsed(r, v)
	if specBlocked(r) {
		return
	}
	specOpen(r, used)
	r.currentVisitedElements = append(r.currentVisitedElements, used.getKey())
	used.enter(r)
}

func specClose(r *CypherRenderer, used Visitable) {
	if _, ok := r.separatorOnLevel[r.currentLevel]; ok {
		r.separatorOnLevel[r.currentLevel] = ", "
	}
	if _, list := used.(SubVisitable); list {
		delete(r.separatorOnLevel, r.currentLevel+1)
	}
	n := len(r.currentAliasedElements)
	if n > 0 && r.currentAliasedElements[n-1].getKey() == used.getKey() {
		r.currentAliasedElements = r.currentAliasedElements[:n-1]
	}
	r.currentLevel--
}

// @ spec CypherRenderer.postLeave
func spec_CypherRenderer_postLeave(r *CypherRenderer, v Visitable) {
	specClose(r, v)
}

// @ spec CypherRenderer.enableSeparator
func spec_CypherRenderer_enableSeparator(r *CypherRenderer, level int, on bool) {
	if on {
		r.separatorOnLevel[level] = ""
	} else {
		delete(r.separatorOnLevel, level)
	}
}

// @ spec CypherRenderer.resolve
// @ props C01 C09 C06
func spec_CypherRenderer_resolve(r *CypherRenderer, name SymbolicName) string {
	if known, ok := r.resolvedSymbolicNames[name]; ok {
		return known
	}
	if name.value != "" {
		return EscapeIfNecessary(name.value)
	}
	return "unresolved" + name.key
}

// @ spec CypherRenderer.append
// @ props C06
func spec_CypherRenderer_append(r *CypherRenderer, content string) *CypherRenderer {
	r.builder.WriteString(content)
	return r
}

// @ spec CypherRenderer.leave
func spec_CypherRenderer_leave(r *CypherRenderer, v Visitable) {
	used := specUsed(r, v)
	current := ""
	if n := len(r.currentVisitedElements); n > 0 {
		current = r.currentVisitedElements[n-1]
	}
	if current == used.getKey() {
		used.leave(r)
		r.postLeave(used)
		if n := len(r.currentVisitedElements); n > 0 {
			r.currentVisitedElements = r.currentVisitedElements[:n-1]
		}
	}
	if a, ok := v.(AliasedExpression); ok {
		r.visitableToAliased[a.delegate.getKey()] = a
	}
}
