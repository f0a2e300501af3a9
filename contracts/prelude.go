package cypher

// vcAll and vcAny are the quantifiers of the contracts.
func vcAll(n int, p func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if !p(i) {
			return false
		}
	}
	return true
}

func vcAny(n int, p func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if p(i) {
			return true
		}
	}
	return false
}

// vcSame: the two values are the same, up to the identity given to elements
// made during the call. Two values that both carry an error are the same.
func vcSame(a, b interface{}) bool {
	return a == nil && b == nil
}

// vcFresh: the key was made during the call, so no element had it before.
func vcFresh(key string) bool { return key != "" }
