package main

import "strings"

// Structural shrinking of programs: drop forms, then replace parts of forms by
// smaller ones, for as long as the case still fails.

func shrinkProgCase(c interface{}, fails func(c interface{}) bool) interface{} {
	cur := *(c.(*progCase))
	try := func(f []string) bool {
		n := cur
		n.Forms = f
		if fails(&n) {
			cur = n
			return true
		}
		return false
	}
	shrinkForms(func() []string { return cur.Forms }, try)
	return &cur
}

func shrinkForms(get func() []string, try func(f []string) bool) {
	for changed := true; changed; {
		changed = false
		for k := len(get()) / 2; k >= 1; k /= 2 {
			for i := len(get()) - k; i >= 0; i-- {
				f := get()
				if i+k > len(f) || len(f) <= 1 {
					continue
				}
				if try(append(append([]string{}, f[:i]...), f[i+k:]...)) {
					changed = true
				}
			}
		}
		for i := 0; i < len(get()); i++ {
			for again := true; again; {
				again = false
				for _, s := range smaller(get()[i]) {
					f := append([]string{}, get()...)
					f[i] = s
					if try(f) {
						again, changed = true, true
						break
					}
				}
			}
		}
	}
}

// smaller lists texts obtained from src by replacing one parenthesised or
// atomic part by something shorter.
func smaller(src string) (out []string) {
	type span struct{ a, b int }
	var spans []span
	var stack []int
	in := false
	for i := 0; i < len(src); i++ {
		switch c := src[i]; {
		case in:
			if c == '\\' {
				i++
			} else if c == '"' {
				in = false
			}
		case c == '"':
			in = true
		case c == '(' || c == '[' || c == '{':
			stack = append(stack, i)
		case c == ')' || c == ']' || c == '}':
			if len(stack) > 0 {
				a := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				spans = append(spans, span{a, i + 1})
			}
		}
	}
	ok := func(s string) bool { _, err := mParse(s); return err == nil && len(s) < len(src) }
	add := func(s string) {
		if ok(s) {
			out = append(out, s)
		}
	}
	// larger parts first
	for i := len(spans) - 1; i >= 0; i-- {
		a, b := spans[i].a, spans[i].b
		q := a
		for q > 0 && strings.ContainsRune("'`,", rune(src[q-1])) {
			q--
		}
		for _, r := range []string{"1", "'()", "()", ""} {
			add(src[:q] + r + src[b:])
			if q != a {
				add(src[:a] + r + src[b:])
			}
		}
		// one of its own elements
		for _, s := range spans {
			if s.a > a && s.b < b {
				add(src[:a] + src[s.a:s.b] + src[b:])
			}
		}
	}
	// atoms
	for i := 0; i < len(src); i++ {
		if strings.IndexByte(" ()[]{}'`,\"", src[i]) >= 0 {
			continue
		}
		j := i
		for j < len(src) && strings.IndexByte(" ()[]{}'`,\"", src[j]) < 0 {
			j++
		}
		add(src[:i] + strings.TrimLeft(src[j:], " "))
		if j-i > 1 {
			add(src[:i] + "1" + src[j:])
		}
		i = j
	}
	return
}
