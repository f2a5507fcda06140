package main

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

func strArg(v V, what string) string {
	s, ok := v.(*MStr)
	if !ok {
		lispErr("%s needs a string", what)
	}
	return s.str()
}

func newStr(s string) V { return &MStr{s: s} }

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// printable: the printed form of v is specified (no unordered or cyclic parts,
// none of the lists whose printed form a test of the project pins oddly).
func printable(v V, depth int) {
	if depth > 200 {
		unspec("printed form of a deep value")
	}
	switch x := v.(type) {
	case *MFrame:
		unspecIf(len(x.slots) > 1 || depth > 50, "printed order of slots")
		for _, w := range x.slots {
			printable(w, depth+1)
		}
	case *Pair:
		if x.kind == kCell {
			printable(x.car, depth+1)
			printable(x.cdr, depth+1)
			return
		}
		if x.car == Sym("quote") && x.cdr == nil {
			unspec("printed form of (quote)")
		}
		unspecIf(x.kind == kAlist && x.cdr != nil, "printed order of an alist")
		n := 0
		for {
			printable(x.car, depth+1)
			nx, ok := x.cdr.(*Pair)
			if !ok {
				printable(x.cdr, depth+1)
				return
			}
			if n++; n > 2000 {
				unspec("printed form of a long list")
			}
			x = nx
		}
	}
}

// written and displayed are what ~s and ~a (and write, str) produce.
func written(v V) string {
	printable(v, 0)
	return text(v)
}

func displayed(v V) string {
	if s, ok := v.(*MStr); ok {
		return s.str()
	}
	return written(v)
}

func concat(a []V) string {
	if len(a) == 0 {
		return "()"
	}
	s := ""
	for _, x := range a {
		s += displayed(x)
	}
	return s
}

func capital(s string) string {
	for i, c := range s {
		return strings.ToUpper(string(c)) + strings.ToLower(s[i+len(string(c)):])
	}
	return ""
}

// split at every occurrence of sep, from the left.
func split(s, sep string) (r []V) {
	if sep == "" {
		for _, c := range s {
			r = append(r, newStr(string(c)))
		}
		return
	}
	for start, i := 0, 0; ; {
		if i+len(sep) > len(s) {
			return append(r, newStr(s[start:]))
		}
		if s[i:i+len(sep)] == sep {
			r = append(r, newStr(s[start:i]))
			i += len(sep)
			start = i
		} else {
			i++
		}
	}
}

func trim(s, set string, left, right bool) string {
	in := func(c rune) bool {
		for _, d := range set {
			if c == d {
				return true
			}
		}
		return false
	}
	r := []rune(s)
	for left && len(r) > 0 && in(r[0]) {
		r = r[1:]
	}
	for right && len(r) > 0 && in(r[len(r)-1]) {
		r = r[:len(r)-1]
	}
	return string(r)
}

func init() {
	prim("string-split", "2", func(in *Interp, a []V, env *MEnv) V {
		s := strArg(a[0], "string-split")
		return list(split(s, strArg(a[1], "string-split"))...)
	})
	prim("string-join", "1|2", func(in *Interp, a []V, env *MEnv) V {
		if !isListP(a[0]) {
			lispErr("string-join needs a list")
		}
		sep := ""
		if len(a) == 2 && a[1] != nil {
			sep = strArg(a[1], "string-join")
		}
		unspecIf(!properList(a[0]), "string-join of an improper list")
		r := ""
		for i, x := range arr(a[0]) {
			if i > 0 {
				r += sep
			}
			r += strArg(x, "string-join")
		}
		return newStr(r)
	})
	for name, lr := range map[string][2]bool{"string-trim": {true, true}, "string-trim-left": {true, false}, "string-trim-right": {false, true}} {
		name, lr := name, lr
		prim(name, "1|2", func(in *Interp, a []V, env *MEnv) V {
			s := strArg(a[0], name)
			set := " \t\r\n\v\f"
			if len(a) == 2 {
				set = strArg(a[1], name)
			}
			return newStr(trim(s, set, lr[0], lr[1]))
		})
	}
	for name, f := range map[string]func(string) string{"string-upcase": strings.ToUpper, "string-downcase": strings.ToLower, "string-capitalize": capital} {
		name, f := name, f
		prim(name, "1", func(in *Interp, a []V, env *MEnv) V { return newStr(f(strArg(a[0], name))) })
		prim(name+"!", "1", func(in *Interp, a []V, env *MEnv) V {
			s := f(strArg(a[0], name))
			a[0].(*MStr).s = s
			return a[0]
		})
	}
	prim("string-length", "1", func(in *Interp, a []V, env *MEnv) V {
		s := strArg(a[0], "string-length")
		return int64(len(s)) // positions and lengths count the bytes of the text
	})
	prim("string-null?", "1", func(in *Interp, a []V, env *MEnv) V { return strArg(a[0], "string-null?") == "" })
	prim("substring", "3", func(in *Interp, a []V, env *MEnv) V {
		s := strArg(a[0], "substring")
		i, j := intArg(a[1], "substring"), intArg(a[2], "substring")
		if i < 0 || i > int64(len(s)) || j > int64(len(s)) || i > j {
			lispErr("substring out of range")
		}
		for _, k := range []int64{i, j} {
			unspecIf(k < int64(len(s)) && !utf8.RuneStart(s[k]), "substring that cuts through a character")
		}
		return newStr(s[i:j])
	})
	prim("substring?", "2", func(in *Interp, a []V, env *MEnv) V {
		s := strArg(a[0], "substring?")
		t, ok := a[1].(*MStr)
		if ok && t.opaque {
			unspecIf(!strings.Contains(t.s, s), "text of an error message")
			return true
		}
		return strings.Contains(strArg(a[1], "substring?"), s)
	})
	prim("string-prefix?", "2", func(in *Interp, a []V, env *MEnv) V {
		s, t := strArg(a[0], "string-prefix?"), strArg(a[1], "string-prefix?")
		return len(s) <= len(t) && t[:len(s)] == s
	})
	prim("string-suffix?", "2", func(in *Interp, a []V, env *MEnv) V {
		s, t := strArg(a[0], "string-suffix?"), strArg(a[1], "string-suffix?")
		return len(s) <= len(t) && t[len(t)-len(s):] == s
	})
	for op, f := range map[string]func(c int) bool{"=": func(c int) bool { return c == 0 }, "<": func(c int) bool { return c < 0 }, ">": func(c int) bool { return c > 0 },
		"<=": func(c int) bool { return c <= 0 }, ">=": func(c int) bool { return c >= 0 }} {
		op, f := op, f
		prim("string"+op+"?", "2", func(in *Interp, a []V, env *MEnv) V {
			s, t := strArg(a[0], "string"+op+"?"), strArg(a[1], "string"+op+"?")
			return f(strings.Compare(s, t))
		})
		prim("string-ci"+op+"?", "2", func(in *Interp, a []V, env *MEnv) V {
			s, t := strArg(a[0], "string-ci"+op+"?"), strArg(a[1], "string-ci"+op+"?")
			return f(strings.Compare(strings.ToLower(s), strings.ToLower(t)))
		})
	}
	prim("parse", "1", func(in *Interp, a []V, env *MEnv) V {
		src := strArg(a[0], "parse")
		vs, err := mParseAll(src)
		unspecIf(strings.HasPrefix(strings.TrimSpace(src), ")"), "parse of a closing parenthesis")
		unspecIf(err != nil || len(vs) != 1, "parse of something else than one expression")
		return vs[0]
	})
	prim("str", "*", func(in *Interp, a []V, env *MEnv) V { return newStr(concat(a)) })
	prim("intern", "1", func(in *Interp, a []V, env *MEnv) V {
		return Sym(strArg(a[0], "intern"))
	})
	prim("format", ">=2", func(in *Interp, a []V, env *MEnv) V {
		dest, ok := a[0].(bool)
		if !ok {
			if _, port := a[0].(*MObj); port {
				unspec("format to a port")
			}
			lispErr("format destination")
		}
		s := mFormat(strArg(a[1], "format"), a[2:])
		if dest {
			in.out = append(in.out, s)
			return nil
		}
		return newStr(s)
	})
}

// mFormat is the documented meaning of a control string.
func mFormat(ctl string, args []V) string {
	c := []rune(ctl)
	out := ""
	next := func() V {
		if len(args) == 0 {
			lispErr("format: too few arguments")
		}
		v := args[0]
		args = args[1:]
		return v
	}
	for i := 0; i < len(c); i++ {
		if c[i] != '~' {
			out += string(c[i])
			continue
		}
		need := func() {
			if i >= len(c) {
				lispErr("format: incomplete directive")
			}
		}
		i++
		need()
		n, given := 0, false
		switch {
		case c[i] >= '0' && c[i] <= '9':
			j := i
			for i < len(c) && c[i] >= '0' && c[i] <= '9' {
				i++
			}
			v, err := strconv.Atoi(string(c[j:i]))
			unspecIf(err != nil || v > 100000, "format: huge count")
			n, given = v, true
		case c[i] == '#':
			n, given = len(args), true
			i++
		case c[i] == 'V' || c[i] == 'v':
			v, ok := next().(int64)
			if !ok {
				lispErr("format: count must be an integer")
			}
			unspecIf(v > 100000, "format: huge count")
			n, given = int(max(v, -1)), true
			i++
		}
		need()
		at := false
		if c[i] == '@' {
			at = true
			i++
			need()
		}
		switch c[i] {
		case 'A', 'a', 'S', 's':
			v := next()
			var s string
			if c[i] == 'A' || c[i] == 'a' {
				s = displayed(v)
			} else {
				s = written(v)
			}
			unspecIf(given && !ascii(s), "format: padding of a non-ASCII string")
			pad := ""
			if len(s) < n {
				pad = strings.Repeat(" ", n-len(s))
			}
			if at {
				out += pad + s
			} else {
				out += s + pad
			}
		case '%', '~':
			s := string(c[i])
			if s == "%" {
				s = "\n"
			}
			unspecIf(given && n <= 0 || at, "format: repetition that is no count")
			if n == 0 {
				n = 1
			}
			out += strings.Repeat(s, n)
		case '\n':
			unspecIf(given, "format: count on a line break")
			for i+1 < len(c) && unicode.IsSpace(c[i+1]) {
				i++
			}
			if at {
				out += "\n"
			}
		default:
			lispErr("format: unknown directive")
		}
	}
	if len(args) > 0 {
		lispErr("format: too many arguments")
	}
	return out
}
