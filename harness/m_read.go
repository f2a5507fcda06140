package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

// The model's reader: it reads the well-formed texts the generators write.

type mReader struct {
	r   []rune
	pos int
}

type readErr struct{ msg string }

func mParse(src string) (v V, err error) {
	vs, err := mParseAll(src)
	if err != nil {
		return nil, err
	}
	if len(vs) != 1 {
		return nil, fmt.Errorf("%d expressions in %q", len(vs), src)
	}
	return vs[0], nil
}

func mParseAll(src string) (vs []V, err error) {
	defer func() {
		if e := recover(); e != nil {
			if re, ok := e.(readErr); ok {
				err = fmt.Errorf("%s", re.msg)
				return
			}
			panic(e)
		}
	}()
	m := &mReader{r: []rune(src)}
	for {
		m.skip()
		for m.peek(0) == ')' { // extra closing parentheses between expressions are tolerated
			m.pos++
			m.skip()
		}
		if m.pos >= len(m.r) {
			return
		}
		vs = append(vs, m.expr())
	}
}

func (m *mReader) fail(f string, a ...interface{}) { panic(readErr{fmt.Sprintf(f, a...)}) }

func (m *mReader) skip() {
	for m.pos < len(m.r) {
		c := m.r[m.pos]
		if unicode.IsSpace(c) {
			m.pos++
		} else if c == ';' {
			for m.pos < len(m.r) && m.r[m.pos] != '\n' {
				m.pos++
			}
		} else {
			return
		}
	}
}

func (m *mReader) peek(k int) rune {
	if m.pos+k < len(m.r) {
		return m.r[m.pos+k]
	}
	return 0
}

func symChar(c rune) bool {
	return unicode.IsGraphic(c) && !unicode.IsSpace(c) && !strings.ContainsRune("();\"'`|[]{}#,", c)
}

func isDig(c rune) bool { return c >= '0' && c <= '9' }

func (m *mReader) expr() V {
	m.skip()
	if m.pos >= len(m.r) {
		m.fail("unexpected end")
	}
	c := m.r[m.pos]
	quoted := func(name string, n int) V {
		m.pos += n
		return list(Sym(name), m.expr())
	}
	switch {
	case c == '\'':
		return quoted("quote", 1)
	case c == '`':
		return quoted("quasiquote", 1)
	case c == ',' && m.peek(1) == '@':
		return quoted("unquote-splicing", 2)
	case c == ',':
		return quoted("unquote", 1)
	case c == '(':
		m.pos++
		var items []V
		for {
			m.skip()
			if m.pos >= len(m.r) {
				m.fail("missing )")
			}
			if m.r[m.pos] == ')' {
				m.pos++
				return list(items...)
			}
			if m.r[m.pos] == '.' && unicode.IsSpace(m.peek(1)) {
				m.pos++
				t := m.expr()
				m.skip()
				if m.peek(0) != ')' {
					m.fail("expected )")
				}
				m.pos++
				return listTail(items, t)
			}
			items = append(items, m.expr())
		}
	case c == '[':
		m.pos++
		var items []V
		all := true
		for {
			m.skip()
			if m.pos >= len(m.r) {
				m.fail("missing ]")
			}
			if m.r[m.pos] == ']' {
				m.pos++
				break
			}
			e := m.expr()
			switch x := e.(type) {
			case int64:
				if x < 0 || x > 255 {
					m.fail("byte out of range")
				}
			case Sym, *Pair, nil:
				all = false
			default:
				m.fail("bytearray element")
			}
			items = append(items, e)
		}
		if all {
			b := make([]byte, len(items))
			for i, e := range items {
				b[i] = byte(e.(int64))
			}
			return &MBytes{b}
		}
		return list(Sym("list->bytearray"), cons(Sym("list"), list(items...)))
	case c == '{':
		m.pos++
		var items []V
		for {
			m.skip()
			if m.pos >= len(m.r) {
				m.fail("missing }")
			}
			if m.r[m.pos] == '}' {
				m.pos++
				return cons(Sym("make-frame"), list(items...))
			}
			items = append(items, m.expr())
		}
	case c == '"':
		m.pos++
		var b strings.Builder
		for {
			if m.pos >= len(m.r) {
				m.fail("unterminated string")
			}
			c := m.r[m.pos]
			m.pos++
			if c == '"' {
				return &MStr{s: b.String()}
			}
			if c == '\\' {
				if m.pos >= len(m.r) {
					m.fail("unterminated string")
				}
				c = m.r[m.pos]
				m.pos++
				if c == 'n' {
					c = '\n'
				}
			}
			b.WriteRune(c)
		}
	case c == '#':
		switch m.peek(1) {
		case 't':
			m.pos += 2
			return true
		case 'f':
			m.pos += 2
			return false
		case 'x', 'b':
			base := 16
			if m.peek(1) == 'b' {
				base = 2
			}
			m.pos += 2
			return m.radix(base)
		}
		m.fail("illegal #")
	case c == '0' && m.peek(1) == 'x':
		m.pos += 2
		return m.radix(16)
	case isDig(c) || c == '-' && isDig(m.peek(1)):
		st := m.pos
		m.pos++
		dot := false
		for m.pos < len(m.r) && (isDig(m.r[m.pos]) || m.r[m.pos] == '.' && !dot) {
			if m.r[m.pos] == '.' {
				dot = true
			}
			m.pos++
		}
		if unicode.IsNumber(m.peek(0)) {
			m.fail("numeral")
		}
		lit := string(m.r[st:m.pos])
		if dot {
			f, err := strconv.ParseFloat(lit, 32)
			if err != nil {
				m.fail("float %q", lit)
			}
			return float32(f)
		}
		n, err := strconv.ParseInt(lit, 10, 64)
		if err != nil {
			m.fail("integer %q", lit)
		}
		return n
	}
	if n := m.peek(1); c > 127 && unicode.IsNumber(c) || c == '-' && n > 127 && unicode.IsNumber(n) {
		m.fail("numeral")
	}
	if !symChar(c) {
		m.fail("unexpected %q", c)
	}
	if c == '.' && unicode.IsSpace(m.peek(1)) {
		unspec("a dot outside a list")
	}
	st := m.pos
	for m.pos < len(m.r) && symChar(m.r[m.pos]) {
		m.pos++
	}
	return Sym(string(m.r[st:m.pos]))
}

func (m *mReader) radix(base int) V {
	st := m.pos
	for m.pos < len(m.r) && strings.ContainsRune("0123456789abcdefABCDEF"[:map[int]int{2: 2, 16: 22}[base]], m.r[m.pos]) {
		m.pos++
	}
	n, err := strconv.ParseInt(string(m.r[st:m.pos]), base, 64)
	if err != nil {
		m.fail("radix literal")
	}
	return n
}

// ---- writing model values as source text ----

func floatText(f float32) string {
	s := strconv.FormatFloat(float64(f), 'f', -1, 32)
	if !strings.ContainsRune(s, '.') {
		s += ".0"
	}
	return s
}

func strText(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		if c == '"' || c == '\\' {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	b.WriteByte('"')
	return b.String()
}

// text is the canonical printed representation (what the printer promises).
func text(v V) string {
	var b strings.Builder
	writeText(&b, v)
	return b.String()
}

func writeText(b *strings.Builder, v V) {
	switch x := v.(type) {
	case nil:
		b.WriteString("()")
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float32:
		switch {
		case x != x:
			b.WriteString("nan")
		case x > 3.4028235e38:
			b.WriteString("+inf")
		case x < -3.4028235e38:
			b.WriteString("-inf")
		default:
			b.WriteString(floatText(x))
		}
	case bool:
		if x {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case *MStr:
		b.WriteString(strText(x.str()))
	case Sym:
		b.WriteString(string(x))
	case *MBytes:
		b.WriteByte('[')
		for i, c := range x.b {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Itoa(int(c)))
		}
		b.WriteByte(']')
	case *MFrame:
		b.WriteByte('{')
		for i, k := range sortedKeys(x.slots) {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k + " ")
			writeText(b, x.slots[k])
		}
		b.WriteByte('}')
	case *MFn:
		b.WriteString("<function: " + x.name + ">")
	case *MMacro:
		b.WriteString("<macro: " + x.name + ">")
	case *MPrim:
		b.WriteString("<prim: " + x.name + ">")
	case *Pair:
		if x.kind == kCell {
			b.WriteByte('(')
			writeText(b, x.car)
			b.WriteString(" . ")
			writeText(b, x.cdr)
			b.WriteByte(')')
			return
		}
		if s, ok := x.car.(Sym); ok && s == "quote" {
			if q, ok := x.cdr.(*Pair); ok && q.cdr == nil && q.kind == kCons {
				b.WriteByte('\'')
				writeText(b, q.car)
				return
			}
		}
		b.WriteByte('(')
		n := 0
		for {
			writeText(b, x.car)
			if n++; n > maxLen || b.Len() > showMax {
				unspec("cyclic or huge value printed")
			}
			if x.cdr == nil {
				break
			}
			nx, ok := x.cdr.(*Pair)
			if !ok || nx.kind == kCell {
				b.WriteString(" . ")
				writeText(b, x.cdr)
				break
			}
			b.WriteByte(' ')
			x = nx
		}
		b.WriteByte(')')
	default:
		unspec("printed form of %T", v)
	}
}

func sortedKeys(m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sortStrings(k)
	return k
}
