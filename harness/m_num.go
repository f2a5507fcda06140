package main

import (
	"math"
	"strconv"
)

func toF(v V) float32 {
	switch x := v.(type) {
	case int64:
		return float32(x)
	case float32:
		return x
	}
	lispErr("number expected")
	return 0
}

func numCheck(a []V) (anyFloat bool) {
	for _, v := range a {
		switch v.(type) {
		case int64:
		case float32:
			anyFloat = true
		default:
			lispErr("number expected")
		}
	}
	return
}

// cmpNum: -1, 0, 1, or 2 when unordered (NaN)
func cmpNum(a, b V) int {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	if ok1 && int64(float32(x)) != x || ok2 && int64(float32(y)) != y {
		unspec("comparison of a float with an integer no float represents")
	}
	f, g := toF(a), toF(b)
	switch {
	case f < g:
		return -1
	case f > g:
		return 1
	case f == g:
		return 0
	}
	return 2
}

func fold(ints func(a, b int64) int64, floats func(a, b float32) float32, i0 int64, f0 float32, unit bool) func(in *Interp, a []V, env *MEnv) V {
	return func(in *Interp, a []V, env *MEnv) V {
		if numCheck(a) {
			acc := f0
			for i, v := range a {
				if i == 0 && !unit {
					acc = toF(v)
					continue
				}
				acc = floats(acc, toF(v))
			}
			return acc
		}
		acc := i0
		for i, v := range a {
			if i == 0 && !unit {
				acc = v.(int64)
				continue
			}
			acc = ints(acc, v.(int64))
		}
		return acc
	}
}

func init() {
	prim("+", "*", fold(func(a, b int64) int64 { return a + b }, func(a, b float32) float32 { return a + b }, 0, 0, true))
	prim("*", "*", fold(func(a, b int64) int64 { return a * b }, func(a, b float32) float32 { return a * b }, 1, 1, true))
	prim("-", "*", fold(func(a, b int64) int64 { return a - b }, func(a, b float32) float32 { return a - b }, 0, 0, false))
	prim("/ quotient", "*", fold(func(a, b int64) int64 {
		if b == 0 {
			lispErr("divide by zero")
		}
		if b == -1 {
			return -a
		}
		return a / b
	}, func(a, b float32) float32 {
		if b == 0 {
			lispErr("divide by zero")
		}
		return a / b
	}, 0, 0, false))
	prim("% modulo", "2", func(in *Interp, a []V, env *MEnv) V {
		x, y := intArg(a[0], "%"), intArg(a[1], "%")
		if y == 0 {
			lispErr("divide by zero")
		}
		if y == -1 {
			return int64(0)
		}
		return x % y
	})
	prim("succ", "1", func(in *Interp, a []V, env *MEnv) V { return intArg(a[0], "succ") + 1 })
	prim("pred", "1", func(in *Interp, a []V, env *MEnv) V { return intArg(a[0], "pred") - 1 })
	cmp := func(name string, f func(c int) bool) {
		prim(name, "2", func(in *Interp, a []V, env *MEnv) V {
			numCheck(a)
			return f(cmpNum(a[0], a[1]))
		})
	}
	cmp("<", func(c int) bool { return c == -1 })
	cmp(">", func(c int) bool { return c == 1 })
	cmp("<=", func(c int) bool { return c == -1 || c == 0 })
	cmp(">=", func(c int) bool { return c == 1 || c == 0 })
	prim("interval", "1|2|3", func(in *Interp, a []V, env *MEnv) V {
		for _, v := range a {
			if _, ok := v.(int64); !ok {
				if len(a) == 3 && v == a[2] {
					lispErr("interval step")
				}
				unspec("interval of non-integers")
			}
		}
		start, end, step := int64(1), a[0].(int64), int64(1)
		if len(a) > 1 {
			start, end = a[0].(int64), a[1].(int64)
			if start > end {
				step = -1
			}
			if len(a) == 3 {
				s := a[2].(int64)
				if s == 0 || (s > 0) != (step > 0) {
					lispErr("interval step sign")
				}
				step = s
			}
		}
		var r []V
		for i := start; step > 0 && i <= end || step < 0 && i >= end; {
			if r = append(r, i); len(r) > 4000 {
				unspec("huge interval")
			}
			n := i + step
			if (n > i) != (step > 0) {
				break
			}
			i = n
		}
		return list(r...)
	})
	prim("integer", "1", func(in *Interp, a []V, env *MEnv) V {
		numCheck(a)
		if f, ok := a[0].(float32); ok {
			if f != f || f >= 9.2e18 || f <= -9.2e18 {
				unspec("float out of integer range")
			}
			return int64(f)
		}
		return a[0]
	})
	prim("float", "1", func(in *Interp, a []V, env *MEnv) V { return toF(a[0]) })
	base := func(a []V) int {
		if len(a) == 1 {
			return 10
		}
		b, ok := a[1].(int64)
		if !ok || b != 2 && b != 8 && b != 10 && b != 16 {
			unspec("unsupported base")
		}
		return int(b)
	}
	prim("number->string", "1|2", func(in *Interp, a []V, env *MEnv) V {
		b := base(a)
		n, ok := a[0].(int64)
		if !ok {
			unspec("number->string of a non-integer")
		}
		return &MStr{s: strconv.FormatInt(n, b)}
	})
	prim("string->number", "1|2", func(in *Interp, a []V, env *MEnv) V {
		b := base(a)
		s, ok := a[0].(*MStr)
		if !ok {
			unspec("string->number of a non-string")
		}
		if s.str() == "" {
			lispErr("no number")
		}
		t := s.s
		if t[0] == '-' {
			t = t[1:]
		}
		digits := 0
		for _, c := range t {
			d := 99
			switch {
			case c >= '0' && c <= '9':
				d = int(c - '0')
			case c >= 'a' && c <= 'f':
				d = int(c-'a') + 10
			}
			if d >= b {
				if digits == 0 && c != '+' && c != ' ' && c != '\n' && c != '\t' && c != '\r' && c != '_' && c < 128 {
					lispErr("not a number")
				}
				unspec("trailing text after a number")
			}
			digits++
		}
		n, err := strconv.ParseInt(s.s, b, 64)
		if err != nil {
			lispErr("not a number")
		}
		return n
	})
	ext := func(name string, want int) {
		prim(name, "1", func(in *Interp, a []V, env *MEnv) V {
			l := mustList(a[0], name)
			if len(l) == 0 {
				return int64(0)
			}
			if numCheck(l) {
				unspecIf(containsNaN(a[0]), "NaN")
				acc := toF(l[0])
				for _, v := range l[1:] {
					if want < 0 && toF(v) < acc || want > 0 && toF(v) > acc {
						acc = toF(v)
					}
				}
				return acc
			}
			acc := l[0].(int64)
			for _, v := range l[1:] {
				n := v.(int64)
				if want < 0 && n < acc || want > 0 && n > acc {
					acc = n
				}
			}
			return acc
		})
	}
	ext("min", -1)
	ext("max", 1)
	prim("floor", "1", func(in *Interp, a []V, env *MEnv) V { return float32(math.Floor(float64(toF(a[0])))) })
	prim("ceiling", "1", func(in *Interp, a []V, env *MEnv) V { return float32(math.Ceil(float64(toF(a[0])))) })
	prim("abs", "1", func(in *Interp, a []V, env *MEnv) V {
		numCheck(a)
		if n, ok := a[0].(int64); ok {
			if n == math.MinInt64 {
				unspec("abs of the smallest integer")
			}
			if n < 0 {
				n = -n
			}
			return n
		}
		return float32(math.Abs(float64(toF(a[0]))))
	})
	prim("zero?", "1", func(in *Interp, a []V, env *MEnv) V { return toF(a[0]) == 0 })
	prim("positive?", "1", func(in *Interp, a []V, env *MEnv) V { return toF(a[0]) > 0 })
	prim("negative?", "1", func(in *Interp, a []V, env *MEnv) V { return toF(a[0]) < 0 })
	prim("even?", "1", func(in *Interp, a []V, env *MEnv) V { return intArg(a[0], "even?")&1 == 0 })
	prim("odd?", "1", func(in *Interp, a []V, env *MEnv) V { return intArg(a[0], "odd?")&1 == 1 })
	prim("sign", "1", func(in *Interp, a []V, env *MEnv) V {
		f := toF(a[0])
		switch {
		case f < 0:
			return int64(-1)
		case f > 0:
			return int64(1)
		}
		return int64(0)
	})
	prim("pow", "2", func(in *Interp, a []V, env *MEnv) V {
		if numCheck(a) {
			return float32(math.Pow(float64(toF(a[0])), float64(toF(a[1]))))
		}
		b, e := a[0].(int64), a[1].(int64)
		if e < 0 {
			unspec("negative integer exponent")
		}
		r := int64(1)
		if e > 200 {
			// wraps; computed by squaring
			for ; e > 0; e >>= 1 {
				if e&1 == 1 {
					r *= b
				}
				b *= b
			}
			return r
		}
		for ; e > 0; e-- {
			r *= b
		}
		return r
	})
	prim("inf?", "1", func(in *Interp, a []V, env *MEnv) V {
		numCheck(a)
		f, ok := a[0].(float32)
		return ok && math.IsInf(float64(f), 0)
	})
	prim("nan?", "1", func(in *Interp, a []V, env *MEnv) V {
		numCheck(a)
		f, ok := a[0].(float32)
		return ok && f != f
	})
	prim("float->bits", "1", func(in *Interp, a []V, env *MEnv) V {
		f, ok := a[0].(float32)
		if !ok {
			lispErr("float->bits")
		}
		unspecIf(f != f, "bits of NaN")
		return int64(math.Float32bits(f))
	})
	prim("bits->float", "1", func(in *Interp, a []V, env *MEnv) V {
		n := intArg(a[0], "bits->float")
		unspecIf(n < 0 || n > math.MaxUint32, "bits out of range")
		return math.Float32frombits(uint32(n))
	})
	for n, f := range unaryFloat {
		f := f
		prim(n, "1", func(in *Interp, a []V, env *MEnv) V { return float32(f(float64(toF(a[0])))) })
	}
	for n, f := range map[string]float64{"pi": math.Pi, "e": math.E, "phi": math.Phi, "sqrt2": math.Sqrt2, "sqrte": math.SqrtE,
		"sqrtpi": math.SqrtPi, "sqrtphi": math.SqrtPhi, "ln2": math.Ln2, "log2e": math.Log2E, "ln10": math.Ln10,
		"log10e": math.Log10E, "nan": math.NaN(), "+inf": math.Inf(1), "-inf": math.Inf(-1)} {
		modelConsts[n] = float32(f)
	}
	modelConsts["nil"] = nil
}

var unaryFloat = map[string]func(float64) float64{"acos": math.Acos, "acosh": math.Acosh, "asin": math.Asin, "asinh": math.Asinh,
	"atan": math.Atan, "atanh": math.Atanh, "cbrt": math.Cbrt, "cos": math.Cos, "cosh": math.Cosh, "erf": math.Erf, "erfc": math.Erfc,
	"exp": math.Exp, "exp2": math.Exp2, "expm1": math.Expm1, "gamma": math.Gamma, "j0": math.J0, "j1": math.J1, "log": math.Log,
	"log10": math.Log10, "log1p": math.Log1p, "log2": math.Log2, "logb": math.Logb, "sin": math.Sin, "sinh": math.Sinh,
	"sqrt": math.Sqrt, "tan": math.Tan, "tanh": math.Tanh, "y0": math.Y0, "y1": math.Y1}
