package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// JT is a JSON value: the harness's own representation.
type JT struct {
	K byte   // 'z' null, 'b' boolean, 'n' number, 's' string, 'a' array, 'o' object
	S string `json:",omitempty"` // number as written, string
	B bool   `json:",omitempty"`
	A []*JT  `json:",omitempty"` // elements, member values
	N []string
}

type jsonCase struct {
	Mode string // frames, alist, data, adata, xform, struct, text, cycle
	Text string
	Tree *JT
	Type int

	Parent, Xform string `json:",omitempty"`
}

var jsonKeys = []string{"a", "b", "c", "foo", "x1", "a:", "b::", "p*", "", "é", "two words", "q\"t", "back\\", ":", "A", "0"}

func (g *Gen) jt(d int, nulls bool) *JT {
	switch k := g.pick(10); {
	case d > 0 && k < 3:
		t := &JT{K: 'a'}
		for n := g.size(4, 12); n > 0; n-- {
			t.A = append(t.A, g.jt(d-1, nulls))
		}
		return t
	case d > 0 && k < 6:
		t := &JT{K: 'o'}
		used := map[string]bool{}
		for n := g.size(4, 9); n > 0; n-- {
			key := jsonKeys[g.pick(len(jsonKeys))]
			if used[key] {
				continue
			}
			used[key] = true
			t.N = append(t.N, key)
			t.A = append(t.A, g.jt(d-1, nulls))
		}
		return t
	}
	switch g.pick(6) {
	case 0:
		if nulls {
			return &JT{K: 'z'}
		}
		return &JT{K: 'b', B: g.oneIn(2)}
	case 1:
		return &JT{K: 'b', B: g.oneIn(2)}
	case 2, 3:
		return &JT{K: 'n', S: g.jsonNumber()}
	default:
		return &JT{K: 's', S: g.anyRunes()}
	}
}

func (g *Gen) jsonNumber() string {
	switch g.pick(8) {
	case 0, 1, 2:
		return strconv.FormatInt(g.int64(), 10)
	case 3:
		return oneOf(g, "0", "-0", "1.0", "-2.50", "1e3", "1E+2", "5e-1", "0.1", "123.456", "1e20", "-1e30", "1e-30", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1.0e2", "9007199254740993")
	case 4:
		f := g.float32()
		if f != f || math.IsInf(float64(f), 0) {
			f = 1.5
		}
		return strconv.FormatFloat(float64(f), byte(oneOf(g, 'g', 'e', 'f')), -1, 32)
	default:
		return strconv.Itoa(g.pick(200)-50) + "." + strconv.Itoa(g.pick(1000))
	}
}

// numV is the golisp value of a JSON number: an integer when it has no
// fraction and is in range, a float otherwise.
func numV(s string) V {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return n
	}
	f, _ := strconv.ParseFloat(s, 64)
	if f == math.Trunc(f) && f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
		return int64(f)
	}
	return float32(f)
}

func (t *JT) value(alist bool) V {
	switch t.K {
	case 'b':
		return t.B
	case 'n':
		return numV(t.S)
	case 's':
		return newStr(t.S)
	case 'a':
		var r []V
		for _, e := range t.A {
			r = append(r, e.value(alist))
		}
		return list(r...)
	case 'o':
		if alist {
			var r V
			for i := range t.A {
				r = mAcons(newStr(t.N[i]), t.A[i].value(true), r)
			}
			return r
		}
		f := &MFrame{slots: map[string]V{}}
		for i := range t.A {
			f.slots[t.N[i]+":"] = t.A[i].value(false)
		}
		return f
	}
	return nil
}

// write renders the tree with arbitrary white space and escapes.
func (g *Gen) write(b *strings.Builder, t *JT) {
	ws := func() { b.WriteString(oneOf(g, "", "", "", " ", "\n", "\t", "  ")) }
	str := func(s string) {
		b.WriteByte('"')
		for _, r := range s {
			switch {
			case r == '"' || r == '\\':
				b.WriteString("\\" + string(r))
			case r < 32 || r < 0x10000 && g.oneIn(12):
				if r == '\n' && g.oneIn(2) {
					b.WriteString("\\n")
				} else {
					fmt.Fprintf(b, "\\u%04x", r)
				}
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	}
	ws()
	switch t.K {
	case 'z':
		b.WriteString("null")
	case 'b':
		b.WriteString(strconv.FormatBool(t.B))
	case 'n':
		b.WriteString(t.S)
	case 's':
		str(t.S)
	case 'a':
		b.WriteByte('[')
		for i, e := range t.A {
			if i > 0 {
				b.WriteByte(',')
			}
			g.write(b, e)
		}
		ws()
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		for i, e := range t.A {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			str(t.N[i])
			ws()
			b.WriteByte(':')
			g.write(b, e)
		}
		ws()
		b.WriteByte('}')
	}
	ws()
}

func decodeJSON(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("text after the value")
	}
	return x, nil
}

// sameJSON compares a decoded JSON text with the tree. Absent values and empty
// lists have no JSON form of their own: null, "" and [] stand for both.
func sameJSON(x interface{}, t *JT, alist bool) error {
	bad := func() error {
		b, _ := json.Marshal(x)
		return fmt.Errorf("%s where %q %v %s was expected", short(string(b), 200), string(t.K), t.B, short(t.S, 200))
	}
	none := t.K == 'z' || (t.K == 'a' || alist && t.K == 'o') && len(t.A) == 0
	if none {
		switch y := x.(type) {
		case nil:
			return nil
		case string:
			if y == "" {
				return nil
			}
		case []interface{}:
			if len(y) == 0 {
				return nil
			}
		case map[string]interface{}:
			if len(y) == 0 && t.K == 'o' {
				return nil
			}
		}
		return bad()
	}
	switch t.K {
	case 'b':
		if x == t.B {
			return nil
		}
	case 's':
		if x == t.S {
			return nil
		}
	case 'n':
		n, ok := x.(json.Number)
		if !ok {
			return bad()
		}
		if mShow(numV(n.String())) == mShow(numV(t.S)) {
			return nil
		}
		// a float without a fraction reads back as an integer
		if f, ok := numV(t.S).(float32); ok {
			if h, err := n.Float64(); err == nil && float32(h) == f {
				return nil
			}
		}
	case 'a':
		y, ok := x.([]interface{})
		if !ok || len(y) != len(t.A) {
			return bad()
		}
		for i := range y {
			if err := sameJSON(y[i], t.A[i], alist); err != nil {
				return err
			}
		}
		return nil
	case 'o':
		y, ok := x.(map[string]interface{})
		if !ok || len(y) != len(t.A) {
			return bad()
		}
		for i, k := range t.N {
			e, ok := y[k]
			if !ok {
				return fmt.Errorf("key %q is missing", k)
			}
			if err := sameJSON(e, t.A[i], alist); err != nil {
				return fmt.Errorf("%q: %v", k, err)
			}
		}
		return nil
	}
	return bad()
}

// data with a JSON form, as source text and as the tree it stands for
func (g *Gen) jsonData(d int) (string, *JT) {
	switch k := g.pick(12); {
	case d > 0 && k < 3:
		t := &JT{K: 'a'}
		s := []string{"list"}
		for n := g.size(4, 10); n > 0; n-- {
			x, e := g.jsonData(d - 1)
			s = append(s, x)
			t.A = append(t.A, e)
		}
		return "(" + strings.Join(s, " ") + ")", t
	case d > 0 && k < 7:
		t := &JT{K: 'o'}
		s := []string{"make-frame"}
		used := map[string]bool{}
		for n := g.size(4, 9); n > 0; n-- {
			key := oneOf(g, "a", "b", "foo", "x1", "a:", "p*", "é")
			if used[key] {
				continue
			}
			used[key] = true
			if g.oneIn(8) {
				s = append(s, key+":", "(lambda (x) x)") // methods are left out
				continue
			}
			x, e := g.jsonData(d - 1)
			s = append(s, key+":", x)
			t.N = append(t.N, key)
			t.A = append(t.A, e)
		}
		return "(" + strings.Join(s, " ") + ")", t
	}
	switch g.pick(8) {
	case 0:
		if g.oneIn(2) {
			return "#t", &JT{K: 'b', B: true}
		}
		return "#f", &JT{K: 'b'}
	case 1, 2:
		n := g.int64()
		return text(n), &JT{K: 'n', S: strconv.FormatInt(n, 10)}
	case 3:
		f := g.float32()
		if f != f || math.IsInf(float64(f), 0) {
			f = -0.75
		}
		return text(f), &JT{K: 'n', S: strconv.FormatFloat(float64(f), 'g', -1, 32)}
	case 4:
		s := string(g.sym())
		return "'" + s, &JT{K: 's', S: s}
	case 5:
		v := g.bytesV().(*MBytes)
		t := &JT{K: 'a'}
		for _, c := range v.b {
			t.A = append(t.A, &JT{K: 'n', S: strconv.Itoa(int(c))})
		}
		return text(v), t
	default:
		s := g.str()
		return text(newStr(s)), &JT{K: 's', S: s}
	}
}

// alistData: data with a JSON form made of lists and association lists.
func (g *Gen) alistData(d int) (string, *JT) {
	switch k := g.pick(10); {
	case d > 0 && k < 3:
		t := &JT{K: 'a'}
		s := []string{"list"}
		for n := 1 + g.size(4, 10); n > 0; n-- {
			x, e := g.alistData(d - 1)
			s = append(s, x)
			t.A = append(t.A, e)
		}
		return "(" + strings.Join(s, " ") + ")", t
	case d > 0 && k < 6:
		t := &JT{K: 'o'}
		src := "'()"
		used := map[string]bool{}
		for n := 1 + g.size(4, 9); n > 0; n-- {
			key := oneOf(g, "a", "b", "foo", "x1", "p*", "zz")
			if used[key] {
				continue
			}
			used[key] = true
			x, e := g.alistData(d - 1)
			src = "(acons " + oneOf(g, "'"+key, text(newStr(key))) + " " + x + " " + src + ")"
			t.N = append(t.N, key)
			t.A = append(t.A, e)
		}
		return src, t
	}
	switch g.pick(6) {
	case 0:
		if g.oneIn(2) {
			return "#t", &JT{K: 'b', B: true}
		}
		return "#f", &JT{K: 'b'}
	case 1, 2:
		n := g.int64()
		return text(n), &JT{K: 'n', S: strconv.FormatInt(n, 10)}
	case 3:
		f := g.float32()
		if f != f || math.IsInf(float64(f), 0) {
			f = -0.75
		}
		return text(f), &JT{K: 'n', S: strconv.FormatFloat(float64(f), 'g', -1, 32)}
	case 4:
		s := string(g.sym())
		return "'" + s, &JT{K: 's', S: s}
	default:
		s := g.str()
		return text(newStr(s)), &JT{K: 's', S: s}
	}
}

// Go types for the direct conversion of Go values.
type jsInner struct {
	X int `json:"x"`
	Y string
	Z []int8 `json:"zs,omitempty"`
}
type jsA struct {
	Name   string `json:"name"`
	Count  int64  `json:",omitempty"`
	Ratio  float64
	Small  float32 `json:"small,omitempty"`
	On     bool    `json:"on,omitempty"`
	Skip   int     `json:"-"`
	In     jsInner `json:"in"`
	hidden int
}

// shortDigits: v has an integral float that may have fewer digits in JSON than
// its value, so that the text gives another integer.
func shortDigits(v reflect.Value) (found bool) {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		f, limit := math.Abs(v.Float()), float64(1<<53)
		if v.Kind() == reflect.Float32 {
			limit = 1 << 24
		}
		return f >= limit && f <= 1<<63
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && shortDigits(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			found = found || shortDigits(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			found = found || shortDigits(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			found = found || shortDigits(v.MapIndex(k))
		}
	}
	return
}

type jsB struct {
	List  []jsInner          `json:"list"`
	M     map[string]float64 `json:"m"`
	P     *jsInner           `json:"p"`
	PP    **int16            `json:"pp"`
	Any   interface{}        `json:"any"`
	Txt   int                `json:"txt,string"`
	Flag  bool               `json:"flag,string,omitempty"`
	Arr   [3]uint8           `json:"arr"`
	U     uint32
	Words []string       `json:"words,omitempty"`
	PZ    *int           `json:"pz,omitempty"`
	PS    *string        `json:"ps,omitempty"`
	IO    interface{}    `json:"io,omitempty"`
	MO    map[string]int `json:"mo,omitempty"`
	In    *jsInner       `json:"in,omitempty"`
	FS    float64        `json:"fs,string"`
	F32   float32        `json:",string,omitempty"`
	BP    *bool          `json:"bp,string"`
	SS    string         `json:"ss,string,omitempty"`
	SP    *string        `json:"sp,omitempty,string"`
	IS    interface{}    `json:"is,string"`
	U8    uint8
	U16   uint16 `json:"u16,omitempty"`
	UI    uint   `json:",string"`
	U64   uint64 `json:"u64"`
	I8    int8
}

// keys of a string type of their own, names that look like tags
type jsKey string
type jsC struct {
	Dash  int                   `json:"-,"`
	Dash2 string                `json:"--,omitempty"`
	Keyed map[jsKey]int         `json:"keyed"`
	Deep  [][]map[jsKey]jsInner `json:"deep,omitempty"`
	Key   jsKey                 `json:"key"`
	Pk    *jsKey                `json:"pk,omitempty"`
	Arr   [2][]jsKey            `json:"arr"`
	Sp    string                `json:"a.b_c"`
	N     jsNum                 `json:",string"`
	B     jsBool                `json:"b,omitempty"`
}
type jsNum int32
type jsBool bool

var jsTypes = []reflect.Type{reflect.TypeOf(jsC{}), reflect.TypeOf([]jsC{}), reflect.TypeOf(map[jsKey]jsC{}), reflect.TypeOf(jsA{}), reflect.TypeOf(jsB{}), reflect.TypeOf(map[string]jsA{}), reflect.TypeOf([]jsB{}), reflect.TypeOf([]map[string]int{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf((*jsA)(nil))}

// fill makes a random value of a Go type.
func (g *Gen) fill(v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.oneIn(2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !g.oneIn(3) {
			v.SetInt(g.int64() >> uint(64-v.Type().Bits()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch g.pick(4) {
		case 0:
		case 1:
			v.SetUint(uint64(g.pick(200)))
		default:
			n := uint64(g.int64())
			if v.Type().Bits() == 64 {
				n >>= 1 // beyond the integers there is no integer to convert to
			}
			v.SetUint(n >> uint(64-v.Type().Bits()))
		}
	case reflect.Float32, reflect.Float64:
		if !g.oneIn(3) {
			f, _ := strconv.ParseFloat(g.jsonNumber(), 64)
			v.SetFloat(float64(float32(f)))
		}
	case reflect.String:
		if !g.oneIn(3) {
			v.SetString(g.str())
		}
	case reflect.Ptr:
		if d > 0 && !g.oneIn(3) {
			v.Set(reflect.New(v.Type().Elem()))
			g.fill(v.Elem(), d)
		}
	case reflect.Slice:
		if !g.oneIn(4) {
			n := g.size(3, 6)
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				g.fill(v.Index(i), d-1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), d)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := g.size(3, 6); n > 0; n-- {
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(e, d-1)
			v.SetMapIndex(reflect.ValueOf(jsonKeys[g.pick(len(jsonKeys))]).Convert(v.Type().Key()), e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.fill(v.Field(i), d)
			}
		}
	case reflect.Interface:
		switch g.pick(5) {
		case 0:
		case 1:
			v.Set(reflect.ValueOf(g.str()))
		case 2:
			v.Set(reflect.ValueOf(float64(g.pick(9)) / 4))
		case 3:
			v.Set(reflect.ValueOf(g.oneIn(2)))
		default:
			if d > 0 {
				v.Set(reflect.ValueOf([]interface{}{float64(g.pick(9)), "x", nil}))
			}
		}
	}
}

func treeOf(x interface{}) *JT {
	switch y := x.(type) {
	case nil:
		return &JT{K: 'z'}
	case bool:
		return &JT{K: 'b', B: y}
	case json.Number:
		return &JT{K: 'n', S: y.String()}
	case string:
		return &JT{K: 's', S: y}
	case []interface{}:
		t := &JT{K: 'a'}
		for _, e := range y {
			t.A = append(t.A, treeOf(e))
		}
		return t
	case map[string]interface{}:
		t := &JT{K: 'o'}
		for k, e := range y {
			t.N = append(t.N, k)
			t.A = append(t.A, treeOf(e))
		}
		return t
	}
	bugf("treeOf %T", x)
	return nil
}

var devNull *os.File

func quietStdout(f func()) {
	if devNull == nil {
		devNull, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	}
	saved := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = saved }()
	f()
}

func c19run(c interface{}, r *Rec) (err error) {
	jc := c.(*jsonCase)
	resetReal()
	r.Class("mode %s", jc.Mode)
	call := func(prim string, d *D) (*D, error) {
		return golisp.Eval(golisp.InternalMakeList(golisp.Intern(prim), golisp.InternalMakeList(golisp.Intern("quote"), d)), golisp.Global)
	}
	r.Sample = jc.Text
	switch jc.Mode {
	case "frames", "alist":
		alist := jc.Mode == "alist"
		r.NonTrivial = len(jc.Tree.A) > 0
		want := mShow(jc.Tree.value(alist))
		var d *D
		var out string
		if alist {
			d = golisp.JsonStringToLisp(jc.Text)
			out = golisp.LispToJsonString(d)
		} else {
			d, err = call("json->lisp", golisp.StringWithValue(jc.Text))
			if err != nil {
				return err
			}
			o, err := call("lisp->json", d)
			if err != nil {
				return err
			}
			out = golisp.StringValue(o)
			if again := golisp.LispWithFramesToJsonString(golisp.JsonStringToLispWithFrames(jc.Text)); again != out && jc.Tree.K != 'z' {
				return fmt.Errorf("JSON %s\n converts back to %s through the primitives and to %s through the API", jc.Text, out, again)
			}
		}
		if got := rShow(d); got != want {
			return fmt.Errorf("JSON %s (%s)\n converted to %s\n expected %s", short(jc.Text, 600), jc.Mode, short(got, 600), short(want, 600))
		}
		x, e := decodeJSON(out)
		if e == nil {
			e = sameJSON(x, jc.Tree, alist)
		}
		if e != nil {
			return fmt.Errorf("JSON %s\n converted to Lisp and back (%s) is %s\n %v", short(jc.Text, 600), jc.Mode, short(out, 600), e)
		}
	case "data":
		r.NonTrivial = len(jc.Tree.A) > 0
		d, e := golisp.ParseAndEval(jc.Text)
		if e != nil {
			return fmt.Errorf("%s: %v", jc.Text, e)
		}
		before := rShow(d)
		o, e := call("lisp->json", d)
		if e != nil {
			return fmt.Errorf("%s: %v", jc.Text, e)
		}
		out := golisp.StringValue(o)
		x, e := decodeJSON(out)
		if e == nil {
			e = sameJSON(x, jc.Tree, false)
		}
		if e != nil {
			return fmt.Errorf("value %s\n converts to JSON %s\n %v", jc.Text, short(out, 600), e)
		}
		if after := rShow(d); before != after {
			return fmt.Errorf("converting %s to JSON changed it", jc.Text)
		}
	case "adata":
		r.NonTrivial = len(jc.Tree.A) > 0
		d, e := golisp.ParseAndEval(jc.Text)
		if e != nil {
			return fmt.Errorf("%s: %v", jc.Text, e)
		}
		before := rShow(d)
		out := golisp.LispToJsonString(d)
		x, e := decodeJSON(out)
		if e == nil {
			e = sameJSON(x, jc.Tree, true)
		}
		if e != nil {
			return fmt.Errorf("value %s\n converts to JSON %s\n %v", jc.Text, short(out, 600), e)
		}
		if after := rShow(d); before != after {
			return fmt.Errorf("converting %s to JSON changed it", jc.Text)
		}
	case "xform":
		r.NonTrivial = true
		node, e := golisp.ParseAndEval(jc.Text)
		parent := golisp.JsonStringToLisp(jc.Parent)
		if e != nil {
			return fmt.Errorf("%s: %v", jc.Text, e)
		}
		n, p := rShow(node), rShow(parent)
		var form *D
		if form, e = golisp.Parse(jc.Xform); e != nil {
			return e
		}
		res, e := golisp.TransformJson(form, node, parent)
		bad := strings.Contains(jc.Xform, "error") || !strings.Contains(jc.Xform, "lambda")
		if bad {
			if e == nil {
				return fmt.Errorf("the transformation %s gave %s instead of an error", jc.Xform, short(rShow(res), 300))
			}
			return nil
		}
		if e != nil {
			return fmt.Errorf("the transformation %s of %s below %s failed: %v", jc.Xform, jc.Text, jc.Parent, e)
		}
		want := []*D{node, parent}
		if strings.Contains(jc.Xform, "(list parent node)") {
			want = []*D{parent, node}
		}
		if g, w := rShow(res), rShow(golisp.InternalMakeList(want...)); g != w {
			return fmt.Errorf("the transformation %s of %s below %s gave %s instead of %s", jc.Xform, jc.Text, jc.Parent, short(g, 300), short(w, 300))
		}
		if rShow(node) != n || rShow(parent) != p {
			return fmt.Errorf("transforming %s below %s changed them", jc.Text, jc.Parent)
		}
	case "struct":
		v := reflect.New(jsTypes[jc.Type])
		if e := json.Unmarshal([]byte(jc.Text), v.Interface()); e != nil {
			bugf("struct case: %v in %s", e, jc.Text)
		}
		enc, e := json.Marshal(v.Interface())
		if e != nil {
			bugf("struct case: %v", e)
		}
		if shortDigits(v.Elem()) {
			return nil
		}
		x, _ := decodeJSON(string(enc))
		r.NonTrivial = len(jc.Text) > 20
		want := mShow(treeOf(x).value(false))
		got := rShow(golisp.JsonToLispWithFrames(v.Elem().Interface()))
		if got != want {
			return fmt.Errorf("Go value %s of type %s\n converted to %s\n expected %s", enc, jsTypes[jc.Type], short(got, 600), short(want, 600))
		}
	case "text":
		quietStdout(func() {
			x, bad := decodeJSON(jc.Text)
			r.NonTrivial = len(jc.Text) > 3
			r.Class("valid %v", bad == nil)
			d := golisp.JsonStringToLispWithFrames(jc.Text)
			want := "F1{}"
			if bad == nil {
				want = mShow(treeOf(x).value(false))
			}
			if got := rShow(d); got != want {
				err = fmt.Errorf("JSON text %q (%v)\n converted to %s\n expected %s", jc.Text, bad, short(got, 600), want)
				return
			}
			defer func() {
				if e := recover(); (e != nil) != (bad != nil) || e != nil && !strings.Contains(fmt.Sprint(e), "Badly formed json") {
					err = fmt.Errorf("JSON text %q (%v): JsonStringToLisp panicked with %v", jc.Text, bad, e)
				}
			}()
			golisp.JsonStringToLisp(jc.Text)
		})
	case "cycle":
		r.NonTrivial = true
		d, e := golisp.ParseAndEvalAll(jc.Text)
		if e != nil {
			return e
		}
		out := golisp.LispWithFramesToJsonString(d)
		if _, e := decodeJSON(out); e != nil {
			return fmt.Errorf("%s\n converts to %q: %v", jc.Text, out, e)
		}
	}
	return
}

func init() {
	register(&Prop{
		ID: "C19", Quick: 40000, Thor: 1000000,
		Rule: "JSON texts rendered from random trees (all escapes, numbers at the limits of 64-bit integers and of floats, nulls, empty and nested containers, keys with colons) converted to frames or alists and back; Lisp data converted to JSON; Go values (structs with tags, maps, slices, pointers) converted directly and compared with the conversion of their JSON encoding; malformed and mutated texts; frames that contain themselves; non-trivial: a compound value, for texts more than three characters",
		New:  func() interface{} { return &jsonCase{} },
		Gen: func(t *rapid.T) interface{} {
			g := newGen(t)
			switch g.pick(12) {
			case 0, 1, 2, 3:
				tr := g.jt(4, true)
				var b strings.Builder
				g.write(&b, tr)
				return &jsonCase{Mode: "frames", Text: b.String(), Tree: tr}
			case 4, 5:
				tr := g.jt(4, true)
				var b strings.Builder
				g.write(&b, tr)
				return &jsonCase{Mode: "alist", Text: b.String(), Tree: tr}
			case 6, 7:
				switch g.pick(5) {
				case 0, 1:
					s, tr := g.alistData(4)
					return &jsonCase{Mode: "adata", Text: s, Tree: tr}
				case 2:
					s, _ := g.alistData(3)
					var b strings.Builder
					g.write(&b, g.jt(3, true))
					return &jsonCase{Mode: "xform", Text: s, Parent: b.String(),
						Xform: oneOf(g, "(lambda (node parent) (list node parent))", "(lambda (node parent) (list parent node))", "(lambda (n . r) (cons n r))", "(begin (define (xf n p) (list n p)) (lambda (a b) (xf a b)))", "(lambda (node parent) (error 'bad))", "(error 'worse)", "5", "'x")}
				}
				s, tr := g.jsonData(4)
				return &jsonCase{Mode: "data", Text: s, Tree: tr}
			case 8, 9:
				n := g.pick(len(jsTypes))
				v := reflect.New(jsTypes[n])
				g.fill(v.Elem(), 3)
				b, err := json.Marshal(v.Interface())
				if err != nil {
					bugf("%v", err)
				}
				return &jsonCase{Mode: "struct", Text: string(b), Type: n}
			case 10:
				var b strings.Builder
				g.write(&b, g.jt(3, true))
				s := b.String()
				for n := g.pick(4); n > 0; n-- {
					i := g.pick(len(s) + 1)
					switch g.pick(3) {
					case 0:
						s = s[:i] + oneOf(g, "{", "}", "[", "]", ",", ":", "\"", "1", "nul", "true", "-", ".", "e", "\\", " ", "x") + s[i:]
					case 1:
						if i < len(s) {
							s = s[:i] + s[i+1:]
						}
					default:
						s = s[:i]
					}
				}
				return &jsonCase{Mode: "text", Text: s}
			default:
				n := 1 + g.pick(3)
				var b strings.Builder
				for i := 0; i < n; i++ {
					x, _ := g.jsonData(1)
					fmt.Fprintf(&b, "(define f%d (make-frame v: %s)) ", i, x)
				}
				for k := 1 + g.pick(4); k > 0; k-- {
					ref := fmt.Sprintf("f%d", g.pick(n))
					fmt.Fprintf(&b, "(set-slot! f%d %s %s) ", g.pick(n), oneOf(g, "x:", "parent*:", "y:"), oneOf(g, ref, "(list 1 "+ref+")"))
				}
				return &jsonCase{Mode: "cycle", Text: b.String() + fmt.Sprintf("f%d", g.pick(n))}
			}
		},
		Run: c19run,
	})
}
