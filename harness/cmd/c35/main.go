package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/test"
	"github.com/v2pro/plz/test/must"
	"github.com/v2pro/plz/test/should"
)

// A document is a tree of nil, bool, float64, string, []interface{} and map[string]interface{};
// the expected document also has placeholders.

type anything struct{}

type variable string

// variables as keys are spelled {name} in the keys of the expected tree
func isVarKey(key string) bool { return strings.HasPrefix(key, "{") && strings.HasSuffix(key, "}") }

var numbers = []float64{0, 1, -1, 2, 10, 100, 0.5, -0.25, 1e20, 1e-7, 123456789, 4503599627370496, 3.75}

func genText(rng *rand.Rand) string {
	for {
		s := hx.GenString(rng, 6)
		if rng.Intn(4) == 0 {
			s = []string{"", "a", "{", "}", "{a", "a}", "null", "1", "true", "any", "ANYTHING!", "\u2028", "\U0001f600", "\"", "\\", "<&>"}[rng.Intn(16)]
		}
		s = strings.ToValidUTF8(s, "?")
		if !isVarKey(s) && s != "ANYTHING" {
			return s
		}
	}
}

func genDoc(rng *rand.Rand, depth int) interface{} {
	k := rng.Intn(9)
	if depth > 0 && k < 5 {
		if k < 3 {
			object := map[string]interface{}{}
			for i := rng.Intn(4); i > 0; i-- {
				object[genText(rng)] = genDoc(rng, depth-1)
			}
			return object
		}
		list := []interface{}{}
		for i := rng.Intn(4); i > 0; i-- {
			list = append(list, genDoc(rng, depth-1))
		}
		return list
	}
	switch k {
	case 0, 5:
		return nil
	case 1, 6:
		return rng.Intn(2) == 0
	case 2, 7:
		return numbers[rng.Intn(len(numbers))]
	}
	return genText(rng)
}

func clone(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		list := make([]interface{}, len(v))
		for i := range v {
			list[i] = clone(v[i])
		}
		return list
	case map[string]interface{}:
		object := map[string]interface{}{}
		for key, elem := range v {
			object[key] = clone(elem)
		}
		return object
	}
	return v
}

func keysOf(object map[string]interface{}) []string {
	keys := make([]string, 0, len(object))
	for key := range object {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	return keys
}

// mutate changes one place of the document
func mutate(rng *rand.Rand, v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		if len(v) > 0 && rng.Intn(3) > 0 {
			i := rng.Intn(len(v))
			switch rng.Intn(6) {
			case 0:
				return append(v[:i:i], v[i+1:]...)
			case 1:
				j := rng.Intn(len(v))
				v[i], v[j] = v[j], v[i]
			case 2:
				return append(v, nil)
			default:
				v[i] = mutate(rng, v[i])
			}
			return v
		}
		if rng.Intn(2) == 0 {
			return append(v, genDoc(rng, 1))
		}
	case map[string]interface{}:
		keys := keysOf(v)
		if len(keys) > 0 && rng.Intn(3) > 0 {
			key := keys[rng.Intn(len(keys))]
			switch rng.Intn(6) {
			case 0:
				delete(v, key)
			case 1:
				elem := v[key]
				delete(v, key)
				v[genText(rng)] = elem
			case 2:
				v[genText(rng)] = nil
			default:
				v[key] = mutate(rng, v[key])
			}
			return v
		}
		if rng.Intn(2) == 0 {
			v[genText(rng)] = genDoc(rng, 1)
			return v
		}
	}
	switch rng.Intn(6) {
	case 0:
		return nil
	case 1:
		return []interface{}{}
	case 2:
		return map[string]interface{}{}
	case 3:
		if n, ok := v.(float64); ok {
			return strconv.FormatFloat(n, 'g', -1, 64)
		}
		if b, ok := v.(bool); ok {
			return !b
		}
	}
	return genDoc(rng, 1)
}

// hide replaces values of members by placeholders; the values of the variables are taken from the
// actual document
func hide(rng *rand.Rand, v interface{}, isMust bool, vars map[string]interface{}, bound map[string]bool, inList bool) interface{} {
	switch v := v.(type) {
	case []interface{}:
		for i := range v {
			v[i] = hide(rng, v[i], isMust, vars, bound, true)
		}
	case map[string]interface{}:
		if inList && !isMust {
			return v
		}
		for _, key := range keysOf(v) {
			if rng.Intn(4) > 0 {
				v[key] = hide(rng, v[key], isMust, vars, bound, inList)
				continue
			}
			if !isMust || rng.Intn(3) == 0 {
				v[key] = anything{}
				continue
			}
			name := string(rune('a' + rng.Intn(3)))
			if _, found := vars[name]; !found {
				vars[name] = clone(v[key])
			}
			bound[name] = true
			v[key] = variable(name)
		}
	}
	return v
}

// hideKeys replaces keys by variables whose value is the key
func hideKeys(rng *rand.Rand, v interface{}, vars map[string]interface{}, bound map[string]bool) {
	switch v := v.(type) {
	case []interface{}:
		for i := range v {
			hideKeys(rng, v[i], vars, bound)
		}
	case map[string]interface{}:
		taken := map[string]bool{}
		for _, key := range keysOf(v) {
			hideKeys(rng, v[key], vars, bound)
			for name := range bound {
				if vars[name] == interface{}(key) && !taken[name] && rng.Intn(2) == 0 {
					taken[name] = true
					elem := v[key]
					delete(v, key)
					v["{"+name+"}"] = elem
					break
				}
			}
		}
	}
}

// ---------------------------------------------------------------- oracle

func sameDoc(a, b interface{}) bool {
	switch a := a.(type) {
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameDoc(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for key := range a {
			elem, found := b[key]
			if !found || !sameDoc(a[key], elem) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case []interface{}, map[string]interface{}:
		return false
	}
	return a == b
}

type deferred struct {
	name     string
	elem     interface{}
	expected map[string]interface{}
	actual   map[string]interface{}
}

type matcher struct {
	values  map[string]interface{}
	pending []deferred
	used    map[string]bool
	unclear bool
}

func (m *matcher) member(expected interface{}, actual map[string]interface{}, key string) bool {
	elem, found := actual[key]
	if !found {
		if _, any := expected.(anything); any {
			m.unclear = true
		}
		return false
	}
	switch e := expected.(type) {
	case anything:
		return true
	case variable:
		old, found := m.values[string(e)]
		if !found {
			m.values[string(e)] = elem
			return true
		}
		return sameDoc(old, elem)
	}
	return m.match(expected, elem)
}

func (m *matcher) match(expected, actual interface{}) bool {
	switch e := expected.(type) {
	case []interface{}:
		a, ok := actual.([]interface{})
		if !ok || len(a) != len(e) {
			return false
		}
		for i := range e {
			if !m.match(e[i], a[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		a, ok := actual.(map[string]interface{})
		if !ok {
			return false
		}
		result := len(a) == len(e)
		for key, elem := range e {
			if isVarKey(key) {
				m.pending = append(m.pending, deferred{key[1 : len(key)-1], elem, e, a})
				continue
			}
			// all of them, to see what is unclear
			if !m.member(elem, a, key) {
				result = false
			}
		}
		return result
	}
	return sameDoc(expected, actual)
}

// fits tells whether the actual document fits the expected one
func fits(expected, actual interface{}) (ok bool, clear bool) {
	m := &matcher{values: map[string]interface{}{}, used: map[string]bool{}}
	result := m.match(expected, actual)
	for len(m.pending) > 0 {
		var rest []deferred
		resolved := false
		for _, d := range m.pending {
			value, found := m.values[d.name]
			if !found {
				rest = append(rest, d)
				continue
			}
			resolved = true
			pending := m.pending
			m.pending = nil
			key, isText := value.(string)
			member := fmt.Sprintf("%p %s", d.expected, key)
			if _, twice := d.expected[key]; twice || m.used[member] {
				// the same member is expected twice
				m.unclear = true
			}
			m.used[member] = true
			if !isText || !m.member(d.elem, d.actual, key) {
				result = false
			}
			rest = append(rest, m.pending...)
			m.pending = pending
		}
		if !resolved {
			return false, !m.unclear
		}
		m.pending = rest
	}
	return result, !m.unclear
}

// ---------------------------------------------------------------- rendering

func space(rng *rand.Rand) string {
	return []string{"", "", "", " ", "\n", "\t ", "\r\n"}[rng.Intn(7)]
}

func renderText(rng *rand.Rand, s string) string {
	var out strings.Builder
	out.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			out.WriteByte('\\')
			out.WriteRune(r)
		case r > 0xffff && rng.Intn(2) == 0:
			r -= 0x10000
			fmt.Fprintf(&out, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		case r < 0x20 || (rng.Intn(5) == 0 && r <= 0xffff):
			fmt.Fprintf(&out, `\u%04x`, r)
		default:
			out.WriteRune(r)
		}
	}
	out.WriteByte('"')
	return out.String()
}

func render(rng *rand.Rand, v interface{}, isMust bool) string {
	text := func() string {
		switch v := v.(type) {
		case anything:
			if isMust {
				return renderText(rng, "{ANYTHING}")
			}
			return renderText(rng, "ANYTHING")
		case variable:
			return renderText(rng, "{"+string(v)+"}")
		case nil:
			return "null"
		case bool:
			return strconv.FormatBool(v)
		case float64:
			switch rng.Intn(4) {
			case 0:
				return strconv.FormatFloat(v, 'e', -1, 64)
			case 1:
				return strconv.FormatFloat(v, 'f', -1, 64)
			case 2:
				if v == math.Trunc(v) && math.Abs(v) < 1e6 {
					return strconv.FormatFloat(v, 'f', 1, 64)
				}
			}
			return strings.ToUpper(strconv.FormatFloat(v, 'g', -1, 64))
		case string:
			return renderText(rng, v)
		case []interface{}:
			var parts []string
			for _, elem := range v {
				parts = append(parts, render(rng, elem, isMust))
			}
			return "[" + strings.Join(parts, ",") + space(rng) + "]"
		case map[string]interface{}:
			var parts []string
			keys := keysOf(v)
			rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			for _, key := range keys {
				parts = append(parts, space(rng)+renderText(rng, key)+space(rng)+":"+render(rng, v[key], isMust))
			}
			return "{" + strings.Join(parts, ",") + space(rng) + "}"
		}
		panic(fmt.Sprintf("can not render %T", v))
	}()
	return space(rng) + text + space(rng)
}

type marshaled struct{ text string }

func (m marshaled) MarshalJSON() ([]byte, error) { return []byte(m.text), nil }

type failing struct{}

func (failing) MarshalJSON() ([]byte, error) { return nil, errors.New("can not be marshaled") }

type person struct {
	Name  string      `json:"name"`
	Tags  []string    `json:"tags,omitempty"`
	Extra interface{} `json:"extra"`
	inner int
}

// actualOf makes something that stands for the document
func actualOf(rng *rand.Rand, doc interface{}, isMust bool) (interface{}, string) {
	switch rng.Intn(5) {
	case 0:
		return []byte(render(rng, doc, isMust)), "bytes"
	case 1:
		if _, isText := doc.(string); !isText && doc != nil {
			return doc, "value"
		}
	case 2:
		return marshaled{render(rng, doc, isMust)}, "marshaler"
	case 3:
		return json.RawMessage(render(rng, doc, isMust)), "raw"
	}
	return render(rng, doc, isMust), "text"
}

// ---------------------------------------------------------------- listed findings

// defect tells which of the listed findings the tree has; the inputs they concern are left out then
var defect struct {
	marshal, null, list, member, key bool
}

// attempt runs the assertion as a test
func attempt(root *testing.T, isMust bool, expected string, actual interface{}) (passed, continued bool, recovered interface{}, site string) {
	passed = root.Run("j", test.Case(func(ctx *countlog.Context) {
		defer func() {
			if recovered = recover(); recovered != nil {
				buf := make([]byte, 4096)
				site = hx.PanicSite(string(buf[:runtime.Stack(buf, false)]))
			}
		}()
		if isMust {
			must.JsonEqual(expected, actual)
		} else {
			should.JsonEqual(expected, actual)
		}
		continued = true
	}))
	return
}

// probe tries the listed findings
func probe(t *vk.T, root *testing.T) {
	try := func(sig string, isMust bool, site string, expected string, actual interface{}) bool {
		t.Tick()
		_, _, recovered, at := attempt(root, isMust, expected, actual)
		if recovered == nil || !strings.HasPrefix(at, site) {
			return false
		}
		t.ViolateAsync(sig, "JsonEqual, must=%v, of %s and %v panics in %s: %v", isMust, expected, actual, at, recovered)
		return true
	}
	const m, s = "github.com/v2pro/plz/test/must.", "github.com/v2pro/plz/test/should."
	marshal := []bool{try("must-marshal", true, m+"JsonEqual", "1", 1), try("should-marshal", false, s+"JsonEqual", "1", 1)}
	null := []bool{try("must-null", true, m+"substituteVars", "null", "null"), try("should-null", false, s+"maskAnything", "null", "null")}
	defect.marshal = marshal[0] || marshal[1]
	defect.null = null[0] || null[1]
	defect.list = try("must-list", true, m+"substituteVars", "[1]", "[]")
	defect.member = try("should-member", false, s+"maskAnything", `{"a":1}`, "{}")
	for _, actual := range []string{`{"a":"b"}`, `{"a":1}`} {
		defect.key = try("must-key", true, m+"substituteVars", `{"a":"{x}","{x}":1}`, actual) || defect.key
	}
	// a placeholder below a placeholder
	if passed, _, _, _ := attempt(root, true, `{"a":"{x}","{x}":"{y}"}`, `{"a":"b","b":"c"}`); !passed {
		defect.key = true
		t.ViolateAsync("must-key-value", "JsonEqual takes a placeholder as the value of a member named by a placeholder for different from its value")
	}
}

// listed tells that the input is concerned by one of the findings the tree has
func listed(expected, actual interface{}, isMust, want, named bool) bool {
	switch e := expected.(type) {
	case nil:
		return defect.null
	case []interface{}:
		a, ok := actual.([]interface{})
		if ok && len(a) < len(e) && isMust && defect.list {
			return true
		}
		for i, elem := range e {
			var other interface{}
			if i < len(a) {
				other = a[i]
			}
			if listed(elem, other, isMust, want, named) {
				return true
			}
		}
	case map[string]interface{}:
		a, ok := actual.(map[string]interface{})
		for key, elem := range e {
			other, found := a[key]
			if ok && !found && !isMust && defect.member {
				return true
			}
			if isVarKey(key) && defect.key {
				if !want || listed(elem, nil, isMust, want, true) {
					return true
				}
			} else if listed(elem, other, isMust, want, named) {
				return true
			}
		}
	case variable, anything:
		return named
	}
	return false
}

var broken = []string{"", " ", "{", "[1,]", `{"a":1,}`, "nul", `"`, `{"a"}`, "1 2", "[1}", `{a:1}`, "'a'", `"\x"`, "01", "{} {}"}

func run(t *vk.T) {
	file, err := os.Create(t.Scratch("out") + "/stdout")
	if err != nil {
		t.Fatal(err.Error())
	}
	os.Stdout = file
	testing.Init()
	os.Args = os.Args[:1]
	flag.Set("test.v", "true")
	done := make(chan bool)
	go testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "root", F: func(root *testing.T) {
		probe(t, root)
		compare(t, root)
		done <- true
		select {} // the results are not for the test framework
	}}}, nil, nil)
	<-done
}

func compare(t *vk.T, root *testing.T) {
	rng := t.Rng("json")
	for i := 0; i < t.N(40000, 800000); i++ {
		isMust := rng.Intn(3) > 0
		doc := genDoc(rng, 3)
		actual := clone(doc)
		expected := interface{}(clone(doc))
		how := "equal"
		vars, bound := map[string]interface{}{}, map[string]bool{}
		if rng.Intn(2) == 0 {
			how = "placeholders"
			if isMust && rng.Intn(2) == 0 {
				// the keys of the document as values, for variables in keys
				if object, ok := expected.(map[string]interface{}); ok {
					for j, key := range keysOf(object) {
						name := fmt.Sprint("ref", j)
						object[name] = key
						vars[string(rune('a'+j))] = key
						bound[string(rune('a'+j))] = true
					}
					actual = clone(expected)
					for j := range bound {
						object[fmt.Sprint("ref", int(j[0]-'a'))] = variable(j)
					}
					hideKeys(rng, expected, vars, bound)
				}
			}
			expected = hide(rng, expected, isMust, vars, bound, false)
		}
		if rng.Intn(2) == 0 {
			how += " mutated"
			for j := rng.Intn(2); j >= 0; j-- {
				actual = mutate(rng, actual)
			}
		}
		want, clear := fits(expected, actual)
		if !clear || listed(expected, actual, isMust, want, false) {
			continue
		}
		expectedText := render(rng, expected, isMust)
		actualObj, form := actualOf(rng, actual, isMust)
		switch rng.Intn(40) {
		case 0:
			expectedText = broken[rng.Intn(len(broken))]
			want, how = false, "broken expectation"
		case 1:
			actualObj = broken[rng.Intn(len(broken))]
			want, how, form = false, "broken actual", "text"
		case 2:
			actualObj = []interface{}{func() {}, make(chan int), math.NaN(), failing{}, marshaled{"{"}}[rng.Intn(5)]
			want, how, form = false, "not marshalable", "value"
		case 3:
			p := person{Name: genText(rng), Extra: doc, inner: rng.Intn(3)}
			tree := map[string]interface{}{"name": p.Name, "extra": doc}
			if rng.Intn(2) == 0 {
				p.Tags = []string{genText(rng)}
				tree["tags"] = []interface{}{p.Tags[0]}
			}
			want, how, form = true, "struct", "value"
			if rng.Intn(2) == 0 {
				tree["name"] = p.Name + "."
				want = false
			}
			expected, actual = tree, nil
			expectedText = render(rng, tree, isMust)
			actualObj = &p
			if rng.Intn(2) == 0 {
				actualObj = p
			}
		}
		t.Begin(func() string {
			return fmt.Sprintf("must=%v %s expected %s actual %s", isMust, how, expectedText, shown(actualObj))
		})
		if _, isText := actualObj.(string); !isText && defect.marshal {
			if _, isBytes := actualObj.([]byte); !isBytes {
				continue
			}
		}
		before := shown(actualObj)
		passed, continued, recovered, site := attempt(root, isMust, expectedText, actualObj)
		what := fmt.Sprintf("must=%v %s, %s: expected %s actual %s", isMust, how, form, expectedText, before)
		switch {
		case recovered != nil:
			t.ViolateAsync("panic", "panic %v in %s: %s", recovered, site, what)
		case passed != want:
			t.ViolateAsync("verdict", "passed is %v instead of %v: %s", passed, want, what)
		case continued != (want || !isMust):
			t.ViolateAsync("continue", "the test went on: %v, passed %v: %s", continued, passed, what)
		case shown(actualObj) != before:
			t.ViolateAsync("changed", "the actual value is changed to %s: %s", shown(actualObj), what)
		}
		t.Eval(fmt.Sprint(isMust, how, form, want, len(bound)))
		t.Count(fmt.Sprintf("%s %s pass=%v", map[bool]string{true: "must", false: "should"}[isMust], how, want), 1)
		if i%3000 == 0 {
			t.Sample("comparison", what)
		}
	}
}

func shown(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	}
	return fmt.Sprintf("%#v", v)
}

func main() {
	vk.Main(vk.Check{
		ID:            "C35",
		Rule:          "Random JSON documents are compared with themselves rendered differently (order of members, white space, escapes, spelling of numbers) and with mutated copies, as text, bytes, raw message, plain value, structure or marshaler; in the expectation members are replaced by ANYTHING and by named placeholders, also as keys. Malformed documents and values that can not be marshaled are mixed in. Each assertion runs as a test of the test framework; verdict and whether the test went on are compared with an independent structural matcher.",
		Assumptions:   []string{"test.Helper, which panics with the installed versions of Go (finding listed under C34), is replaced by a repaired copy while this check is built", "numbers are compared with the precision of float64", "placeholders are claimed as values of members of objects (inside of lists only for must) and as keys for must"},
		MinNontrivial: 10,
		Run:           run,
	})
}
