package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/msgfmt"
)

type hidden struct {
	m    map[string]interface{}
	Name string
}

type cyclicPtr struct {
	Next *cyclicPtr
	N    int
}

type odd struct {
	C chan int
	F func()
	P unsafe.Pointer
	X complex128
	I interface{}
	u uint8
}

func hostile(rng *rand.Rand) interface{} {
	switch rng.Intn(16) {
	case 0:
		h := hidden{map[string]interface{}{}, "n"}
		h.m["self"] = h
		return h
	case 1:
		c := &cyclicPtr{}
		c.Next = c
		return c
	case 2:
		m := map[string]interface{}{}
		m["self"] = m
		return m
	case 3:
		s := make([]interface{}, 1)
		s[0] = s
		return s
	case 4:
		return make(chan int)
	case 5:
		return func() {}
	case 6:
		return unsafe.Pointer(&struct{ a int }{1})
	case 7:
		return complex(1, 2)
	case 8:
		return odd{C: make(chan int), F: func() {}, I: make(chan int)}
	case 9:
		var p *odd
		return p
	case 10:
		var e *hx.Coded
		return e
	case 11:
		return errors.New("\x00\xff")
	case 12:
		return [0]int{}
	case 13:
		return struct{}{}
	case 14:
		return map[interface{}]interface{}{1: "a", "b": nil}
	default:
		return io.EOF
	}
}

func arg(rng *rand.Rand) interface{} {
	if rng.Intn(3) == 0 {
		return hostile(rng)
	}
	return hx.GenValue(rng, rng.Intn(hx.Kinds), 2)
}

var tokens = []string{"{", "{", "{", "}", "}", "}", ",", ",", "a", "b", "key", "goTime", "select", "plural", "goTim", " ", "\t", "\n", "中", "\xff", "\xe4\xb8", "\x00",
	"2006-01-02", "%", "\\", "'", "-", ".", "{a}", "{b}", "{key}", "{a, goTime}", "{ a , goTime, 2006}", "\u2028", "\u00a0", "$", "+", "|", "\""}

func genTemplate(rng *rand.Rand) string {
	var out strings.Builder
	n := rng.Intn(12)
	if rng.Intn(300) == 0 {
		n = 3000
	}
	for i := 0; i < n; i++ {
		if rng.Intn(20) == 0 {
			out.WriteString(string(rune(rng.Intn(0x2fff))))
		} else if rng.Intn(40) == 0 {
			// the same again and again
			piece := tokens[rng.Intn(len(tokens))] + tokens[rng.Intn(len(tokens))][:rng.Intn(2)]
			out.WriteString(strings.Repeat(piece, 1+rng.Intn(1+rng.Intn(70))))
			if rng.Intn(2) == 0 {
				out.WriteString("}")
			}
		} else if rng.Intn(40) == 0 {
			// a function with any number of arguments
			out.WriteString("{" + tokens[8+rng.Intn(3)] + ", " + tokens[11+rng.Intn(4)])
			for k := rng.Intn(30); k > 0; k-- {
				out.WriteString("," + tokens[9+rng.Intn(20)][:rng.Intn(2)])
			}
			out.WriteString("}")
		} else {
			out.WriteString(tokens[rng.Intn(len(tokens))])
		}
	}
	return out.String()
}

func genArgs(rng *rand.Rand) []interface{} {
	var kv []interface{}
	for i := rng.Intn(5); i > 0; i-- {
		switch rng.Intn(10) {
		case 0:
			kv = append(kv, arg(rng), arg(rng)) // any key
		case 1:
			kv = append(kv, nil, arg(rng))
		case 2:
			kv = append(kv, hx.GenString(rng, 5), arg(rng))
		case 3:
			kv = append(kv, []string{"a", "b", "key"}[rng.Intn(3)], hx.GenTime(rng))
		default:
			kv = append(kv, []string{"a", "b", "key", "中"}[rng.Intn(4)], arg(rng))
		}
	}
	if rng.Intn(4) == 0 {
		kv = append(kv, []interface{}{"a", "b", nil, 1}[rng.Intn(4)])
	}
	return kv
}

func idRune(r rune) bool {
	return r == '_' || (r != utf8.RuneError && (unicode.IsLetter(r) || unicode.IsDigit(r)))
}

// classify tells for sure that the template must be reported (bad), that it must be rendered
// (good, with the parts), or that it is left open
func classify(template string, kv []interface{}) (verdict string, parts []hx.Part) {
	rest := template
	for rest != "" {
		open := strings.IndexByte(rest, '{')
		if open < 0 {
			parts = append(parts, hx.Part{Literal: rest})
			return "good", parts
		}
		if open > 0 {
			parts = append(parts, hx.Part{Literal: rest[:open]})
		}
		rest = rest[open+1:]
		end := strings.IndexByte(rest, '}')
		if end < 0 {
			return "bad", nil // never closed
		}
		inside := strings.Trim(rest[:end], " \t")
		rest = rest[end+1:]
		if inside == "" || strings.IndexFunc(inside, func(r rune) bool { return !idRune(r) }) >= 0 {
			// what follows an odd one depends on where it is found to be odd
			if strings.Contains(inside, ",") && !strings.Contains(inside, "goTime") && strings.IndexFunc(inside, func(r rune) bool { return !idRune(r) && r != ',' }) < 0 {
				return "bad", nil // no such function
			}
			return "open", nil
		}
		parts = append(parts, hx.Part{Variable: inside})
		found := false
		for i := 0; i+1 < len(kv); i += 2 {
			if name, isStr := kv[i].(string); isStr && name == inside {
				found = true
			}
		}
		if !found {
			return "bad", nil // name not given
		}
	}
	return "good", parts
}

func main() {
	vk.Main(vk.Check{
		ID:            "C19",
		Rule:          "seeded templates put together from braces, commas, names, functions, broken UTF-8 and control characters, with argument lists of any length, any keys (not only strings) and any values (also ones containing themselves, channels, functions, nil pointers). Oracle: no panic, no crash, no stall; templates an independent reader finds incomplete or naming what is not given are reported in the text, the ones it finds well formed are not reported and (where the values have a defined text) come out exactly. Non trivial: distinct templates with a brace.",
		Assumptions:   []string{"methods of the values themselves do not panic"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			rng := t.Rng("templates")
			n := t.N(60000, 4000000)
			for i := 0; i < n; i++ {
				template := genTemplate(rng)
				kv := genArgs(rng)
				t.Begin(func() string { return fmt.Sprintf("%q with %s", template, types(kv)) })
				verdict, parts := classify(template, kv)
				var got string
				var w strings.Builder
				recovered, stack := vk.Protect(func() {
					switch i % 4 {
					case 0:
						msgfmt.Fprintf(&w, template, kv...)
						got = w.String()
					default:
						got = msgfmt.Sprintf(template, kv...)
					}
					if i%5 == 0 {
						msgfmt.Fprintln(io.Discard, kv...)
					}
				})
				key := ""
				if strings.ContainsAny(template, "{}") {
					key = template
				}
				t.Eval(key)
				t.Count("templates_"+verdict, 1)
				if recovered != nil {
					t.Violate("panic", "%q with %s panicked: %v\n%s", template, types(kv), recovered, stack)
					continue
				}
				reported := strings.Contains(got, "INVALID FORMAT")
				switch verdict {
				case "bad":
					if !reported {
						t.Violate("silent", "%q with %s is not reported: %q", template, types(kv), got)
					}
					t.Sample("bad", map[string]string{"template": template, "text": clip(got)})
				case "good":
					if reported {
						t.Violate("rejected", "%q with %s is reported: %q", template, types(kv), got)
						continue
					}
					want, ok := "", false
					undefined, _ := vk.Protect(func() {
						for j, v := range kv {
							if j%2 == 1 && !defined(v) {
								panic("no reference for this")
							}
						}
						want, ok = hx.RefParts(parts, kv)
					})
					if undefined == nil && ok {
						t.Count("texts_compared", 1)
						if got != want {
							t.Violate("text", "%q with %s gives %q instead of %q", template, types(kv), got, want)
						}
					}
				}
				if i%5000 == 0 {
					runtime.GC()
				}
			}
		},
	})
}

// defined tells if the reference knows how to render the value
func defined(v interface{}) bool {
	switch v.(type) {
	case hidden, *cyclicPtr, chan int, func(), unsafe.Pointer, complex128, odd, *odd, *hx.Coded, map[interface{}]interface{}:
		return false
	case map[string]interface{}, []interface{}, *hx.Nested, hx.Nested:
		return false
	}
	return true
}

func types(kv []interface{}) string {
	out := ""
	for i, v := range kv {
		if s, isStr := v.(string); isStr && i%2 == 0 {
			out += fmt.Sprintf("%q ", s)
		} else {
			out += fmt.Sprintf("%T ", v)
		}
	}
	return out
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
