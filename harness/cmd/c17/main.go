package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strings"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/msgfmt"
)

// counting writer that might fail
type writer struct {
	bytes.Buffer
	writes int
	fail   error
	short  int
}

func (w *writer) Write(p []byte) (int, error) {
	w.writes++
	if w.fail != nil {
		w.Buffer.Write(p[:w.short])
		return w.short, w.fail
	}
	return w.Buffer.Write(p)
}

// captured runs f with standard output going to a file
func captured(t *vk.T, file *os.File, f func() (int, error)) (string, int, error) {
	if err := file.Truncate(0); err != nil {
		t.Fatal(err.Error())
	}
	if _, err := file.Seek(0, io.SeekStart); err != nil {
		t.Fatal(err.Error())
	}
	stdout := os.Stdout
	os.Stdout = file
	n, err := f()
	os.Stdout = stdout
	data, readErr := os.ReadFile(file.Name())
	if readErr != nil {
		t.Fatal(readErr.Error())
	}
	return string(data), n, err
}

func genArgs(rng *rand.Rand) (kv []interface{}, names []string, times map[string]bool) {
	times = map[string]bool{}
	seen := map[string]bool{}
	for i := rng.Intn(6); i > 0; i-- {
		name := hx.GenID(rng)
		var value interface{}
		isTime := rng.Intn(5) == 0
		if isTime {
			value = hx.GenTime(rng)
		} else {
			value = hx.GenValue(rng, rng.Intn(hx.Kinds), 3)
		}
		if !seen[name] {
			names = append(names, name)
			times[name] = isTime
			seen[name] = true
		}
		kv = append(kv, name, value)
	}
	return kv, names, times
}

func main() {
	vk.Main(vk.Check{
		ID:            "C17",
		Rule:          "seeded templates of literal text (any bytes but the left curly) and variables, spelled with and without spaces and time layouts, with values of 35 kinds nested up to three levels, printed by all functions of the package, also into failing writers. Oracle: independent renderer. Non trivial: distinct templates with at least one variable.",
		Assumptions:   []string{"maps in the values have at most one entry, floats are exact with six decimal places"},
		MinNontrivial: 500,
		Run: func(t *vk.T) {
			rng := t.Rng("templates")
			file, err := os.Create(t.Scratch("out") + "/stdout")
			if err != nil {
				t.Fatal(err.Error())
			}
			n := t.N(25000, 1500000)
			for i := 0; i < n; i++ {
				kv, names, times := genArgs(rng)
				parts := hx.GenParts(rng, names, times, 8)
				if rng.Intn(200) == 0 {
					for len(parts) > 0 && len(parts) < 500 {
						parts = append(parts, parts[rng.Intn(len(parts))])
					}
				}
				template := hx.PartsTemplate(parts)
				// adjacent literals can become something else
				want, ok := hx.RefParts(parts, kv)
				if !ok {
					t.Fatal("generator made a template that is not well formed")
				}
				t.Begin(func() string { return fmt.Sprintf("%q %#v", template, kv) })
				got := msgfmt.Sprintf(template, kv...)
				key := ""
				if strings.Contains(template, "{") {
					key = template
				}
				t.Eval(key)
				if got != want {
					t.Violate("sprintf", "Sprintf(%q, %s) gives\n%q instead of\n%q", template, show(kv), got, want)
				}
				for _, name := range names {
					t.Count(fmt.Sprintf("type_%T", lookup(kv, name)), 1)
				}
				t.Sample("message", map[string]string{"template": template, "text": clip(want)})
				// into a writer
				w := &writer{}
				if count, err := msgfmt.Fprintf(w, template, kv...); err != nil || count != len(want) || w.String() != want {
					t.Violate("fprintf", "Fprintf(%q, %s) gives %q, %d, %v instead of\n%q", template, show(kv), w.String(), count, err, want)
				}
				if rng.Intn(4) == 0 && len(want) > 0 {
					w := &writer{fail: errors.New("writer is broken"), short: rng.Intn(len(want))}
					if count, err := msgfmt.Fprintf(w, template, kv...); err != w.fail || count != w.short {
						t.Violate("fprintf-error", "Fprintf(%q, %s) into failing writer returned %d, %v instead of %d, %v", template, show(kv), count, err, w.short, w.fail)
					}
					t.Count("failing_writers", 1)
				}
				// appended to what is there already
				prefix := []byte(hx.GenString(rng, 20))
				if got := msgfmt.FormatterOf(template, kv).Format(append([]byte(nil), prefix...), kv); string(got) != string(prefix)+want {
					t.Violate("append", "Format(%q, %s) appended to %q gives %q", template, show(kv), prefix, got)
				}
				if rng.Intn(3) == 0 {
					out, count, err := captured(t, file, func() (int, error) { return msgfmt.Printf(template, kv...) })
					if err != nil || count != len(want) || out != want {
						t.Violate("printf", "Printf(%q, %s) gives %q, %d, %v instead of\n%q", template, show(kv), out, count, err, want)
					}
					t.Count("standard_output", 1)
				}
				if rng.Intn(3) == 0 {
					values := []interface{}{}
					for j := 1; j < len(kv); j += 2 {
						values = append(values, kv[j])
					}
					var line string
					switch len(values) {
					case 0:
						line = "\n"
					case 1:
						line = hx.RefText(values[0]) + "\n"
					default:
						line = hx.RefJSON(values) + "\n"
					}
					w := &writer{}
					if count, err := msgfmt.Fprintln(w, values...); err != nil || count != len(line) || w.String() != line {
						t.Violate("fprintln", "Fprintln(%s) gives %q, %d, %v instead of\n%q", show(values), w.String(), count, err, line)
					}
					out, count, err := captured(t, file, func() (int, error) { return msgfmt.Println(values...) })
					if err != nil || count != len(line) || out != line {
						t.Violate("println", "Println(%s) gives %q, %d, %v instead of\n%q", show(values), out, count, err, line)
					}
					t.Count("lines", 1)
				}
				if i%2000 == 0 {
					runtime.GC()
				}
			}
		},
	})
}

func lookup(kv []interface{}, name string) interface{} {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == name {
			return kv[i+1]
		}
	}
	return nil
}

func show(kv []interface{}) string {
	out := ""
	for _, v := range kv {
		out += fmt.Sprintf("%T:", v)
		recovered, _ := vk.Protect(func() { out += hx.RefJSON(v) + " " })
		if recovered != nil {
			out += "? "
		}
	}
	return clip(out)
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}
