package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sync"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/msgfmt"
)

type template struct {
	parts []hx.Part
	text  string
	names []string
}

var vocabulary = []string{"a", "b", "c", "user", "id", "at", "中"}

// args makes key value pairs with the names of template in any order, with more and with less
func args(rng *rand.Rand, tmpl *template) []interface{} {
	var kv []interface{}
	names := append([]string(nil), tmpl.names...)
	switch rng.Intn(6) {
	case 0: // one is missing
		if len(names) > 0 {
			names = names[:len(names)-1]
		}
	case 1, 2: // others in between
		for i := rng.Intn(3); i >= 0; i-- {
			names = append(names, vocabulary[rng.Intn(len(vocabulary))])
		}
	}
	if rng.Intn(8) == 0 {
		// a long list, of which only the end differs
		first := []interface{}{}
		for i := 0; i < 30; i++ {
			first = append(first, fmt.Sprintf("another argument %d", i), i)
		}
		kv = append(kv, first...)
	}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, name := range names {
		if rng.Intn(6) == 0 {
			kv = append(kv, name, hx.GenTime(rng))
		} else {
			kv = append(kv, name, hx.GenValue(rng, rng.Intn(hx.Kinds), 1))
		}
	}
	return kv
}

func genTemplate(rng *rand.Rand, id int) *template {
	var names []string
	times := map[string]bool{}
	for _, name := range vocabulary {
		if rng.Intn(3) == 0 {
			names = append(names, name)
			times[name] = rng.Intn(3) == 0
		}
	}
	parts := []hx.Part{{Text: fmt.Sprintf("t%d ", id), Literal: fmt.Sprintf("t%d ", id)}}
	for _, part := range hx.GenParts(rng, names, times, 6) {
		if part.Variable == "" && parts[len(parts)-1].Variable == "" {
			continue
		}
		parts = append(parts, part)
	}
	return &template{parts: parts, text: hx.PartsTemplate(parts), names: names}
}

// limited takes so many bytes and then fails
type limited struct {
	room int
	got  []byte
	err  error
}

func (w *limited) Write(buf []byte) (int, error) {
	n := len(buf)
	if n > w.room {
		n = w.room
	}
	w.got = append(w.got, buf[:n]...)
	w.room -= n
	if n < len(buf) {
		return n, w.err
	}
	return n, nil
}

// results: what is returned is what the writer returned
func (j *job) results(t *vk.T, rng *rand.Rand) {
	want := j.want
	if !j.ok {
		return
	}
	call := rng.Intn(3)
	values := []interface{}{}
	switch call {
	case 1:
		values = append(values, hx.GenValue(rng, 0, 1))
		want = msgfmt.Sprintf("{v}\n", "v", values[0])
	case 2:
		want = "\n"
	}
	w := &limited{room: rng.Intn(len(want) + 3), err: fmt.Errorf("no room %d", rng.Intn(100))}
	full := w.room >= len(want)
	var n int
	var err error
	switch call {
	case 0:
		n, err = msgfmt.Fprintf(w, j.tmpl.text, j.kv...)
	default:
		n, err = msgfmt.Fprintln(w, values...)
	}
	switch {
	case n != len(w.got):
		t.Violate("count", "%q: %d is returned for %d bytes the writer took of %d", want, n, len(w.got), len(want))
	case full && err != nil, !full && err != w.err:
		t.Violate("error", "%q: the error %v is returned, the writer took %d of %d bytes and had the error %v", want, err, n, len(want), w.err)
	case string(w.got) != want[:n]:
		t.Violate("written", "the writer got %q of %q", w.got, want)
	}
	t.Count("results of writers", 1)
}

type job struct {
	tmpl *template
	kv   []interface{}
	want string
	ok   bool
}

func (j *job) run(t *vk.T, how int, history string) {
	var got string
	switch how {
	case 0:
		var buf bytes.Buffer
		msgfmt.Fprintf(&buf, j.tmpl.text, j.kv...)
		got = buf.String()
	case 1:
		got = string(msgfmt.FormatterOf(j.tmpl.text, j.kv).Format(nil, j.kv))
	default:
		got = msgfmt.Sprintf(j.tmpl.text, j.kv...)
	}
	if j.ok {
		if got != j.want {
			t.ViolateAsync("text", "%q with %s, %s, gives\n%q instead of\n%q", j.tmpl.text, types(j.kv), history, got, j.want)
		}
		return
	}
	if !bytes.HasPrefix([]byte(got), []byte("%! (INVALID FORMAT)")) {
		t.ViolateAsync("invalid", "%q with %s, %s, gives %q although something is missing", j.tmpl.text, types(j.kv), history, got)
	}
}

func types(kv []interface{}) string {
	out := ""
	for i := 0; i+1 < len(kv); i += 2 {
		out += fmt.Sprintf("%v:%T ", kv[i], kv[i+1])
	}
	return out
}

func main() {
	vk.Main(vk.Check{
		ID:            "C18",
		Rule:          "a few hundred templates, each formatted again and again with other keys, key orders and value types (also with missing names and dozens of others), in sequence and by up to 16 goroutines at once, also for the first time, and into writers that take only a part and fail, whose results must be returned. Oracle: independent renderer applied to this template and these pairs alone; race detector. Non trivial: distinct pairs of template and shape (keys with types).",
		Assumptions:   []string{"maps in the values have at most one entry, floats are exact with six decimal places"},
		MinNontrivial: 500,
		Run: func(t *vk.T) {
			rng := t.Rng("histories")
			rounds := t.N(50, 3000)
			id := 0
			for round := 0; round < rounds && !t.Violated(); round++ {
				t.Begin(func() string { return fmt.Sprintf("round %d", round) })
				var templates []*template
				for i := 0; i < 6; i++ {
					templates = append(templates, genTemplate(rng, id))
					id++
				}
				var jobs []*job
				for i := 0; i < 600; i++ {
					tmpl := templates[rng.Intn(len(templates))]
					j := &job{tmpl: tmpl, kv: args(rng, tmpl)}
					j.want, j.ok = hx.RefParts(tmpl.parts, j.kv)
					jobs = append(jobs, j)
					t.Eval(tmpl.text + types(j.kv))
					if j.ok {
						t.Count("complete", 1)
					} else {
						t.Count("incomplete", 1)
					}
				}
				t.Sample("history", map[string]string{"template": templates[0].text, "first": types(jobs[0].kv)})
				if round%2 == 0 {
					for i, j := range jobs {
						j.run(t, rng.Intn(3), fmt.Sprintf("as number %d of round %d", i, round))
						if i%4 == 0 {
							j.results(t, rng)
						}
					}
				}
				// the same again, many at once
				workers := 2 + rng.Intn(15)
				var wg sync.WaitGroup
				start := make(chan bool)
				for w := 0; w < workers; w++ {
					own := rand.New(rand.NewSource(rng.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for _, i := range own.Perm(len(jobs))[:len(jobs)/2] {
							jobs[i].run(t, own.Intn(3), "concurrently")
							if own.Intn(50) == 0 {
								runtime.Gosched()
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				t.Count("concurrent_calls", workers*len(jobs)/2)
				t.Tick()
			}
		},
	})
}
