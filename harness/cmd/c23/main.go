package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	jsonout "github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
)

var lines, hrfLines, jsonLines, printfLines = &hx.Lines{}, &hx.Lines{}, &hx.Lines{}, &hx.Lines{}

// everywhere writes the event in all formats
type everywhere struct {
	site     *spi.LogSite
	handlers []spi.EventHandler
}

func (e *everywhere) Handle(event *spi.Event) {
	for _, handler := range e.handlers {
		handler.Handle(event)
	}
}

func (e *everywhere) LogSite() *spi.LogSite { return e.site }

func init() {
	sinks := []spi.EventSink{
		output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: lines}),
		output.NewEventWriter(output.EventWriterConfig{Format: &hrf.Format{}, Writer: hrfLines}),
		output.NewEventWriter(output.EventWriterConfig{Format: &jsonout.JsonFormat{}, Writer: jsonLines}),
		output.NewEventWriter(output.EventWriterConfig{Format: &printf.Format{Layout: "{event}: {message}"}, Writer: printfLines}),
	}
	countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		all := &everywhere{site: site}
		for _, sink := range sinks {
			all.handlers = append(all.handlers, sink.HandlerOf(site))
		}
		return all
	})
	countlog.SetMinLevel(countlog.LevelTrace)
}

var serial int

// freshType makes a struct type nobody has seen before: the tag makes it distinct. The types of
// one round share parts.
func freshType(rng *rand.Rand, shared []reflect.Type) reflect.Type {
	serial++
	var fields []reflect.StructField
	n := 1 + rng.Intn(5)
	for i := 0; i < n; i++ {
		var typ reflect.Type
		if len(shared) > 0 && rng.Intn(2) == 0 {
			typ = shared[rng.Intn(len(shared))]
			switch rng.Intn(5) {
			case 0:
				typ = reflect.PtrTo(typ)
			case 1:
				typ = reflect.SliceOf(typ)
			case 2:
				typ = reflect.MapOf(hx.GenKeyType(rng), typ)
			case 3:
				typ = reflect.ArrayOf(1+rng.Intn(2), typ)
			}
		} else {
			typ = hx.GenType(rng, 2)
		}
		field := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: typ}
		if i == 0 {
			field.Tag = reflect.StructTag(fmt.Sprintf(`fresh:"%d"`, serial))
		}
		fields = append(fields, field)
	}
	return reflect.StructOf(fields)
}

// wrapped makes other types on top of the fresh one
func wrapped(rng *rand.Rand, typ reflect.Type) reflect.Type {
	switch rng.Intn(6) {
	case 0:
		return reflect.PtrTo(typ)
	case 1:
		return reflect.SliceOf(typ)
	case 2:
		return reflect.MapOf(hx.GenKeyType(rng), typ)
	case 3:
		return reflect.ArrayOf(2, reflect.PtrTo(typ))
	}
	return typ
}

type world struct {
	t        *vk.T
	round    int
	apis     []jsonfmt.API
	types    []reflect.Type
	values   []interface{}
	refl     []reflect2.API
	parts    [][]hx.Part
	kvs      [][]interface{}
	wants    []string
	events   []string
	shuffles []int
}

func (w *world) json(i int, which int, byObject bool) {
	v := w.values[i]
	api := w.apis[which]
	var encoder jsonfmt.Encoder
	if byObject {
		encoder = api.EncoderOfObject(v)
	} else {
		encoder = api.EncoderOf(reflect2.TypeOf(v))
	}
	text := encoder.Encode(context.Background(), nil, reflect2.PtrOf(v))
	if err := (&hx.Comparer{Unexported: which == 1}).Compare(text, v); err != nil {
		w.t.ViolateAsync("json", "first use of %T by many goroutines: %v: %.1000s", v, err, text)
	}
}

func (w *world) reflect(i int, which int) {
	v := w.values[i]
	rv := reflect.ValueOf(v)
	api := w.refl[which]
	typ := api.TypeOf(v)
	if typ.Type1() != rv.Type() || which != 1 && typ.RType() != reflect2.RTypeOf(v) || typ.Kind() != rv.Kind() {
		w.t.ViolateAsync("type", "descriptor of %T is one of %v", v, typ.Type1())
		return
	}
	again := api.Type2(rv.Type())
	if again.Type1() != rv.Type() {
		w.t.ViolateAsync("type", "descriptor of %T is one of %v", v, again.Type1())
	}
	if which == 1 {
		p := reflect.New(rv.Type())
		typ.Set(p.Interface(), addressOf(rv))
		if !reflect.DeepEqual(p.Elem().Interface(), v) && selfEqual(v) {
			w.t.ViolateAsync("set", "set of %T", v)
		}
		return
	}
	p := typ.New()
	typ.Set(p, addressOf(rv))
	if got := typ.Indirect(p); selfEqual(v) && !reflect.DeepEqual(got, v) {
		w.t.ViolateAsync("set", "value of %T set and read back is %v", v, got)
	}
	structType, isStruct := typ.(reflect2.StructType)
	if !isStruct {
		return
	}
	for f := 0; f < rv.NumField(); f++ {
		field := structType.Field(f)
		if field.Type().Type1() != rv.Type().Field(f).Type {
			w.t.ViolateAsync("field", "descriptor of field %d of %T is one of %v", f, v, field.Type().Type1())
			return
		}
		if !rv.Field(f).CanInterface() {
			continue
		}
		got := reflect.ValueOf(field.Get(p)).Elem().Interface()
		if want := rv.Field(f).Interface(); selfEqual(want) && !reflect.DeepEqual(got, want) {
			w.t.ViolateAsync("field", "field %d of %T is %v", f, v, got)
		}
	}
}

func selfEqual(v interface{}) bool { return reflect.DeepEqual(v, v) }

func addressOf(rv reflect.Value) interface{} {
	p := reflect.New(rv.Type())
	p.Elem().Set(rv)
	return p.Interface()
}

func (w *world) format(i int) {
	template := hx.PartsTemplate(w.parts[i])
	var got string
	if i%2 == 0 {
		got = msgfmt.Sprintf(template, w.kvs[i]...)
	} else {
		got = string(msgfmt.FormatterOf(template, w.kvs[i]).Format(nil, w.kvs[i]))
	}
	if got != w.wants[i] {
		w.t.ViolateAsync("format", "%q gives %q instead of %q", template, got, w.wants[i])
	}
}

func (w *world) pointers(i int) {
	typ := w.types[i]
	ptrType := reflect2.PtrTo(reflect2.Type2(typ))
	if ptrType.Type1() != reflect.PtrTo(typ) {
		w.t.ViolateAsync("type", "pointer to %v is %v", typ, ptrType.Type1())
		return
	}
	elem := ptrType.(reflect2.PtrType).Elem()
	if elem.Type1() != typ {
		w.t.ViolateAsync("type", "elem of pointer to %v is %v", typ, elem.Type1())
		return
	}
	p := elem.UnsafeNew()
	var got unsafe.Pointer
	if obj := elem.PackEFace(p); obj != nil {
		got = reflect2.PtrOf(obj)
	}
	if got != p {
		w.t.ViolateAsync("pack", "packed pointer to %v is another one", typ)
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C23",
		Rule:          "rounds with types (sharing parts, made at run time, so that nobody used them before), encoder configurations, type descriptor caches, templates and event names that are new; 2 to 24 goroutines use all of them for the first time at once, each in its own order, and then again. Oracles: race detector; json text walked along with the value; descriptors compared with reflect; text and log lines compared with the reference renderer; log lines in the other three formats checked for event and keys. Non trivial: distinct fresh types, templates and events that were used for the first time by several goroutines.",
		Assumptions:   []string{"of the interleavings only those the scheduler produces on this machine are seen; the race detector also reports races that did not go wrong this time"},
		MinNontrivial: 500,
		Run: func(t *vk.T) {
			rng := t.Rng("rounds")
			rounds := t.N(150, 6000)
			for round := 0; round < rounds && !t.Violated(); round++ {
				t.Begin(func() string { return fmt.Sprintf("round %d", round) })
				w := &world{t: t, round: round}
				w.apis = []jsonfmt.API{jsonfmt.ConfigDefault, jsonfmt.Config{IncludesUnexported: true}.Froze(), jsonfmt.Config{}.Froze()}
				w.refl = []reflect2.API{reflect2.Config{}.Froze(), reflect2.Config{UseSafeImplementation: true}.Froze(), reflect2.ConfigUnsafe}
				for i := 0; i < 4; i++ {
					w.types = append(w.types, freshType(rng, w.types))
				}
				for _, typ := range w.types {
					v := hx.GenOf(rng, wrapped(rng, typ), 5)
					w.values = append(w.values, v.Interface())
					t.Eval(v.Type().String())
				}
				w.values = append(w.values, hx.GenOf(rng, reflect.TypeOf(hx.Tree{}), 5).Interface(), hx.GenOf(rng, reflect.TypeOf(&hx.Nested{}), 5).Interface(),
					hx.GenOf(rng, reflect.MapOf(hx.GenKeyType(rng), hx.GenType(rng, 2)), 5).Interface())
				for i := 0; i < 3; i++ {
					names := []string{"a", "b", "c"}[:rng.Intn(4)]
					tag := fmt.Sprintf("r%d.%d ", round, i)
					parts := []hx.Part{{Text: tag, Literal: tag}}
					for _, part := range hx.GenParts(rng, names, map[string]bool{}, 5) {
						if part.Variable == "" && parts[len(parts)-1].Variable == "" {
							continue
						}
						parts = append(parts, part)
					}
					kv := []interface{}{"a", hx.GenValue(rng, rng.Intn(hx.Kinds), 1), "b", hx.GenValue(rng, rng.Intn(hx.Kinds), 1), "c", hx.GenValue(rng, rng.Intn(hx.Kinds), 1)}
					want, ok := hx.RefParts(parts, kv)
					if !ok {
						t.Fatal("template generator is wrong")
					}
					w.parts, w.kvs, w.wants = append(w.parts, parts), append(w.kvs, kv), append(w.wants, want)
					t.Eval(hx.PartsTemplate(parts))
					w.events = append(w.events, fmt.Sprintf("event!fresh %d.%d", round, i))
					t.Eval(w.events[i])
				}
				t.Sample("round", map[string]interface{}{"type": fmt.Sprintf("%.300s", w.types[3].String()), "template": hx.PartsTemplate(w.parts[0]), "event": w.events[0]})
				goroutines := 2 + rng.Intn(23)
				t.CountMax("most_goroutines", goroutines)
				for _, written := range []*hx.Lines{lines, hrfLines, jsonLines, printfLines} {
					written.Take()
				}
				var ready, done sync.WaitGroup
				start := make(chan bool)
				for g := 0; g < goroutines; g++ {
					own := rand.New(rand.NewSource(rng.Int63()))
					ready.Add(1)
					done.Add(1)
					go func() {
						defer done.Done()
						defer func() {
							if recovered := recover(); recovered != nil {
								buf := make([]byte, 8000)
								t.ViolateAsync("panic", "first use panicked: %v\n%s", recovered, buf[:runtime.Stack(buf, false)])
							}
						}()
						var jobs []func()
						for i := range w.values {
							i := i
							for which := range w.apis {
								which := which
								byObject := own.Intn(2) == 0
								jobs = append(jobs, func() { w.json(i, which, byObject) })
							}
							for which := range w.refl {
								which := which
								jobs = append(jobs, func() { w.reflect(i, which) })
							}
						}
						for i := range w.types {
							i := i
							jobs = append(jobs, func() { w.pointers(i) })
						}
						for i := range w.parts {
							i := i
							jobs = append(jobs, func() { w.format(i) })
							jobs = append(jobs, func() { countlog.Info(w.events[i], w.kvs[i]...) })
						}
						// some start with the same one, the others anywhere
						if own.Intn(3) != 0 {
							own.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
						}
						ready.Done()
						<-start
						for i, job := range jobs {
							job()
							if i%7 == 0 {
								runtime.Gosched()
							}
						}
						for n := 0; n < 10; n++ {
							jobs[own.Intn(len(jobs)-6)]()
						}
					}()
				}
				ready.Wait()
				close(start)
				done.Wait()
				t.Count("first_uses", goroutines*(len(w.values)*(len(w.apis)+len(w.refl))+len(w.types)+2*len(w.parts)))
				counted := map[string]int{}
				for _, line := range lines.Take() {
					_, _, body, ok := hx.SplitCompact(line)
					if !ok {
						t.Violate("line", "malformed line %q", line)
						continue
					}
					counted[body]++
				}
				for i, event := range w.events {
					body := hx.RefCompactBody(event[len("event!"):], nil, w.kvs[i])
					if counted[body] < goroutines {
						t.Violate("event", "event %s logged first by %d goroutines came out right %d times: %v", event, goroutines, counted[body], counted)
					}
					delete(counted, body)
				}
				if len(counted) > 0 {
					t.Violate("event", "lines nobody logged: %v", counted)
				}
				// the other formats
				byEvent := map[string]map[string]int{"json": {}, "printf": {}, "hrf": {}}
				for _, line := range jsonLines.Take() {
					fields := struct {
						Event   *string         `json:"event"`
						A, B, C json.RawMessage `json:",omitempty"`
					}{}
					if err := json.Unmarshal([]byte(line), &fields); err != nil || fields.Event == nil || fields.A == nil || fields.B == nil || fields.C == nil {
						t.Violate("event-json", "malformed line %q: %v", line, err)
						continue
					}
					byEvent["json"][*fields.Event]++
				}
				for _, line := range printfLines.Take() {
					byEvent["printf"][line]++
				}
				for _, line := range hrfLines.Take() {
					for i, event := range w.events {
						if strings.Contains(line, "fresh "+event[len("event!fresh "):]) {
							at := 0
							for _, key := range []string{"\na: ", "\nb: ", "\nc: "} {
								found := strings.Index(line[at:], key)
								if found < 0 {
									t.Violate("event-hrf", "%q misses %q of event %s with %v", line, key, event, w.kvs[i])
									break
								}
								at += found
							}
							byEvent["hrf"][event]++
						}
					}
				}
				for _, event := range w.events {
					for format, key := range map[string]string{"json": event, "printf": event + ": " + event + "\n", "hrf": event} {
						if n := byEvent[format][key]; n < goroutines {
							t.Violate("event-"+format, "event %s logged first by %d goroutines came out right %d times: %v", event, goroutines, n, byEvent[format])
						}
						t.Count("lines_"+format, byEvent[format][key])
						delete(byEvent[format], key)
					}
				}
				for format, left := range byEvent {
					if len(left) > 0 {
						t.Violate("event-"+format, "lines nobody logged: %v", left)
					}
				}
			}
		},
	})
}
