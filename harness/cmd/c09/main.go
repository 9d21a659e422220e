package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	jsonout "github.com/v2pro/plz/countlog/output/json"
)

type member struct {
	key   string
	value json.RawMessage
}

// parseLine reads the members of the object in order
func parseLine(line string) ([]member, error) {
	if !strings.HasSuffix(line, "\n") || strings.Count(line, "\n") != 1 {
		return nil, fmt.Errorf("not one line")
	}
	if !json.Valid([]byte(line)) {
		return nil, fmt.Errorf("not valid json")
	}
	if !utf8.ValidString(line) {
		return nil, fmt.Errorf("not valid utf-8")
	}
	decoder := json.NewDecoder(strings.NewReader(line))
	tok, err := decoder.Token()
	if err != nil || tok != json.Delim('{') {
		return nil, fmt.Errorf("not an object")
	}
	var members []member
	for decoder.More() {
		tok, err := decoder.Token()
		if err != nil {
			return nil, err
		}
		m := member{key: tok.(string)}
		if err := decoder.Decode(&m.value); err != nil {
			return nil, err
		}
		members = append(members, m)
	}
	return members, nil
}

func decode(text []byte) (interface{}, error) {
	decoder := json.NewDecoder(bytes.NewReader(text))
	decoder.UseNumber()
	var out interface{}
	err := decoder.Decode(&out)
	return out, err
}

func same(value interface{}, got json.RawMessage) bool {
	want, err := decode([]byte(hx.RefJSON(value)))
	if err != nil {
		panic("reference is not valid: " + err.Error())
	}
	decoded, err := decode(got)
	return err == nil && reflect.DeepEqual(want, decoded)
}

// here is the location of the line before
func here() string {
	pc, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s @ %s:%d", runtime.FuncForPC(pc).Name(), file, line-1)
}

//go:noinline
func siteInfo(ctx *countlog.Context, event string, props []interface{}) string {
	countlog.Info(event, props...)
	return here()
}

//go:noinline
func siteTrace(ctx *countlog.Context, event string, props []interface{}) string {
	countlog.Trace(event, props...)
	return here()
}

//go:noinline
func siteCtxWarn(ctx *countlog.Context, event string, props []interface{}) string {
	ctx.Warn(event, props...)
	return here()
}

//go:noinline
func siteError(ctx *countlog.Context, event string, props []interface{}) string {
	countlog.Error(event, props...)
	return here()
}

//go:noinline
func siteCall(ctx *countlog.Context, event string, props []interface{}) string {
	countlog.InfoCall(event, nil, props...)
	return here()
}

//go:noinline
func siteFailedCall(ctx *countlog.Context, event string, props []interface{}) string {
	ctx.DebugCall(event, fmt.Errorf("failed"), props...)
	return here()
}

//go:noinline
func siteLog(ctx *countlog.Context, event string, props []interface{}) string {
	countlog.Log(33, event, props...)
	return here()
}

//go:noinline
func siteNested(ctx *countlog.Context, event string, props []interface{}) string {
	where := ""
	func() {
		countlog.Fatal(event, props...)
		where = here()
	}()
	return where
}

var sites = []func(ctx *countlog.Context, event string, props []interface{}) string{
	siteInfo, siteTrace, siteCtxWarn, siteError, siteCall, siteFailedCall, siteLog, siteNested,
}

var names = []string{"event!plain", "callee!f", "with {k0}", `quote " here`, `back\slash`, "new\nline", "tab\t\x01", "中文😀", "", "{", "</script>", "a,b:c", "\u2028"}
var keys = []string{"k0", "k1", "k2", `q"k`, `b\k`, "n\nk", "中", "", "a b", "event", "timestamp", "location", "\x01", "k0"}

func genName(rng *rand.Rand) string {
	if rng.Intn(3) == 0 {
		return hx.GenString(rng, 12)
	}
	return names[rng.Intn(len(names))]
}

func genProps(rng *rand.Rand) []interface{} {
	props := []interface{}{}
	for i := rng.Intn(6); i > 0; i-- {
		key := keys[rng.Intn(len(keys))]
		if rng.Intn(4) == 0 {
			key = hx.GenString(rng, 8)
		}
		if key == "agg" || key == "dim" {
			continue
		}
		props = append(props, key, hx.GenValue(rng, rng.Intn(hx.Kinds), 2))
	}
	return props
}

func judge(t *vk.T, line string, event string, props []interface{}, before, after time.Time, location string, describe func() string) {
	members, err := parseLine(line)
	if err != nil {
		t.Violate("invalid", "%s: %v: %q", describe(), err, line)
		return
	}
	if len(members) != 3+len(props)/2 {
		t.Violate("members", "%s: %d members instead of %d: %q", describe(), len(members), 3+len(props)/2, line)
		return
	}
	if members[0].key != "event" || !same(event, members[0].value) {
		t.Violate("event", "%s: event is %s=%s", describe(), members[0].key, members[0].value)
	}
	for i := 0; i < len(props); i += 2 {
		m := members[1+i/2]
		if m.key != props[i].(string) || !same(props[i+1], m.value) {
			t.Violate("property", "%s: property %q=%s is written as %q:%s", describe(), props[i], hx.RefJSON(props[i+1]), m.key, m.value)
		}
	}
	ts, where := members[len(members)-2], members[len(members)-1]
	var nanos int64
	if err := json.Unmarshal(ts.value, &nanos); err != nil || ts.key != "timestamp" || nanos < before.UnixNano() || nanos > after.UnixNano() {
		t.Violate("timestamp", "%s: %s is %s, expected between %d and %d", describe(), ts.key, ts.value, before.UnixNano(), after.UnixNano())
	}
	var text string
	if err := json.Unmarshal(where.value, &text); err != nil || where.key != "location" || location != "" && text != location || !strings.Contains(text, "/main.go:") {
		t.Violate("location", "%s: %s is %q instead of %q", describe(), where.key, text, location)
	}
}

// panicky panics some times before it writes
type panicky struct {
	*hx.Lines
	left int
}

func (p *panicky) Write(buf []byte) (int, error) {
	if p.left > 0 {
		p.left--
		panic("writer")
	}
	return p.Lines.Write(buf)
}

func main() {
	vk.Main(vk.Check{
		ID:            "C09",
		Rule:          "seeded events with names and keys of any characters (quotes, control characters, empty, duplicated, the reserved member names), values of 34 kinds nested up to two levels, from eight call sites; half of the events have a name logged before with other keys and types. Every written line is parsed with encoding/json and compared with a reference. The same from 12 goroutines, and after the writer has panicked while writing the event. Non trivial: distinct (event, keys, value types).",
		Assumptions:   []string{"floats are exact in six decimal places and maps have at most one entry (order of maps is free)", "the location is judged for the first call under an event name, and for every call under a name of which an event made the writer panic"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			countlog.SetMinLevel(0)
			lines := &hx.Lines{}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &jsonout.JsonFormat{}, Writer: lines})
			ctx := countlog.Ctx(context.Background())
			rng := t.Rng("seq")
			known := map[string]bool{}
			for i := 0; i < t.N(12000, 200000); i++ {
				event := genName(rng)
				if rng.Intn(2) == 0 {
					event += fmt.Sprintf(" %d", i)
				}
				props := genProps(rng)
				site := rng.Intn(len(sites))
				describe := func() string { return fmt.Sprintf("step %d event %q props %#v", i, event, props) }
				t.Begin(describe)
				before := time.Now()
				location := sites[site](ctx, event, props)
				after := time.Now()
				if known[event] {
					location = ""
				} else {
					t.Count("locations_compared", 1)
				}
				known[event] = true
				got := lines.Take()
				if len(got) != 1 {
					t.Violate("not-once", "%s: written %d times", describe(), len(got))
					continue
				}
				judge(t, got[0], event, props, before, after, location, describe)
				shape := ""
				for j := 0; j < len(props); j += 2 {
					shape += fmt.Sprintf("%v:%T;", props[j], props[j+1])
				}
				t.Eval(event + shape)
				t.Sample("line", got[0])
			}
			// after a panic every call is written with its own location
			own := t.Rng("redirect")
			trouble := &panicky{Lines: lines}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &jsonout.JsonFormat{}, Writer: trouble})
			for round := 0; round < t.N(300, 5000) && !t.Violated(); round++ {
				event := fmt.Sprintf("event!redirected %d", round)
				for i := own.Intn(2); i > 0; i-- {
					sites[own.Intn(len(sites))](ctx, event, genProps(own))
				}
				trouble.left = 1
				sites[own.Intn(len(sites))](ctx, event, genProps(own))
				trouble.left = 0
				lines.Take()
				for i := 0; i < 12; i++ {
					props := genProps(own)
					describe := func() string { return fmt.Sprintf("after a panic of the writer event %q props %#v", event, props) }
					t.Begin(describe)
					before := time.Now()
					location := sites[own.Intn(len(sites))](ctx, event, props)
					after := time.Now()
					got := lines.Take()
					if len(got) != 1 {
						t.Violate("not-once", "%s: written %d times", describe(), len(got))
						continue
					}
					judge(t, got[0], event, props, before, after, location, describe)
					t.Count("locations_after_panic_compared", 1)
				}
			}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &jsonout.JsonFormat{}, Writer: lines})
			for round := 0; round < t.N(5, 50) && !t.Violated(); round++ {
				t.Begin(func() string { return fmt.Sprintf("concurrent round %d", round) })
				type entry struct {
					event string
					props []interface{}
				}
				entries := make([]map[int]entry, 12)
				before := time.Now()
				var wg sync.WaitGroup
				for g := range entries {
					g := g
					own := t.Rng(fmt.Sprintf("conc%d-%d", round, g))
					entries[g] = map[int]entry{}
					wg.Add(1)
					go func() {
						defer wg.Done()
						ownCtx := countlog.Ctx(context.Background())
						for i := 0; i < 60; i++ {
							id := g*1000 + i
							props := append([]interface{}{"id", id}, genProps(own)...)
							event := genName(own) + fmt.Sprint(" round ", round, own.Intn(3))
							entries[g][id] = entry{event, props}
							sites[own.Intn(len(sites))](ownCtx, event, props)
						}
					}()
				}
				wg.Wait()
				after := time.Now()
				all := map[int]entry{}
				for _, part := range entries {
					for id, e := range part {
						all[id] = e
					}
				}
				for _, line := range lines.Take() {
					members, err := parseLine(line)
					if err != nil || len(members) < 2 || members[1].key != "id" {
						t.Violate("invalid", "concurrent: %v: %q", err, line)
						continue
					}
					id := 0
					json.Unmarshal(members[1].value, &id)
					e, found := all[id]
					if !found {
						t.Violate("duplicate", "event %d written twice or never logged: %q", id, line)
						continue
					}
					delete(all, id)
					judge(t, line, e.event, e.props, before, after, "", func() string { return fmt.Sprintf("concurrent event %d", id) })
					t.Eval("")
				}
				if len(all) > 0 {
					t.Violate("lost", "%d events were not written", len(all))
				}
			}
		},
	})
}
