package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/spi"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var locationLine = regexp.MustCompile(`\nlocation: [^\n]*\n$`)

type ctxKey string

const depthKey = ctxKey("depth")

func depth(ctx context.Context) int {
	n, _ := ctx.Value(depthKey).(int)
	return n
}

// model is what the log context must hold
type model struct {
	ctx     *countlog.Context
	parent  context.Context
	derived []context.Context
	props   []interface{}
	label   string
	most    int // properties and values
}

func newModel(rng *rand.Rand, label string, around context.Context) (*model, context.CancelFunc, time.Time) {
	base := context.WithValue(around, ctxKey("label"), label)
	base = context.WithValue(base, 42, "answer "+label)
	cancel := context.CancelFunc(func() {})
	deadline := time.Time{}
	switch rng.Intn(3) {
	case 0:
		base, cancel = context.WithCancel(base)
	case 1:
		deadline = time.Now().Add(time.Hour + time.Duration(rng.Intn(1000000)))
		base, cancel = context.WithDeadline(base, deadline)
	}
	return &model{ctx: countlog.Ctx(base), parent: base, label: label, most: []int{12, 12, 12, 70}[rng.Intn(4)]}, cancel, deadline
}

var keys = []string{"user", "session", "req id", "k0", "", "名", "user"}
var events = []string{"event!login", "did {what}", "callee!x.Y", "event!logout", "{what} and {n}", "no vars"}

var failures = []error{errors.New("it failed"), io.EOF, errors.New(""), fmt.Errorf("a {what} of %d\nlines", 2), &os.PathError{Op: "open", Path: "nowhere", Err: os.ErrNotExist}}

func pieces(event string) []hx.Piece {
	switch event {
	case "did {what}":
		return []hx.Piece{{Literal: "did "}, {Variable: "what"}}
	case "{what} and {n}":
		return []hx.Piece{{Variable: "what"}, {Literal: " and "}, {Variable: "n"}}
	}
	return []hx.Piece{{Literal: event}}
}

func (m *model) add(rng *rand.Rand) {
	key, value := keys[rng.Intn(len(keys))], hx.GenValue(rng, rng.Intn(hx.Kinds), 1)
	if len(m.derived) > 0 && rng.Intn(2) == 0 {
		spi.AddLogContext(m.derived[rng.Intn(len(m.derived))], key, value)
	} else {
		m.ctx.Add(key, value)
	}
	m.props = append(m.props, key, value)
}

// log emits one event and returns the line it should give
func (m *model) log(rng *rand.Rand, event string, props []interface{}) string {
	ctxProps := m.props
	level := ""
	var err error
	if rng.Intn(2) == 0 {
		err = failures[rng.Intn(len(failures))]
	}
	call := func(name string, write func(string, error, ...interface{}) error, success, failure string) {
		level = success
		if err != nil {
			level = failure
		}
		// a call that failed gives an error that tells about it
		if got := write(event, err, props...); (got == nil) != (err == nil) || err != nil && !strings.Contains(got.Error(), err.Error()) {
			level = fmt.Sprintf("error of %s is not returned but %v", name, got)
		}
	}
	called := true
	switch rng.Intn(16) {
	case 8:
		call("TraceCall", m.ctx.TraceCall, "TRACE", "WARN")
	case 9:
		call("DebugCall", m.ctx.DebugCall, "DEBUG", "WARN")
	case 10:
		call("InfoCall", m.ctx.InfoCall, "INFO", "WARN")
	case 11, 12:
		call("LogAccess", m.ctx.LogAccess, "INFO", "ERROR")
	case 13:
		call("package TraceCall", countlog.TraceCall, "TRACE", "WARN")
		ctxProps = nil
	case 14:
		call("package DebugCall", countlog.DebugCall, "DEBUG", "WARN")
		ctxProps = nil
	case 15:
		call("package InfoCall", countlog.InfoCall, "INFO", "WARN")
		ctxProps = nil
	default:
		called = false
	}
	choice := -1
	if !called {
		choice, err = rng.Intn(8), nil
	}
	switch choice {
	case -1:
	case 0:
		m.ctx.Trace(event, props...)
		level = "TRACE"
	case 1:
		m.ctx.Debug(event, props...)
		level = "DEBUG"
	case 2:
		m.ctx.Info(event, props...)
		level = "INFO"
	case 3:
		m.ctx.Warn(event, props...)
		level = "WARN"
	case 4:
		m.ctx.Error(event, props...)
		level = "ERROR"
	case 5:
		m.ctx.Fatal(event, props...)
		level = "FATAL"
	case 6:
		m.ctx.InfoCall(event, nil, props...)
		level = "INFO"
	default:
		countlog.Info(event, props...)
		ctxProps = nil
		level = "INFO"
	}
	text, _ := hx.RefEventText(event, pieces(event), props, "")
	want := "[" + level + "] " + text
	if err != nil && err.Error() != "" {
		want += "\nerror: " + err.Error()
	}
	for _, list := range [][]interface{}{ctxProps, props} {
		for i := 0; i < len(list); i += 2 {
			want += fmt.Sprintf("\n%s: %s", list[i], hx.RefText(list[i+1]))
		}
	}
	return want + "\n"
}

func normalize(line string) string {
	line = ansi.ReplaceAllString(line, "")
	if at := locationLine.FindStringIndex(line); at != nil {
		line = line[:at[0]] + "\n"
	}
	return line
}

func genProps(rng *rand.Rand, id string) []interface{} {
	props := []interface{}{"what", id, "n", rng.Intn(100)}
	if rng.Intn(3) == 0 {
		props = []interface{}{"n", hx.GenValue(rng, rng.Intn(hx.Kinds), 1), "what", id}
	}
	if rng.Intn(3) == 0 {
		// the name may be that of a property of the context
		props = append(props, keys[rng.Intn(len(keys))], hx.GenValue(rng, rng.Intn(hx.Kinds), 1))
	}
	return props
}

func checkWrapping(t *vk.T, rng *rand.Rand, label string) {
	m, cancel, deadline := newModel(rng, label, context.Background())
	defer cancel()
	fail := func(what string, args ...interface{}) {
		t.Violate("wrapping", "context %s: "+what, append([]interface{}{label}, args...)...)
	}
	if m.ctx.Value(ctxKey("label")) != label || m.ctx.Value(42) != "answer "+label || m.ctx.Value("missing") != nil {
		fail("values are not kept")
	}
	got, ok := m.ctx.Deadline()
	want, wantOk := m.parent.Deadline()
	if ok != wantOk || !got.Equal(want) || !deadline.Equal(want) {
		fail("deadline %v %v instead of %v %v", got, ok, want, wantOk)
	}
	if countlog.Ctx(m.ctx) != m.ctx {
		fail("wrapping twice gives another context")
	}
	m.add(rng)
	again := countlog.Ctx(m.ctx)
	again.Add("again", label)
	m.props = append(m.props, "again", label)
	own := spi.GetLogContext(m.ctx)
	if own == nil || len(own.Properties) != len(m.props) {
		fail("log context does not hold what was added")
	}
	derived := context.WithValue(m.ctx, ctxKey("deep"), 1)
	derived, cancelDerived := context.WithTimeout(derived, time.Hour)
	defer cancelDerived()
	derived = context.WithValue(derived, ctxKey("deeper"), 2)
	if spi.GetLogContext(derived) != own {
		fail("derived context does not find the log context")
	}
	if derived.Value(ctxKey("label")) != label {
		fail("derived context does not find the values")
	}
	if spi.GetLogContext(m.parent) != nil || spi.GetLogContext(context.Background()) != nil {
		fail("context without log context has one")
	}
	other := countlog.Ctx(m.parent)
	if lc := spi.GetLogContext(other); lc == nil || len(lc.Properties) != 0 {
		fail("wrapping the same parent again shares the properties")
	}
	// a log context inside of this one has its own properties
	inner := countlog.Ctx(derived)
	inner.Add("inner", label)
	if lc := spi.GetLogContext(inner); lc == nil || len(lc.Properties) != 2 || lc.Properties[0] != "inner" || len(own.Properties) != len(m.props) {
		fail("log context around a derived context does not hold what was added to it")
	}
	if m.ctx.Err() != nil || derived.Err() != nil {
		fail("cancelled from the start")
	}
	cancel()
	if m.parent.Err() != nil {
		if m.ctx.Err() != m.parent.Err() {
			fail("cancellation is not kept: %v", m.ctx.Err())
		}
		select {
		case <-m.ctx.Done():
		case <-time.After(20 * time.Second):
			fail("cancellation is not signaled")
		}
		select {
		case <-derived.Done():
		case <-time.After(20 * time.Second):
			fail("cancellation does not reach the derived context")
		}
	}
	t.Eval("wrap" + label)
	t.Count("wrappings", 1)
}

func main() {
	vk.Main(vk.Check{
		ID:            "C33",
		Rule:          "seeded interleavings of creating, deriving, adding to (directly and through derived contexts) and logging through 6 live log contexts (also inside of each other, also of dozens of properties) and none, with every function there is and calls that failed, with shared event names and changing value types, in the human readable format; the same from 12 goroutines each with own contexts; wrapping checked against the parent context. Non trivial: distinct (event, context property types, number) seen.",
		Assumptions:   []string{"one log context is used by one goroutine at a time"},
		MinNontrivial: 500,
		Run: func(t *vk.T) {
			countlog.SetMinLevel(0)
			lines := &hx.Lines{}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &hrf.Format{}, Writer: lines})
			rng := t.Rng("history")
			var models []*model
			for i := 0; i < t.N(7000, 120000); i++ {
				if len(models) < 6 || rng.Intn(60) == 0 {
					around := context.Background()
					if len(models) > 0 && rng.Intn(2) == 0 {
						// inside of another log context, which is no business of the events of this one
						around = models[rng.Intn(len(models))].ctx
						if depth(around) > 4 {
							around = context.Background()
						}
					}
					m, _, _ := newModel(rng, fmt.Sprint(i), context.WithValue(around, depthKey, depth(around)+1))
					if len(models) < 6 {
						models = append(models, m)
					} else {
						models[rng.Intn(6)] = m
					}
					if m.most > 12 && rng.Intn(2) == 0 {
						for len(m.props) < 50 {
							m.add(rng)
						}
					}
				}
				m := models[rng.Intn(len(models))]
				switch rng.Intn(6) {
				case 0:
					if len(m.props) < m.most {
						m.add(rng)
					}
				case 1:
					if len(m.derived) < 3 {
						m.derived = append(m.derived, context.WithValue(m.ctx, ctxKey("d"), i))
					}
				}
				event := events[rng.Intn(len(events))]
				props := genProps(rng, fmt.Sprint("id", i))
				t.Begin(func() string {
					return fmt.Sprintf("step %d event %q context %s holding %#v", i, event, m.label, m.props)
				})
				want := m.log(rng, event, props)
				got := lines.Take()
				if len(got) != 1 || normalize(got[0]) != want {
					t.Violate("line", "step %d: wrote %q instead of %q", i, got, want)
				}
				shape := ""
				for j := 0; j < len(m.props); j += 2 {
					shape += fmt.Sprintf("%v:%T;", m.props[j], m.props[j+1])
				}
				t.Eval(event + shape)
				t.CountMax("max_properties_of_context", len(m.props)/2)
				t.Sample("line", map[string]string{"line": normalize(got[0])})
			}
			for i := 0; i < t.N(200, 2000); i++ {
				checkWrapping(t, rng, fmt.Sprint("w", i))
			}
			for round := 0; round < t.N(6, 60) && !t.Violated(); round++ {
				t.Begin(func() string { return fmt.Sprintf("concurrent round %d", round) })
				want := make([]map[string]string, 12)
				var wg sync.WaitGroup
				for g := 0; g < 12; g++ {
					g := g
					own := t.Rng(fmt.Sprintf("conc%d-%d", round, g))
					want[g] = map[string]string{}
					wg.Add(1)
					go func() {
						defer wg.Done()
						m, _, _ := newModel(own, fmt.Sprint("g", g), context.Background())
						if g%3 == 0 {
							m.add(own)
							m, _, _ = newModel(own, fmt.Sprint("inner", g), m.ctx)
						}
						for i := 0; i < 60; i++ {
							if own.Intn(8) == 0 {
								m.add(own)
							}
							id := fmt.Sprintf("id%d_%d!", g, i)
							want[g][id] = m.log(own, events[own.Intn(len(events))], genProps(own, id))
						}
					}()
				}
				wg.Wait()
				all := map[string]string{}
				for _, part := range want {
					for id, line := range part {
						all[id] = line
					}
				}
				for _, line := range lines.Take() {
					line = normalize(line)
					at := strings.Index(line, "\nwhat: id")
					id := ""
					if at >= 0 {
						id = line[at+len("\nwhat: "):]
						id = id[:strings.Index(id, "!")+1]
					}
					if all[id] != line {
						t.Violate("concurrent-line", "wrote %q instead of %q", line, all[id])
					}
					delete(all, id)
					t.Eval("")
				}
				if len(all) > 0 {
					t.Violate("concurrent-lost", "%d events were not written", len(all))
				}
			}
		},
	})
}
