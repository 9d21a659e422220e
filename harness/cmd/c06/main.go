package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
)

type call func(ctx *countlog.Context, event string, err error, props ...interface{}) error

var calls = map[string]call{
	"TraceCall": func(c *countlog.Context, e string, err error, p ...interface{}) error {
		return countlog.TraceCall(e, err, p...)
	},
	"DebugCall": func(c *countlog.Context, e string, err error, p ...interface{}) error {
		return countlog.DebugCall(e, err, p...)
	},
	"InfoCall": func(c *countlog.Context, e string, err error, p ...interface{}) error {
		return countlog.InfoCall(e, err, p...)
	},
	"ctx.TraceCall": func(c *countlog.Context, e string, err error, p ...interface{}) error {
		return c.TraceCall(e, err, p...)
	},
	"ctx.DebugCall": func(c *countlog.Context, e string, err error, p ...interface{}) error {
		return c.DebugCall(e, err, p...)
	},
	"ctx.InfoCall": func(c *countlog.Context, e string, err error, p ...interface{}) error {
		return c.InfoCall(e, err, p...)
	},
	"ctx.LogAccess": func(c *countlog.Context, e string, err error, p ...interface{}) error {
		return c.LogAccess(e, err, p...)
	},
}

var callNames = []string{"TraceCall", "DebugCall", "InfoCall", "ctx.TraceCall", "ctx.DebugCall", "ctx.InfoCall", "ctx.LogAccess"}

// templates are shared between the calls, with keys k0..k3
var templates = [][]hx.Piece{
	{{Literal: "event!plain"}},
	{{Literal: "callee!some.func"}},
	{{Literal: "failed to open "}, {Variable: "k0"}},
	{{Variable: "k1"}, {Literal: ": no such "}, {Variable: "k0"}},
	{{Variable: "k0"}},
	{{Literal: "x="}, {Variable: "k0"}, {Literal: ",y="}, {Variable: "k1"}, {Literal: ",again="}, {Variable: "k0"}},
	{{Literal: "100% sure about "}, {Variable: "k2"}, {Literal: " 中文 "}, {Variable: "k3"}, {Literal: "!"}},
	{{Literal: ""}},
	{{Literal: "no variables at all"}},
}

type codeError struct{ code int }

func (e *codeError) Error() string { return fmt.Sprintf("code %d {k0}", e.code) }

func makeErr(rng *rand.Rand) error {
	switch rng.Intn(6) {
	case 0:
		return nil
	case 1:
		return errors.New("")
	case 2:
		return &codeError{rng.Intn(100)}
	case 3:
		return fmt.Errorf("wrapped: %w", errors.New(hx.GenString(rng, 5)))
	default:
		return errors.New(hx.GenString(rng, 30))
	}
}

func makeProps(rng *rand.Rand) []interface{} {
	keys := []string{"k0", "k1", "k2", "k3", "id"}
	rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	props := []interface{}{}
	for _, key := range keys {
		props = append(props, key, hx.GenValue(rng, rng.Intn(hx.Kinds), 1))
	}
	if rng.Intn(4) == 0 {
		props = append(props, "k0", "second value of the same key")
	}
	return props
}

func one(t *vk.T, rng *rand.Rand, ctx *countlog.Context, who string, min int, prefix string) {
	pieces := templates[rng.Intn(len(templates))]
	if prefix != "" && rng.Intn(2) == 0 {
		pieces = append(append([]hx.Piece{}, pieces...), hx.Piece{Literal: prefix})
	}
	event := hx.Template(pieces)
	props := makeProps(rng)
	err := makeErr(rng)
	name := callNames[rng.Intn(len(callNames))]
	describe := func() string {
		return fmt.Sprintf("%s %s(%q, %v, %q) at minimum level %d", who, name, event, err, fmt.Sprintf("%v", props), min)
	}
	if who == "sequential" {
		t.Begin(describe)
	}
	result := calls[name](ctx, event, err, props...)
	if err == nil {
		if result != nil {
			t.ViolateAsync("not-nil", "%s: returned %v for a call that did not fail", describe(), result)
		}
		t.Eval(fmt.Sprint(name, "nil", event, min))
		t.Count("nil_results", 1)
		return
	}
	if result == nil {
		t.ViolateAsync("lost-error", "%s: returned nil for a failed call", describe())
		return
	}
	text, _ := hx.RefMessage(pieces, props)
	want := text + ": " + err.Error()
	if result.Error() != want {
		t.ViolateAsync("error-text", "%s: returned error reads\n %q instead of\n %q", describe(), result.Error(), want)
	}
	t.Eval(fmt.Sprint(name, event, min, fmt.Sprintf("%T%T%T", props[1], props[3], props[5])))
	t.Count("error_results", 1)
	t.Sample(name, map[string]string{"event": event, "returned": result.Error()})
}

func main() {
	vk.Main(vk.Check{
		ID:            "C06",
		Rule:          "seeded sequences of all call functions (package and context) with shared templates, properties of 34 kinds of values in any order, errors of any text and none, minimum levels -5..70, in four output formats, with and without collector; then from 16 goroutines at once. Oracle: reference message and error text. Non trivial: distinct (function, template, minimum level, value types).",
		Assumptions:   []string{"templates only name properties that are given"},
		MinNontrivial: 500,
		Run: func(t *vk.T) {
			rng := t.Rng("seq")
			formats := []output.Format{&hrf.Format{}, &compact.Format{}, &json.JsonFormat{}, &printf.Format{Layout: "[{level}] {message}"}}
			ctx := countlog.Ctx(context.Background())
			ctx.Add("k0", "of context")
			for phase := 0; phase < 6 && !t.Violated(); phase++ {
				lines := &hx.Lines{}
				countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: formats[phase%4], Writer: lines})
				if phase == 4 {
					countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
						Collector: discard{}, Executor: func(f func(ctx context.Context)) {}})
				}
				if phase == 5 {
					countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
						return spi.FuncEventHandler(func(event *spi.Event) { panic("broken sink") })
					})
				}
				prefix := fmt.Sprintf(" (%d)", phase)
				for i := 0; i < t.N(1500, 40000); i++ {
					min := rng.Intn(36) - 5
					if rng.Intn(4) == 0 {
						min = 31 + rng.Intn(40)
					}
					countlog.SetMinLevel(min)
					one(t, rng, ctx, "sequential", min, prefix)
					lines.Take()
					if i%16 == 0 && t.Violated() {
						return
					}
				}
				countlog.SetMinLevel(30)
				var wg sync.WaitGroup
				for g := 0; g < 16; g++ {
					own := t.Rng(fmt.Sprintf("conc%d-%d", phase, g))
					wg.Add(1)
					go func() {
						defer wg.Done()
						ownCtx := countlog.Ctx(context.Background())
						for i := 0; i < t.N(60, 2000) && !t.Violated(); i++ {
							one(t, own, ownCtx, "concurrent", 30, prefix+" conc")
						}
					}()
				}
				wg.Wait()
			}
		},
	})
}

type discard struct{}

func (discard) Collect(point *stats.Point) {}
