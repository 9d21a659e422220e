package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/stats"
)

// op is one of the log functions
type op struct {
	name  string
	level int  // -1: chosen by the caller
	call  bool // judged with the higher threshold, unless failed
	run   func(ctx *countlog.Context, event string, err error, level int, props ...interface{})
}

var ops = []op{
	{"Trace", 10, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { countlog.Trace(e, p...) }},
	{"Debug", 20, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { countlog.Debug(e, p...) }},
	{"Info", 30, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { countlog.Info(e, p...) }},
	{"Warn", 40, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { countlog.Warn(e, p...) }},
	{"Error", 50, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { countlog.Error(e, p...) }},
	{"Fatal", 60, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { countlog.Fatal(e, p...) }},
	{"Log", -1, false, func(c *countlog.Context, e string, _ error, l int, p ...interface{}) { countlog.Log(l, e, p...) }},
	{"TraceCall", 10, true, func(c *countlog.Context, e string, err error, _ int, p ...interface{}) {
		countlog.TraceCall(e, err, p...)
	}},
	{"DebugCall", 20, true, func(c *countlog.Context, e string, err error, _ int, p ...interface{}) {
		countlog.DebugCall(e, err, p...)
	}},
	{"InfoCall", 30, true, func(c *countlog.Context, e string, err error, _ int, p ...interface{}) {
		countlog.InfoCall(e, err, p...)
	}},
	{"ctx.Trace", 10, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { c.Trace(e, p...) }},
	{"ctx.Debug", 20, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { c.Debug(e, p...) }},
	{"ctx.Info", 30, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { c.Info(e, p...) }},
	{"ctx.Warn", 40, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { c.Warn(e, p...) }},
	{"ctx.Error", 50, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { c.Error(e, p...) }},
	{"ctx.Fatal", 60, false, func(c *countlog.Context, e string, _ error, _ int, p ...interface{}) { c.Fatal(e, p...) }},
	{"ctx.TraceCall", 10, true, func(c *countlog.Context, e string, err error, _ int, p ...interface{}) { c.TraceCall(e, err, p...) }},
	{"ctx.DebugCall", 20, true, func(c *countlog.Context, e string, err error, _ int, p ...interface{}) { c.DebugCall(e, err, p...) }},
	{"ctx.InfoCall", 30, true, func(c *countlog.Context, e string, err error, _ int, p ...interface{}) { c.InfoCall(e, err, p...) }},
	{"ctx.LogAccess", 30, true, func(c *countlog.Context, e string, err error, _ int, p ...interface{}) { c.LogAccess(e, err, p...) }},
}

// expected is the rule under test
func expected(o op, level int, failed bool, aggregated bool, min int) bool {
	if o.call && failed {
		return true
	}
	if level >= 40 && o.level != -1 {
		return true
	}
	if o.call || aggregated {
		return level >= min+5
	}
	return level >= min
}

var minLevels = []int{-7, 0, 1, 5, 9, 10, 11, 14, 15, 16, 19, 20, 21, 24, 25, 26, 29, 30}
var logLevels = []int{-8, 0, 1, 4, 5, 6, 9, 10, 11, 14, 15, 16, 19, 20, 21, 25, 29, 30, 31, 34, 35, 36, 40, 45, 50, 60, 99}

var suppressLevels = []int{0, 9, 10, 11, 19, 20, 21, 29, 30, 31, 35, 40, 41, 60, 99}

type collector struct{}

func (collector) Collect(point *stats.Point) {}

func sequence(t *vk.T, phase string, steps int, lines *hx.Lines, min int) {
	rng := t.Rng("seq" + phase)
	contexts := []*countlog.Context{
		countlog.Ctx(context.Background()),
		countlog.Ctx(context.WithValue(context.Background(), "a", 1)),
	}
	contexts[1].Add("user", 7)
	// the levels of these are suppressed, which the others and the package functions do not care about
	contexts = append(contexts, countlog.Ctx(context.WithValue(context.Background(), "b", 1)), countlog.Ctx(context.Background()))
	suppressed := []int{0, 0, 0, 0}
	lines.Take()
	events := 12
	for i := 0; i < steps; i++ {
		if rng.Intn(6) == 0 {
			min = minLevels[rng.Intn(len(minLevels))]
			countlog.SetMinLevel(min)
		}
		which := rng.Intn(5) // the last one is no context at all
		if which < 4 && which > 1 && rng.Intn(6) == 0 {
			suppressed[which] = suppressLevels[rng.Intn(len(suppressLevels))]
			contexts[which].SuppressLevelsBelow(suppressed[which])
		}
		o := ops[rng.Intn(len(ops))]
		level := o.level
		if level == -1 {
			level = logLevels[rng.Intn(len(logLevels))]
		}
		var ctx *countlog.Context
		suppress := 0
		if which < 4 {
			ctx = contexts[which]
			if strings.HasPrefix(o.name, "ctx.") {
				suppress = suppressed[which]
			}
		}
		var err error
		if rng.Intn(3) == 0 {
			err = errors.New("failed")
		}
		event := fmt.Sprintf("event!%s%d", phase, rng.Intn(events))
		if rng.Intn(8) == 0 {
			event = fmt.Sprintf("event!%s fresh %d", phase, i)
		}
		props := []interface{}{"id", i}
		switch rng.Intn(4) {
		case 0:
			props = append(props, "extra", "x")
		case 1:
			props = []interface{}{"other", 1.5, "id", i}
		}
		aggregated := rng.Intn(12) == 0
		if aggregated {
			props = append(props, "agg", "counter")
			event += " counted"
		}
		want := expected(o, level, err != nil, aggregated, min)
		if o.call && err == nil && level < suppress {
			// not specified
			suppress = 0
			ctx = contexts[0]
			which = 0
		}
		if !o.call && level < 40 && level < suppress {
			want = false
			t.Count("suppressed", 1)
		}
		describe := func() string {
			return fmt.Sprintf("%s step %d: %s of context %d level %d event %q failed %v props %v, minimum level %d, suppressed below %d", phase, i, o.name, which, level, event, err != nil, props, min, suppress)
		}
		t.Begin(describe)
		o.run(ctx, event, err, level, props...)
		got := lines.Take()
		n := 0
		for _, line := range got {
			if strings.Contains(line, fmt.Sprintf("id=%d|", i)) || strings.Contains(line, fmt.Sprintf("id=%d\n", i)) || strings.Contains(line, fmt.Sprintf("\nid: %d\x1b", i)) {
				n++
			}
		}
		if n != len(got) {
			t.Violate("foreign-line", "%s: written lines do not belong to this event: %q", describe(), got)
		}
		if want && n != 1 {
			t.Violate("not-once", "%s: written %d times instead of once", describe(), n)
		}
		if !want && n != 0 {
			t.Violate("below-threshold", "%s: written %d times although below the threshold", describe(), n)
		}
		if countlog.ShouldLog(level) != (level >= min) {
			t.Violate("should-log", "ShouldLog(%d) at %d", level, min)
		}
		t.Eval(fmt.Sprintf("%s/%d/%v/%v/%d/%d", o.name, level, err != nil, aggregated, min, suppress))
		t.Sample(phase+fmt.Sprint(want), map[string]interface{}{"op": o.name, "level": level, "min": min, "failed": err != nil, "aggregated": aggregated, "written": n})
		t.Count(fmt.Sprintf("expected_written_%v", want), 1)
	}
}

func concurrentRound(t *vk.T, seed int64, round int, lines *hx.Lines) {
	rng := t.Rng(fmt.Sprintf("conc%d", round))
	min := minLevels[rng.Intn(len(minLevels))]
	countlog.SetMinLevel(min)
	lines.Take()
	const goroutines = 12
	const each = 60
	want := make([]map[int]bool, goroutines)
	var wg sync.WaitGroup
	for g := 0; g < goroutines; g++ {
		g := g
		own := t.Rng(fmt.Sprintf("conc%d-%d", round, g))
		want[g] = map[int]bool{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx := countlog.Ctx(context.Background())
			for i := 0; i < each; i++ {
				o := ops[own.Intn(len(ops))]
				level := o.level
				if level == -1 {
					level = logLevels[own.Intn(len(logLevels))]
				}
				var err error
				if own.Intn(3) == 0 {
					err = errors.New("failed")
				}
				id := g*100000 + i
				want[g][id] = expected(o, level, err != nil, false, min)
				o.run(ctx, fmt.Sprintf("event!conc %d %d", round, own.Intn(3)), err, level, "id", id, "end", true)
			}
		}()
	}
	wg.Wait()
	seen := map[int]int{}
	for _, line := range lines.Take() {
		var id int
		at := strings.Index(line, "id=")
		if at < 0 {
			t.Violate("foreign-line", "unexpected line %q", line)
			continue
		}
		fmt.Sscanf(line[at:], "id=%d|", &id)
		seen[id]++
	}
	for g := range want {
		for id, w := range want[g] {
			n := seen[id]
			if w && n != 1 || !w && n != 0 {
				t.Violate("concurrent-threshold", "round %d minimum level %d: event %d written %d times, expected to be written: %v", round, min, id, n, w)
			}
			t.Eval("")
		}
	}
	t.Count("concurrent_rounds", 1)
}

func main() {
	vk.Main(vk.Check{
		ID:   "C05",
		Rule: "seeded sequences of log calls (every package function and context method, failed and successful, aggregated or not, repeated and fresh event names, changing properties) interleaved with SetMinLevel(-7..30) and SuppressLevelsBelow of some of the contexts, in three set ups (as the program starts, compact output, with stats collector), then the same from 12 goroutines. Oracle: threshold rule on (function, level, failed, aggregated, minimum level, suppressed level). Non trivial: distinct tuples of that kind.",
		Assumptions: []string{
			"minimum level up to Info, and not changed concurrently with log calls",
			"whether successful calls are suppressed is not specified",
		},
		MinNontrivial: 500,
		Run: func(t *vk.T) {
			lines := &hx.Lines{}
			// before anybody called SetMinLevel
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &hrf.Format{}, Writer: lines})
			sequence(t, "hrf", t.N(3000, 60000), lines, 10)
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: lines})
			countlog.SetMinLevel(10)
			sequence(t, "compact", t.N(9000, 200000), lines, 10)
			for round := 0; round < t.N(15, 300); round++ {
				t.Begin(func() string { return fmt.Sprintf("concurrent round %d", round) })
				concurrentRound(t, t.Seed(), round, lines)
			}
			countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: collector{},
				Executor: func(f func(ctx context.Context)) {}})
			countlog.SetMinLevel(10)
			sequence(t, "stats", t.N(4000, 60000), lines, 10)
		},
	})
}
