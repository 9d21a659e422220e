package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"sync"
	"time"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
)

const layoutA = "[{level}] {timestamp, goTime, 2006-01-02T15:04:05.000} <{event}> {message}"
const layoutB = "{message}"
const layoutC = "{func} in {file} at {line}: {level} {message}!"

var formats = []output.Format{
	&hrf.Format{},
	&hrf.Format{ShowTimestamp: true},
	&compact.Format{},
	&printf.Format{Layout: layoutA},
	&printf.Format{Layout: layoutB},
	&printf.Format{Layout: layoutC},
}

// bench is one fan out of an event to all formats
type bench struct {
	lines []*hx.Lines
	mutex sync.Mutex
	times []time.Time
}

func newBench() *bench {
	b := &bench{}
	var sinks []spi.EventSink
	for _, format := range formats {
		lines := &hx.Lines{}
		b.lines = append(b.lines, lines)
		sinks = append(sinks, output.NewEventWriter(output.EventWriterConfig{Format: format, Writer: lines}))
	}
	countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		handlers := spi.EventHandlers{}
		for _, sink := range sinks {
			handlers = append(handlers, sink.HandlerOf(site))
		}
		return append(handlers, spi.FuncEventHandler(func(event *spi.Event) {
			b.mutex.Lock()
			b.times = append(b.times, event.Timestamp)
			b.mutex.Unlock()
		}))
	})
	return b
}

func (b *bench) take(t *vk.T, describe func() string) ([]string, time.Time) {
	out := make([]string, len(b.lines))
	for i, lines := range b.lines {
		got := lines.Take()
		if len(got) != 1 {
			t.Violate("not-once", "%s: format %d wrote %d times: %q", describe(), i, len(got), got)
			got = append(got, "")
		}
		out[i] = got[0]
	}
	at := time.Time{}
	if len(b.times) > 0 {
		at = b.times[0]
	}
	b.times = nil
	return out, at
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var location = regexp.MustCompile(`\nlocation: main\.[^ \n]* @ [^\n]*/main\.go:\d+\n$`)
var placeOf = regexp.MustCompile(`^main\.[^ ]+ in [^ ]*/main\.go at \d+: `)

// call is what was logged
type call struct {
	level  int
	event  string
	pieces []hx.Piece
	err    error
	props  []interface{}
	ctx    []interface{}
}

func propText(format string, props []interface{}) string {
	var out strings.Builder
	for i := 0; i < len(props); i += 2 {
		fmt.Fprintf(&out, format, props[i], hx.RefText(props[i+1]))
	}
	return out.String()
}

func judge(t *vk.T, c call, lines []string, at, before, after time.Time, describe func() string) {
	// human readable
	for i := 0; i < 2; i++ {
		line := ansi.ReplaceAllString(lines[i], "")
		text, complete := hx.RefEventText(c.event, c.pieces, c.props, "")
		head := ""
		if name := hx.LevelNames[c.level]; name != "" {
			head = "[" + name + "] "
		}
		tail := ""
		if i == 1 {
			tail += "\ntimestamp: " + at.Format("15:04:05.000")
		}
		if c.err != nil && c.err.Error() != "" {
			tail += "\nerror: " + c.err.Error()
		}
		tail += propText("\n%s: %s", c.ctx)
		for j := 0; j < len(c.props); j += 2 {
			start, isInt64 := c.props[j+1].(int64)
			if isInt64 && c.props[j] == "timer" {
				tail += "\ntimer: " + time.Duration(at.UnixNano()-start).String()
				t.Count("timers", 1)
				continue
			}
			tail += propText("\n%s: %s", c.props[j:j+2])
		}
		if c.level >= 40 {
			loc := location.FindStringIndex(line)
			if loc == nil {
				t.Violate("hrf-location", "%s: no location in %q", describe(), line)
				continue
			}
			line = line[:loc[0]] + "\n"
		}
		tail += "\n"
		if complete && line != head+text+tail || !strings.HasPrefix(line, head) || !strings.HasSuffix(line, tail) {
			t.Violate("hrf", "%s: human readable line is\n %q instead of\n %q", describe(), line, head+text+tail)
		}
	}
	// compact
	level, timestamp, body, ok := hx.SplitCompact(lines[2])
	text, complete := hx.RefEventText(c.event, c.pieces, c.props, "call ")
	want := hx.RefCompactBody(text, c.err, c.props)
	wantLevel := hx.LevelNames[c.level]
	if wantLevel == "" {
		wantLevel = "UNKNOWN"
	}
	wantTail := hx.RefCompactBody("", c.err, c.props)
	if !ok || level != wantLevel || timestamp != at.Format(time.RFC3339) || complete && body != want || !strings.HasSuffix(body, wantTail) {
		t.Violate("compact", "%s: compact line is\n %q instead of\n [%s] [%s][..] %q", describe(), lines[2], wantLevel, at.Format(time.RFC3339), want)
	}
	if at.Before(before) || at.After(after) {
		t.Violate("timestamp", "%s: timestamp %v is not between %v and %v", describe(), at, before, after)
	}
	// custom layouts, names are not special there
	message, complete := hx.RefMessage(c.pieces, c.props)
	if complete {
		message = hx.RefBytes([]byte(message))
		wantA := fmt.Sprintf("[%s] %s <%s> %s\n", wantLevel, at.Format("2006-01-02T15:04:05.000"), c.event, message)
		if lines[3] != wantA {
			t.Violate("printf", "%s: custom layout line is\n %q instead of\n %q", describe(), lines[3], wantA)
		}
		if lines[4] != message+"\n" {
			t.Violate("printf", "%s: custom layout line is\n %q instead of\n %q", describe(), lines[4], message+"\n")
		}
		place := placeOf.FindStringIndex(lines[5])
		if place == nil || lines[5][place[1]:] != wantLevel+" "+message+"!\n" {
			t.Violate("printf", "%s: custom layout line is\n %q instead of\n <func> in <file> at <line>: %s %s!", describe(), lines[5], wantLevel, message)
		}
		t.Count("messages_compared_exactly", 1)
	}
}

var keys = []string{"k0", "k1", "k2", "k3", "名字", "a_b", "a b", "", "k{}", "}", "message", "event", "err", "level", "K0", "k-0", "k0 ", "%s", "x=y", "location", "goTime", "timer", "retry_timer", "timer2", "Timer", "timestamp", "error", "func", "file", "line", "dim", "dims", "agg", "aggregate", "event!x", "callee!", "\x1b"}

func usable(key string) bool {
	switch key {
	case "event!x", "callee!", "\x1b", "a b", "", "k{}", "}", "k-0", "k0 ", "%s", "x=y":
		return false
	}
	return true
}

var literals = []string{"", "x", " did ", ": ", "100%", "}", "中文", "\n", "\t", "event!", "\\", "\"q\"", "||a=b", "[x]", "e.g., "}

// names start with letters of the prefixes
var names = []string{"", "", "some.Func", "call", "elect", "event", "even", "tell", "!", "e", "callee!", "event!", "nil", "val", "中"}

func genPieces(rng *rand.Rand) []hx.Piece {
	switch rng.Intn(8) {
	case 0:
		return []hx.Piece{{Literal: "event!" + names[rng.Intn(len(names))] + literals[rng.Intn(len(literals))]}}
	case 1:
		return []hx.Piece{{Literal: "callee!" + names[rng.Intn(len(names))] + literals[rng.Intn(len(literals))]}}
	}
	pieces := []hx.Piece{}
	for i := rng.Intn(6) + 1; i > 0; i-- {
		if rng.Intn(2) == 0 {
			literal := literals[rng.Intn(len(literals))]
			if len(pieces) == 0 && literal == "event!" {
				literal = "E"
			}
			pieces = append(pieces, hx.Piece{Literal: literal})
		} else {
			key := keys[rng.Intn(len(keys))]
			if usable(key) {
				pieces = append(pieces, hx.Piece{Variable: key})
			}
		}
	}
	return pieces
}

func genProps(rng *rand.Rand, pieces []hx.Piece, max int) []interface{} {
	var names []string
	for _, piece := range pieces {
		if piece.Variable != "" && rng.Intn(40) > 0 {
			names = append(names, piece.Variable)
		}
	}
	for i := rng.Intn(max); i > 0; i-- {
		names = append(names, keys[rng.Intn(len(keys))])
	}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	props := []interface{}{}
	if rng.Intn(30) == 0 {
		// a long list, of which only the end differs
		for i := 0; i < 20+10*rng.Intn(2); i++ {
			props = append(props, fmt.Sprintf("another property %d", i), i)
		}
	}
	for _, name := range names {
		if strings.Contains(name, "imer") && rng.Intn(2) == 0 {
			props = append(props, name, time.Now().UnixNano()-rng.Int63n(1e12))
			continue
		}
		props = append(props, name, hx.GenValue(rng, rng.Intn(hx.Kinds), 1))
	}
	return props
}

func siteA(event string, props ...interface{}) { countlog.Info(event, props...) }
func siteB(event string, props ...interface{}) { countlog.Warn(event, props...) }

func emit(rng *rand.Rand, ctx *countlog.Context, c *call) {
	which := rng.Intn(18)
	if which >= 13 && rng.Intn(2) == 0 {
		c.err = errors.New(hx.GenString(rng, 10))
	}
	if which < 8 {
		c.ctx = nil
	}
	callLevel := func(level int) {
		c.level = level
		if c.err != nil {
			c.level = 40
		}
	}
	switch which {
	case 0:
		c.level = 10
		countlog.Trace(c.event, c.props...)
	case 1:
		c.level = 20
		countlog.Debug(c.event, c.props...)
	case 2:
		c.level = 30
		countlog.Info(c.event, c.props...)
	case 3:
		c.level = 30
		siteA(c.event, c.props...)
	case 4:
		c.level = 40
		siteB(c.event, c.props...)
	case 5:
		c.level = 50
		countlog.Error(c.event, c.props...)
	case 6:
		c.level = 60
		countlog.Fatal(c.event, c.props...)
	case 7:
		c.level = []int{5, 12, 15, 25, 33, 40, 55, 60, 70}[rng.Intn(9)]
		countlog.Log(c.level, c.event, c.props...)
	case 8:
		c.level = 10
		ctx.Trace(c.event, c.props...)
	case 9:
		c.level = 20
		ctx.Debug(c.event, c.props...)
	case 10:
		c.level = 30
		ctx.Info(c.event, c.props...)
	case 11:
		c.level = 40
		ctx.Warn(c.event, c.props...)
	case 12:
		c.level = 50
		ctx.Error(c.event, c.props...)
	case 13:
		c.ctx = nil
		callLevel(30)
		countlog.InfoCall(c.event, c.err, c.props...)
	case 14:
		callLevel(20)
		ctx.DebugCall(c.event, c.err, c.props...)
	case 15:
		callLevel(30)
		if c.err != nil {
			c.level = 50
		}
		ctx.LogAccess(c.event, c.err, c.props...)
	case 16:
		c.ctx = nil
		callLevel(10)
		countlog.TraceCall(c.event, c.err, c.props...)
	default:
		callLevel(10)
		ctx.TraceCall(c.event, c.err, c.props...)
	}
}

type logCtx struct {
	ctx   *countlog.Context
	props []interface{}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C08",
		Rule:          "seeded histories of log calls over a pool of shared event names; every call picks new keys (also duplicated and unusual ones, and dozens of them), key order, count and value types (34 kinds), function, call site, error and log context, and is output in two human readable, the compact and three custom layouts at once. Oracle: reference line computed from this call alone. Non trivial: distinct (event, keys and value types, level).",
		Assumptions:   []string{"key timer with an int64 value stands for the time since then"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			countlog.SetMinLevel(0)
			rng := t.Rng("history")
			b := newBench()
			var pool [][]hx.Piece
			var contexts []*logCtx
			for i := 0; i < t.N(9000, 150000); i++ {
				if len(pool) < 40 || rng.Intn(60) == 0 {
					pool = append(pool, genPieces(rng))
				}
				if len(pool) > 80 {
					pool = pool[20:]
				}
				for len(contexts) < 4 || rng.Intn(50) == 0 {
					contexts = append(contexts, &logCtx{ctx: countlog.Ctx(context.Background())})
				}
				lc := contexts[len(contexts)-1-rng.Intn(4)]
				if rng.Intn(20) == 0 && len(lc.props) < 10 {
					key, value := keys[rng.Intn(len(keys))], hx.GenValue(rng, rng.Intn(hx.Kinds), 1)
					lc.ctx.Add(key, value)
					lc.props = append(lc.props, key, value)
				}
				pieces := pool[rng.Intn(len(pool))]
				c := call{event: hx.Template(pieces), pieces: pieces, props: genProps(rng, pieces, 4), ctx: lc.props}
				describe := func() string {
					return fmt.Sprintf("step %d: level %d event %q error %v props %s context %s", i, c.level, c.event, c.err, fmt.Sprintf("%#v", c.props), fmt.Sprintf("%#v", c.ctx))
				}
				t.Begin(describe)
				before := time.Now()
				emit(rng, lc.ctx, &c)
				lines, at := b.take(t, describe)
				judge(t, c, lines, at, before, time.Now(), describe)
				shape := ""
				for j := 0; j < len(c.props); j += 2 {
					shape += fmt.Sprintf("%v:%T;", c.props[j], c.props[j+1])
				}
				t.Eval(fmt.Sprintf("%s/%d/%s/%d", c.event, c.level, shape, len(c.ctx)))
				t.Sample("call", map[string]interface{}{"event": c.event, "level": c.level, "props": fmt.Sprintf("%v", c.props), "compact": lines[2]})
			}
			t.Count("event_names_and_contexts", len(contexts))
		},
	})
}
