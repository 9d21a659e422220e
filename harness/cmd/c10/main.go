package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	jsonout "github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
)

// ---------------------------------------------------------------- hostile values

type badStringer struct{ n int }

func (b badStringer) String() string { panic("badStringer") }

type badStringerPtr struct{ n int }

func (b *badStringerPtr) String() string { return fmt.Sprint(b.n) }

type badError struct{}

func (b *badError) Error() string { panic(errors.New("badError")) }

type nilError struct{ msg string }

func (e *nilError) Error() string { return e.msg }

type badMarshaler struct{}

func (b badMarshaler) MarshalJSON() ([]byte, error) { panic("badMarshaler") }

type failingMarshaler struct{}

func (b failingMarshaler) MarshalJSON() ([]byte, error) { return nil, errors.New("no json \" today") }

type garbageMarshaler struct{}

func (b garbageMarshaler) MarshalJSON() ([]byte, error) { return []byte("{{{\n"), nil }

type nilMarshaler struct{ n int }

func (b *nilMarshaler) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprint(b.n)), nil }

type loggingStringer struct{ event string }

func (l loggingStringer) String() string {
	countlog.Info(l.event, "from", "String")
	return "logged"
}

type sometimes struct{ bad bool }

func (s sometimes) String() string {
	if s.bad {
		panic("sometimes")
	}
	return "fine"
}

type node struct {
	V    int
	Next *node
	Any  interface{}
}

type selfSlice []selfSlice
type selfMap map[string]selfMap

type secret struct {
	mutex sync.Mutex
	Ch    chan int
	Fn    func()
	ptr   unsafe.Pointer
	U     uintptr
	W     io.Writer
}

type wide struct {
	A, B, C, D, E, F, G, H int64
	S                      [40]string
}

func hostileValue(rng *rand.Rand, event string) interface{} {
	switch rng.Intn(40) {
	case 0:
		return badStringer{1}
	case 1:
		return &badStringer{1}
	case 2:
		return (*badStringer)(nil)
	case 3:
		return (*badStringerPtr)(nil)
	case 4:
		return &badError{}
	case 5:
		return (*badError)(nil)
	case 6:
		return (*nilError)(nil)
	case 7:
		return badMarshaler{}
	case 8:
		return &badMarshaler{}
	case 9:
		return failingMarshaler{}
	case 10:
		return garbageMarshaler{}
	case 11:
		return (*nilMarshaler)(nil)
	case 12:
		return loggingStringer{event}
	case 13:
		return sometimes{rng.Intn(2) == 0}
	case 14:
		n := &node{V: 1}
		n.Next = &node{V: 2, Next: n}
		n.Any = n
		return n
	case 15:
		list := []interface{}{1, nil, nil}
		list[1], list[2] = list, &list
		return list
	case 16:
		m := map[string]interface{}{}
		m["self"] = m
		return m
	case 17:
		s := selfSlice{nil, {}}
		s[0] = s
		return s
	case 18:
		m := selfMap{}
		m["a"] = m
		return m
	case 19:
		return func() {}
	case 20:
		return make(chan int)
	case 21:
		return complex(1, math.NaN())
	case 22:
		v := 7
		return unsafe.Pointer(&v)
	case 23:
		return &secret{}
	case 24:
		return math.NaN()
	case 25:
		return float32(math.Inf(-1))
	case 26:
		return map[interface{}]interface{}{nil: nil, 1: "x", 1.5: badStringer{}, "k": func() {}}
	case 27:
		return map[float64]int{math.NaN(): 1, math.Inf(1): 2}
	case 28:
		return strings.Repeat("long ", 50000)
	case 29:
		return bytes.Repeat([]byte{0, 0xff, '|'}, 20000)
	case 30:
		return reflect.ValueOf(secret{})
	case 31:
		return time.Time{}
	case 32:
		return "\xff\xfe invalid \xed\xa0\x80"
	case 33:
		return [0]interface{}{}
	case 34:
		return struct{}{}
	case 35:
		return [](*wide){nil, {A: 1}}
	case 36:
		return map[string]error{"e": nil, "f": (*nilError)(nil)}
	case 37:
		return []interface{}{nil, (*int)(nil), []byte(nil), map[int]int(nil), badStringer{}}
	case 38:
		return wide{H: 8}
	default:
		return context.Background()
	}
}

func hostileProps(rng *rand.Rand, event string) []interface{} {
	props := []interface{}{}
	for i := rng.Intn(5); i > 0; i-- {
		var key interface{} = []string{"k0", "k1", "k2", "timer", "err", "", "{", "中"}[rng.Intn(8)]
		switch rng.Intn(14) {
		case 0:
			key = nil
		case 1:
			key = 42
		case 2:
			key = []byte("key")
		case 3:
			key = hostileValue(rng, event)
		case 4:
			key = "agg"
		case 5:
			key = "dim"
		}
		var value interface{} = "v"
		switch rng.Intn(4) {
		case 0:
		case 1:
			value = hx.GenValue(rng, rng.Intn(hx.Kinds), 1)
		default:
			value = hostileValue(rng, event)
		}
		props = append(props, key, value)
	}
	switch rng.Intn(6) {
	case 0:
		props = append(props, "dangling")
	case 1:
		props = append(props, nil)
	case 2:
		props = append(props, "agg")
	case 3:
		props = append(props, "agg", "counter", "dim", "k0,k1")
	}
	return props
}

var templates = []string{"event!x", "callee!y", "{k0}", "{k0", "k0}", "{", "}", "{}", "{{k0}}", "{k0,}", "{k0, goTime, 2006}", "{k0, nosuch}",
	"{k0, goTime}", "{missing}", "", "%d%s%!", "\xff{k0}\xff", "{k0}{k1}{k2}{k0}", strings.Repeat("{k0} ", 200), "{ k0 }", "{k0,goTime,}", "{中}", "event!{k0}", "{timer}"}

// ---------------------------------------------------------------- hostile writers

type moody struct {
	lines *hx.Lines
	mood  int32
	event atomic.Value
}

func (m *moody) Write(buf []byte) (int, error) {
	switch atomic.LoadInt32(&m.mood) {
	case 1:
		return 0, errors.New("disk full")
	case 2:
		panic("writer panicked")
	case 3:
		return len(buf) / 2, io.ErrShortWrite
	case 4:
		// complains about something before it writes, but only once
		if atomic.CompareAndSwapInt32(&m.mood, 4, 0) {
			name, _ := m.event.Load().(string)
			countlog.Warn(name, "k0", len(buf), "from", "writer")
		}
	}
	return m.lines.Write(buf)
}

var formats = map[string]output.Format{
	"compact": &compact.Format{},
	"hrf":     &hrf.Format{ShowTimestamp: true},
	"json":    &jsonout.JsonFormat{},
	"printf":  &printf.Format{Layout: "{level} {message} {event} {line}"},
	"broken":  &printf.Format{Layout: "{level} {nosuch} {message"},
}
var formatNames = []string{"compact", "hrf", "json", "printf", "broken"}

// emit calls one of the log functions, err is not nil for the failed calls
func emit(which int, ctx *countlog.Context, event string, err error, props []interface{}) {
	switch which {
	case 0:
		countlog.Trace(event, props...)
	case 1:
		countlog.Debug(event, props...)
	case 2:
		countlog.Info(event, props...)
	case 3:
		countlog.Warn(event, props...)
	case 4:
		countlog.Error(event, props...)
	case 5:
		countlog.Fatal(event, props...)
	case 6:
		countlog.TraceCall(event, err, props...)
	case 7:
		countlog.DebugCall(event, err, props...)
	case 8:
		countlog.InfoCall(event, err, props...)
	case 9:
		ctx.Info(event, props...)
	case 10:
		ctx.Error(event, props...)
	case 11:
		ctx.InfoCall(event, err, props...)
	case 12:
		ctx.LogAccess(event, err, props...)
	case 13:
		ctx.Trace(event, props...)
	case 14:
		countlog.Log(17, event, props...)
	case 15:
		countlog.LogPanic("recovered", props...)
	default:
		countlog.LogPanic(nil, props...)
	}
}

func hostileErr(rng *rand.Rand) error {
	switch rng.Intn(6) {
	case 0:
		return nil
	case 1:
		return (*nilError)(nil)
	case 2:
		return &badError{}
	case 3:
		return errors.New("")
	default:
		return errors.New("failed")
	}
}

// afterwards logs a well formed event and expects it in the output
func afterwards(t *vk.T, format string, lines *hx.Lines, name string, id int, level int, describe func() string) {
	lines.Take()
	token := fmt.Sprintf("token%d", id)
	props := []interface{}{"id", token, "n", id}
	where := ""
	switch level {
	case 0:
		countlog.Info(name, props...)
		where = "INFO"
	case 1:
		countlog.Warn(name, props...)
		where = "WARN"
	case 2:
		countlog.Trace(name, props...)
		where = "TRACE"
	default:
		countlog.Debug(name, props...)
		where = "DEBUG"
	}
	got := lines.Take()
	if len(got) != 1 {
		t.Violate("not-logged-afterwards", "%s: well formed event %q (%s) was written %d times afterwards: %q", describe(), name, where, len(got), got)
		return
	}
	ok := false
	switch format {
	case "compact":
		levelName, _, body, isLine := hx.SplitCompact(got[0])
		ok = isLine && levelName == where && strings.HasSuffix(body, fmt.Sprintf("||id=%s||n=%d\n", token, id))
	case "hrf":
		ok = strings.Contains(got[0], "["+where+"]") && strings.Contains(got[0], "\nid: "+token+"\x1b") && strings.Contains(got[0], fmt.Sprintf("\nn: %d\x1b", id))
	case "json":
		ok = strings.Contains(got[0], fmt.Sprintf(`,"id":"%s","n":%d,"timestamp":`, token, id))
	case "printf":
		ok = strings.HasPrefix(got[0], where+" ") && strings.Contains(got[0], name)
	default:
		ok = true
	}
	if !ok {
		t.Violate("wrong-afterwards", "%s: well formed event %q is written as %q afterwards", describe(), name, got[0])
	}
}

func hostileSequence(t *vk.T, format string, collect bool, steps int) {
	rng := t.Rng(fmt.Sprint("hostile", format, collect))
	lines := &hx.Lines{}
	writer := &moody{lines: lines}
	sink := spi.EventSink(output.NewEventWriter(output.EventWriterConfig{Format: formats[format], Writer: writer}))
	sinkMood := int32(0)
	prefix := fmt.Sprintf("(%s %v)", format, collect)
	countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		switch atomic.LoadInt32(&sinkMood) {
		case 1:
			panic("sink panicked")
		case 2:
			if atomic.CompareAndSwapInt32(&sinkMood, 2, 0) {
				countlog.Info("event!sink notes "+prefix+site.Event, "func", site.Func)
			}
		}
		return sink.HandlerOf(site)
	})
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
	if collect {
		countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
			Collector: nop{}, Executor: func(f func(ctx context.Context)) {}})
	}
	for i := 0; i < steps; i++ {
		event := templates[rng.Intn(len(templates))] + prefix
		if rng.Intn(2) == 0 {
			event += fmt.Sprint(rng.Intn(200))
		}
		props := hostileProps(rng, prefix+"inner")
		// the caller owns the list of properties and what is behind it
		owned := append(append([]interface{}(nil), props...), "behind", i, "the", "list", 5, 6)
		before := append([]interface{}(nil), owned...)
		props = owned[:len(props)]
		err := hostileErr(rng)
		which := rng.Intn(17)
		mood := 0
		if rng.Intn(5) == 0 {
			mood = 1 + rng.Intn(4)
			writer.event.Store([]string{event, "event!writer notes " + prefix}[rng.Intn(2)])
		}
		badSink := int32(0)
		if rng.Intn(40) == 0 {
			badSink = 1
			event += " bad sink" + fmt.Sprint(i)
		} else if rng.Intn(20) == 0 {
			badSink = 2
			event += " sink notes" + fmt.Sprint(i)
		}
		kinds := ""
		for _, prop := range props {
			kinds += fmt.Sprintf("%T,", prop)
		}
		describe := func() string {
			return fmt.Sprintf("format %s collector %v step %d function %d event %q properties of types %s error %T writer mood %d", format, collect, i, which, event, kinds, err, mood)
		}
		t.Begin(describe)
		ctx := countlog.Ctx(context.Background())
		if rng.Intn(8) == 0 {
			// nobody gave it one
			ctx = nil
		} else if rng.Intn(3) == 0 {
			ctx.Add([]string{"k0", "", "agg"}[rng.Intn(3)], hostileValue(rng, prefix+"inner"))
		}
		atomic.StoreInt32(&writer.mood, int32(mood))
		atomic.StoreInt32(&sinkMood, badSink)
		recovered, stack := vk.Protect(func() { emit(which, ctx, event, err, props) })
		atomic.StoreInt32(&writer.mood, 0)
		atomic.StoreInt32(&sinkMood, 0)
		if recovered != nil {
			t.Violate("panic", "%s: panicked with %v\n%s", describe(), recovered, stack)
		}
		for k := range owned {
			if !hx.Same(reflect.ValueOf(before[k]), reflect.ValueOf(owned[k])) {
				t.Violate("caller", "%s: element %d of the list of properties, which has length %d, is overwritten by %T", describe(), k, len(props), owned[k])
			}
		}
		afterwards(t, format, lines, event, i, rng.Intn(4), describe)
		afterwards(t, format, lines, "event!another "+prefix, i, rng.Intn(4), describe)
		t.Eval(fmt.Sprintf("%s/%d/%s/%s/%d", format, which, event, kinds, mood))
		t.Sample(format, map[string]interface{}{"function": which, "event": event, "types": kinds, "error": fmt.Sprintf("%T", err), "writer_mood": mood})
		t.Count("writer_moods_"+fmt.Sprint(mood), 1)
		t.Count("sink_moods_"+fmt.Sprint(badSink), 1)
	}
}

// uncountable: what can not be counted is written, once, and what can not be written is counted, once
func uncountable(t *vk.T, rng *rand.Rand, round int) {
	lines := &hx.Lines{}
	sum := &total{}
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &printf.Format{Layout: "{event}: {message}"}, Writer: lines})
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
		Collector: sum, Executor: func(f func(ctx context.Context)) { sum.mutex.Lock(); sum.f = append(sum.f, f); sum.mutex.Unlock() }})
	defer func() {
		countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
	}()
	bads := []interface{}{badMarshaler{}, &badMarshaler{}, []interface{}{badMarshaler{}}, map[string]badMarshaler{"a": {}}}
	written, counted := map[string]int{}, 0
	for i := 0; i < 12; i++ {
		kind := rng.Intn(4)
		event := fmt.Sprintf("uncountable %d %d {n}", round, kind)
		bad := bads[rng.Intn(len(bads))]
		want := fmt.Sprintf("%s: uncountable %d %s %d\n", event, round, fmt.Sprint(kind), i)
		t.Begin(func() string { return fmt.Sprintf("%q with %T", event, bad) })
		recovered, stack := vk.Protect(func() {
			switch kind {
			case 0, 1:
				countlog.Info(event, "agg", "counter", "dim", "d", "d", bad, "n", i)
				written[want]++
			case 2:
				countlog.Warn(event+" {d}", "agg", "counter", "dim", "n", "d", bad, "n", i)
				counted++
			default:
				countlog.Warn(event, "agg", "counter", "dim", "n", "n", i)
				written[want]++
				counted++
			}
		})
		if recovered != nil {
			t.Violate("panic", "%q with %T: panicked with %v\n%s", event, bad, recovered, stack)
		}
		t.Eval(fmt.Sprintf("uncountable %T", bad))
	}
	got := lines.Take()
	seen := map[string]int{}
	for _, line := range got {
		seen[line]++
	}
	for line, n := range written {
		if seen[line] != n {
			t.Violate("written", "%q, which can be written and perhaps not be counted, is written %d times instead of %d", line, seen[line], n)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sum.mutex.Lock()
	for _, f := range sum.f {
		go f(ctx)
	}
	sum.mutex.Unlock()
	at := 0
	for begin := time.Now(); at < counted && time.Since(begin) < 30*time.Second; t.Tick() {
		time.Sleep(20 * time.Millisecond)
		sum.mutex.Lock()
		at = int(sum.n)
		sum.mutex.Unlock()
	}
	if at != counted {
		t.Violate("counted", "%d events are counted of %d that can be counted and perhaps not be written", at, counted)
	}
	t.Count("uncountable_written", len(got))
	t.Count("unwritable_counted", counted)
}

type total struct {
	mutex sync.Mutex
	n     float64
	f     []func(ctx context.Context)
}

func (s *total) Collect(point *stats.Point) {
	s.mutex.Lock()
	s.n += point.Value
	s.mutex.Unlock()
}

type nop struct{}

func (nop) Collect(point *stats.Point) {}

// ---------------------------------------------------------------- memory

type record struct {
	Name string
	Vals [6]int
	P    *int
}

//go:noinline
func grow(n int) int {
	var pad [64]int
	for i := range pad {
		pad[i] = n + i
	}
	if n == 0 {
		return pad[3]
	}
	return grow(n-1) + pad[n%64]
}

// shortLived logs values living on the stack of a goroutine that ends right afterwards
func shortLived(g, i int, deep bool) {
	local := fmt.Sprintf("local-%d-%d", g, i)
	n := g*100000 + i
	rec := record{Name: local, P: &n}
	raw := [16]byte{}
	copy(raw[:], local)
	event := fmt.Sprintf("mem {name} %d", i%50)
	if deep {
		grow(20)
	}
	switch i % 4 {
	case 0:
		countlog.Info(event, "name", local, "n", n, "rec", rec, "raw", raw[:])
	case 1:
		countlog.Info(event, "name", local, "rec", &rec, "n", n)
	case 2:
		countlog.InfoCall(event, errors.New(local), "name", local, "n", n, "p", &n)
	default:
		ctx := countlog.Ctx(context.Background())
		ctx.Add("ctx", local)
		ctx.Info(event, "n", n, "name", local)
	}
	if deep {
		grow(200)
	}
}

func memory(t *vk.T, rounds int) {
	lines := &hx.Lines{}
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: lines})
	stop := make(chan struct{})
	var collecting sync.WaitGroup
	collecting.Add(1)
	go func() {
		defer collecting.Done()
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
				t.Tick()
			}
		}
	}()
	for round := 0; round < rounds && !t.Violated(); round++ {
		t.Begin(func() string { return fmt.Sprintf("short lived goroutines round %d", round) })
		var wg sync.WaitGroup
		for g := 0; g < 40; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 8; i++ {
					shortLived(g, round*8+i, (g+i)%2 == 0)
				}
			}()
		}
		wg.Wait()
		got := lines.Take()
		seen := map[string]int{}
		for _, line := range got {
			_, _, body, ok := hx.SplitCompact(line)
			at := strings.Index(body, "local-")
			if !ok || at < 0 {
				t.Violate("corrupted", "line %q", line)
				continue
			}
			local := strings.Fields(body[at:])[0]
			seen[local]++
			for rest := body; ; {
				at := strings.Index(rest, "local-")
				if at < 0 {
					break
				}
				rest = rest[at:]
				if !strings.HasPrefix(rest, local) {
					t.Violate("corrupted", "values of several events in one line %q", line)
					break
				}
				rest = rest[len(local):]
			}
		}
		for g := 0; g < 40; g++ {
			for i := 0; i < 8; i++ {
				if n := seen[fmt.Sprintf("local-%d-%d", g, round*8+i)]; n != 1 {
					t.Violate("corrupted", "event of goroutine %d step %d seen %d times", g, round*8+i, n)
				}
			}
		}
		t.Eval(fmt.Sprint("memory", round%7))
		t.Count("lines_under_gc", len(got))
	}
	close(stop)
	collecting.Wait()
}

// storm logs hostile events from many goroutines at once
func storm(t *vk.T, round int) {
	lines := &hx.Lines{}
	writer := &moody{lines: lines}
	writer.event.Store(fmt.Sprint("event!storm writer ", round))
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: formats[formatNames[round%3]], Writer: writer})
	var wg sync.WaitGroup
	for g := 0; g < 12; g++ {
		own := t.Rng(fmt.Sprint("storm", round, "-", g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				event := templates[own.Intn(len(templates))] + fmt.Sprint(" storm ", round, own.Intn(10))
				props := hostileProps(own, fmt.Sprint("storm inner ", round))
				which := own.Intn(17)
				err := hostileErr(own)
				atomic.StoreInt32(&writer.mood, int32(own.Intn(5)))
				recovered, stack := vk.Protect(func() {
					emit(which, countlog.Ctx(context.Background()), event, err, props)
				})
				if recovered != nil {
					t.ViolateAsync("panic", "event %q: panicked with %v\n%s", event, recovered, stack)
				}
				t.Eval("")
			}
		}()
	}
	wg.Wait()
}

// realStderr must not be closed by its finalizer
var realStderr *os.File

func main() {
	vk.Main(vk.Check{
		ID:            "C10",
		Rule:          "seeded hostile log calls (17 functions, 24 templates mostly malformed, 40 kinds of hostile values also as keys, odd lists, broken errors, writers that fail, panic, write short or log events themselves, sinks that panic or log events themselves) in five formats, with and without collector; after every one of them a well formed event of the same and of another name must come out correctly. Then events that can be written and not counted, or counted and not written: each is written or counted exactly once. Then goroutines logging values on their stacks while garbage is collected all the time with freed memory clobbered, and hostile calls from 12 goroutines. Observed: panics, crashes, stalls, wrong or missing later lines, data races. Non trivial: distinct (format, function, event, types, writer mood).",
		Assumptions:   []string{"formatting methods of values end (do not block or loop for ever)"},
		MinNontrivial: 500,
		Env:           []string{"GODEBUG=clobberfree=1"},
		Run: func(t *vk.T) {
			if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
				// debug.PrintStack of the code under test
				realStderr = os.Stderr
				os.Stderr = null
			}
			loglog.Error = func(err error) { t.Count("reported_to_loglog", 1) }
			countlog.SetMinLevel(0)
			for _, format := range formatNames {
				for _, collect := range []bool{false, true} {
					countlog.SetMinLevel(map[bool]int{false: 0, true: 10}[collect])
					hostileSequence(t, format, collect, t.N(900, 20000))
				}
			}
			countlog.SetMinLevel(0)
			memory(t, t.N(25, 500))
			rng := t.Rng("uncountable")
			for round := 0; round < t.N(6, 150) && !t.Violated(); round++ {
				uncountable(t, rng, round)
			}
			for round := 0; round < t.N(12, 200) && !t.Violated(); round++ {
				t.Begin(func() string { return fmt.Sprintf("storm %d", round) })
				storm(t, round)
			}
		},
	})
}
