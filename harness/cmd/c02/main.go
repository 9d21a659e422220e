package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/spi"
)

type textual string

type record struct {
	ID   int
	Text string
}

type uncomparable struct {
	ID   int
	Tags []string
}

type errorList []string

func (e errorList) Error() string { return strings.Join(e, ",") }

// panicValue returns what to panic with and if it must be reported.
// token identifies the value inside of what is reported.
func panicValue(rng *rand.Rand, id int) (kind string, action func(), token string, reported bool) {
	token = fmt.Sprintf("tok%d_%d", id, rng.Intn(1e6))
	switch rng.Intn(24) {
	case 0:
		return "string", func() { panic(token) }, token, true
	case 1:
		return "error", func() { panic(errors.New(token)) }, token, true
	case 2:
		return "struct", func() { panic(record{id, token}) }, token, true
	case 3:
		return "pointer", func() { panic(&record{id, token}) }, token, true
	case 4:
		return "uncomparable struct", func() { panic(uncomparable{id, []string{token}}) }, token, true
	case 5:
		return "slice", func() { panic([]string{token}) }, token, true
	case 6:
		return "map", func() { panic(map[string]int{token: id}) }, token, true
	case 7:
		return "runtime error", func() { var m map[string]int; m[token] = 1 }, "nil map", true
	case 8:
		return "index", func() { var s []int; _ = s[id+5] }, fmt.Sprintf("index out of range [%d]", id+5), true
	case 9:
		return "other type with the text of the stop signal", func() { panic(textual(concurrent.StopSignal)) }, string(concurrent.StopSignal), true
	case 10:
		return "error with the text of the stop signal", func() { panic(errors.New(concurrent.StopSignal)) }, string(concurrent.StopSignal), true
	case 11:
		return "stop signal", func() { panic(concurrent.StopSignal) }, "", false
	case 12:
		// a panic that the task recovers by itself is not the business of the executor
		return "recovered", func() {
			defer func() { recover() }()
			panic(token)
		}, "", false
	case 13:
		return "cancelled", func() { panic(context.Canceled) }, "context canceled", true
	case 14:
		return "wrapped cancellation", func() { panic(fmt.Errorf("%s: %w", token, context.Canceled)) }, token, true
	case 15:
		return "zero", func() { panic(0) }, "0", true
	case 16:
		return "false", func() { panic(false) }, "false", true
	case 17:
		return "text around the stop signal", func() { panic(concurrent.StopSignal + token) }, token, true
	case 18:
		return "pointer to the stop signal", func() { panic(&record{id, concurrent.StopSignal + token}) }, token, true
	case 19:
		return "error that can not be compared", func() { panic(errorList{token}) }, token, true
	case 20:
		// only the last one counts
		return "panic while panicking", func() {
			defer func() { panic(token) }()
			panic(concurrent.StopSignal)
		}, token, true
	case 21:
		return "end of file", func() { panic(io.EOF) }, "EOF", true
	default:
		return "normal", func() {}, "", false
	}
}

func text(value interface{}) string {
	if ptr, isPtr := value.(*record); isPtr {
		return fmt.Sprintf("%+v", *ptr)
	}
	return fmt.Sprintf("%+v", value)
}

type collector struct {
	mutex sync.Mutex
	seen  []interface{}
}

func (c *collector) add(value interface{}) {
	c.mutex.Lock()
	c.seen = append(c.seen, value)
	c.mutex.Unlock()
}

type expectation struct {
	kind  string
	token string
}

func rank(token string) int {
	if strings.HasPrefix(token, "tok") {
		return 1000
	}
	return len(token)
}

func match(t *vk.T, what string, expected []expectation, seen []string) {
	used := make([]bool, len(seen))
	// the short ones are part of others, so they come last
	expected = append([]expectation(nil), expected...)
	sort.SliceStable(expected, func(i, j int) bool { return rank(expected[i].token) > rank(expected[j].token) })
	for _, e := range expected {
		found := false
		for i, s := range seen {
			if !used[i] && strings.Contains(s, e.token) {
				used[i] = true
				found = true
				break
			}
		}
		if !found {
			t.Violate("not-reported", "%s: panic (%s) %q was not reported, reported: %q", what, e.kind, e.token, seen)
		}
	}
	for i, s := range seen {
		if !used[i] {
			t.Violate("unexpected-report", "%s: reported %q, which no task panicked with or reported more than once; expected %+v", what, s, expected)
		}
	}
}

// runTasks starts the tasks and waits for all of them, returns what must be reported
func runTasks(t *vk.T, rng *rand.Rand, n int) (expected []expectation, kinds string) {
	executor := concurrent.NewUnboundedExecutor()
	var others int64
	var survivors int64
	for i := 0; i < n; i++ {
		kind, action, token, reported := panicValue(rng, i)
		if reported {
			expected = append(expected, expectation{kind, token})
		}
		kinds += kind[:1]
		late := rng.Intn(2) == 0
		executor.Go(func(ctx context.Context) {
			if late {
				<-ctx.Done()
			}
			action()
		})
		// a bystander that must not be harmed
		others++
		executor.Go(func(ctx context.Context) {
			<-ctx.Done()
			atomic.AddInt64(&survivors, 1)
		})
	}
	executor.StopAndWaitForever()
	if survivors != others {
		t.Violate("bystander", "%d of %d other tasks completed", survivors, others)
	}
	return expected, kinds
}

func hooked(t *vk.T, rng *rand.Rand, n int) {
	c := &collector{}
	previous := concurrent.LogPanic
	concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
		c.add(recovered)
		return recovered
	}
	expected, kinds := runTasks(t, rng, n)
	concurrent.LogPanic = previous
	var seen []string
	for _, value := range c.seen {
		seen = append(seen, text(value))
	}
	match(t, "panic hook", expected, seen)
	t.Count("panics_expected", len(expected))
	t.Eval("hook " + kinds)
	t.Sample("hooked", map[string]interface{}{"tasks": n, "expected_reports": fmt.Sprint(expected)})
}

// busyHook: the hook itself works with the executor of the task it is told about, and with its panics
func busyHook(t *vk.T, rng *rand.Rand, n int) {
	executor := concurrent.NewUnboundedExecutor()
	var reports, followers, bystanders int64
	previous := concurrent.LogPanic
	concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
		number := atomic.AddInt64(&reports, 1)
		executor.Go(func(ctx context.Context) {
			atomic.AddInt64(&followers, 1)
		})
		if number%3 == 0 {
			wait := make(chan struct{})
			executor.Go(func(ctx context.Context) { close(wait) })
			<-wait
		}
		return recovered
	}
	for i := 0; i < n; i++ {
		i := i
		executor.Go(func(ctx context.Context) {
			panic(record{i, "busy"})
		})
		executor.Go(func(ctx context.Context) {
			<-ctx.Done()
			atomic.AddInt64(&bystanders, 1)
		})
	}
	done := make(chan struct{})
	go func() {
		executor.StopAndWaitForever()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.ViolateAsync("blocked", "%d tasks panic and the hook starts tasks of the same executor: after 40 s %d are reported, %d tasks of the hook and %d others have finished",
			n, atomic.LoadInt64(&reports), atomic.LoadInt64(&followers), atomic.LoadInt64(&bystanders))
		return // the hook may still be called
	}
	concurrent.LogPanic = previous
	if reports != int64(n) || followers != int64(n) || bystanders != int64(n) {
		t.Violate("busy-hook", "%d tasks panic and the hook starts tasks of the same executor: %d are reported, %d tasks of the hook and %d others have finished", n, reports, followers, bystanders)
	}
	t.Count("panics_expected", n)
	t.Eval(fmt.Sprint("busy hook ", n))
}

type recorder struct {
	mutex sync.Mutex
	lines []string
}

func (r *recorder) Write(buf []byte) (int, error) {
	r.mutex.Lock()
	r.lines = append(r.lines, string(buf))
	r.mutex.Unlock()
	return len(buf), nil
}

func (r *recorder) take() []string {
	r.mutex.Lock()
	defer r.mutex.Unlock()
	lines := r.lines
	r.lines = nil
	return lines
}

// logged goes through the event log, as in production
func logged(t *vk.T, rng *rand.Rand, lines *recorder, n int) {
	lines.take()
	levels := []int{countlog.LevelTrace, countlog.LevelInfo, countlog.LevelWarn, countlog.LevelFatal, 100}
	countlog.SetMinLevel(levels[rng.Intn(len(levels))])
	expected, kinds := runTasks(t, rng, n)
	countlog.SetMinLevel(countlog.LevelTrace)
	var seen []string
	for _, line := range lines.take() {
		if strings.HasPrefix(line, "[FATAL]") && strings.Contains(line, "panic") {
			seen = append(seen, beforeStack(line))
		} else if !strings.Contains(line, "still waiting") {
			t.Violate("unexpected-line", "line %q", line)
		}
	}
	match(t, "event log", expected, seen)
	t.Count("panics_expected", len(expected))
	t.Eval("log " + kinds)
}

func beforeStack(line string) string {
	if i := strings.Index(line, "||stacktrace="); i >= 0 {
		return line[:i]
	}
	return line
}

func logPanicDirectly(t *vk.T, rng *rand.Rand, lines *recorder) {
	lines.take()
	if got := countlog.LogPanic(nil, "k", "v"); got != nil {
		t.Violate("logpanic-nil", "LogPanic(nil) returned %v", got)
	}
	if got := lines.take(); len(got) != 0 {
		t.Violate("logpanic-nil", "LogPanic(nil) logged %q", got)
	}
	for i := 0; i < 10; i++ {
		kind, action, token, reported := panicValue(rng, i)
		if !reported {
			continue
		}
		recovered, _ := vk.Protect(action)
		props := []interface{}{}
		for j := rng.Intn(3); j > 0; j-- {
			props = append(props, fmt.Sprintf("p%d", j), fmt.Sprintf("val%d", rng.Intn(1000)))
		}
		got := countlog.LogPanic(recovered, props...)
		if !reflect.DeepEqual(got, recovered) {
			t.Violate("logpanic-value", "LogPanic returned %v for %v", got, recovered)
		}
		out := lines.take()
		if len(out) != 1 || !strings.HasPrefix(out[0], "[FATAL]") || !strings.Contains(beforeStack(out[0]), token) || !strings.Contains(out[0], "goroutine ") {
			t.Violate("logpanic-line", "LogPanic of %s %q logged %d lines: %q", kind, token, len(out), out)
		}
		if len(out) == 1 && (strings.Contains(out[0], "\x00") || strings.Contains(out[0], `\x00`) || strings.Contains(out[0], `\u0000`)) {
			t.Violate("logpanic-padding", "LogPanic of %s %q logged a line of %d bytes that is padded with zero bytes", kind, token, len(out[0]))
		}
		for j := 0; j+1 < len(props); j += 2 {
			if len(out) == 1 && !strings.Contains(out[0], fmt.Sprintf("||%v=%v", props[j], props[j+1])) {
				t.Violate("logpanic-props", "property %v=%v is missing in %q", props[j], props[j+1], beforeStack(out[0]))
			}
		}
		t.Eval("direct " + kind)
	}
}

var stackStart = regexp.MustCompile(`goroutine \d+ \[`)

// ownStack: the report of a panic has the stack of the goroutine that panicked, also when others panic
func ownStack(t *vk.T, lines *recorder, n int) {
	lines.take()
	var wg sync.WaitGroup
	ids := make([]string, n)
	each := 12
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, 64)
			buf = buf[:runtime.Stack(buf, false)]
			ids[g] = strings.Join(strings.Fields(string(buf))[:2], " ") + " ["
			for i := 0; i < each; i++ {
				recovered, _ := vk.Protect(func() { panic(fmt.Sprintf("panic of <%d> %d", g, i)) })
				if i%2 == 0 {
					countlog.LogPanic(recovered)
				} else {
					countlog.LogPanic(recovered, "worker", g)
				}
			}
		}()
	}
	wg.Wait()
	got := make([]int, n)
	for _, line := range lines.take() {
		g := -1
		if at := strings.Index(line, "panic of <"); at >= 0 {
			fmt.Sscanf(line[at:], "panic of <%d>", &g)
		}
		if g < 0 || g >= n {
			t.Violate("stack-line", "unexpected line %.200q", line)
			continue
		}
		got[g]++
		if at := strings.Index(line, "||stacktrace="); at < 0 || !strings.HasPrefix(line[at+len("||stacktrace="):], ids[g]) || len(stackStart.FindAllString(line, -1)) != 1 {
			t.Violate("stack-owner", "the report of the panic in %s...] has another stack: %.300q", ids[g], line)
		}
	}
	for g := range got {
		if got[g] != each {
			t.Violate("stack-count", "%d of %d panics of a goroutine are reported", got[g], each)
		}
	}
	t.Count("stacks_compared", n*each)
	t.Eval(fmt.Sprint("own stack ", n))
}

func main() {
	vk.Main(vk.Check{
		ID:            "C02",
		Rule:          "seeded mixes of tasks panicking with errors, strings, structs, uncomparable values, runtime errors, the stop signal and look-alikes, with bystanders, observed at the panic hook, also one that starts tasks of the same executor and waits for them, and at the event log under different minimum levels, where concurrent reports must have the stacks of their own goroutines. Non trivial: at least one task ends by panic; distinct by sequence of panic kinds.",
		StallSeconds:  90,
		MinNontrivial: 20,
		Run: func(t *vk.T) {
			loglogErrors := &bytes.Buffer{}
			loglog.Error = func(err error) { fmt.Fprintln(loglogErrors, err) }
			lines := &recorder{}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: lines})
			// the hook of the executor is the event log by default
			sites := spi.MinLevel
			_ = sites
			rng := t.Rng("main")
			for i := 0; i < t.N(30, 400) && !t.Violated(); i++ {
				t.Begin(func() string { return fmt.Sprintf("hooked %d", i) })
				hooked(t, rng, 1+rng.Intn(30))
				if i%4 == 0 && !t.Violated() {
					busyHook(t, rng, 1+rng.Intn(30))
				}
			}
			for i := 0; i < t.N(20, 300) && !t.Violated(); i++ {
				t.Begin(func() string { return fmt.Sprintf("logged %d", i) })
				logged(t, rng, lines, 1+rng.Intn(12))
				logPanicDirectly(t, rng, lines)
				ownStack(t, lines, 1+rng.Intn(12))
			}
			time.Sleep(10 * time.Millisecond)
		},
	})
}
