package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/async"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/lumberjack"
)

// monitor records the writes and watches that the buffer does not change while it is being written
type monitor struct {
	t      *vk.T
	delay  int
	mutex  sync.Mutex
	lines  []string
	active int32
	peak   int32
	broken bool
}

func (m *monitor) Write(buf []byte) (int, error) {
	now := atomic.AddInt32(&m.active, 1)
	defer atomic.AddInt32(&m.active, -1)
	for {
		peak := atomic.LoadInt32(&m.peak)
		if now <= peak || atomic.CompareAndSwapInt32(&m.peak, peak, now) {
			break
		}
	}
	copied := string(buf)
	switch m.delay {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(len(buf)%200) * time.Microsecond)
	}
	if string(buf) != copied {
		m.t.ViolateAsync("torn", "the bytes given to Write changed while being written: %q became %q", copied, string(buf))
	}
	m.mutex.Lock()
	m.lines = append(m.lines, copied)
	m.mutex.Unlock()
	if m.broken {
		// the bytes are taken, whatever is reported
		switch len(buf) % 7 {
		case 0:
			return 0, errors.New("broken")
		case 1:
			return len(buf) / 2, io.ErrShortWrite
		case 2:
			return len(buf) / 2, nil
		case 3:
			return 0, syscall.EINTR
		case 4:
			return 0, &os.PathError{Op: "write", Path: "log", Err: os.ErrClosed}
		case 5:
			return len(buf), syscall.EAGAIN
		}
	}
	return len(buf), nil
}

var templates = [][]hx.Piece{
	{{Literal: "event!shared"}},
	{{Literal: "callee!shared"}},
	{{Literal: "did "}, {Variable: "what"}, {Literal: " for "}, {Variable: "who"}},
	{{Variable: "who"}, {Literal: "<<"}, {Variable: "payload"}, {Literal: ">>"}},
	{{Literal: "number "}, {Variable: "id"}},
}

// pickEvent often makes a name not known yet, so that its handler is created during the round
func pickEvent(rng *rand.Rand, round int, g int) []hx.Piece {
	pieces := append([]hx.Piece{}, templates[rng.Intn(len(templates))]...)
	pieces = append(pieces, hx.Piece{Literal: fmt.Sprintf(" r%d", round)})
	if rng.Intn(3) == 0 {
		pieces = append(pieces, hx.Piece{Literal: fmt.Sprintf(" #%d", rng.Intn(200))})
	}
	return pieces
}

var reportsAllowed atomic.Bool

type logged struct {
	level string
	body  string
}

// emit logs through one of the functions and returns the level
func emit(which int, ctx *countlog.Context, event string, props []interface{}) string {
	switch which {
	case 0:
		countlog.Info(event, props...)
		return "INFO"
	case 1:
		countlog.Debug(event, props...)
		return "DEBUG"
	case 2:
		ctx.Warn(event, props...)
		return "WARN"
	case 3:
		countlog.Error(event, props...)
		return "ERROR"
	case 4:
		ctx.Info(event, props...)
		return "INFO"
	default:
		countlog.Fatal(event, props...)
		return "FATAL"
	}
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '|' {
			return '_'
		}
		return r
	}, s)
}

func makeProps(rng *rand.Rand, id int) []interface{} {
	what := interface{}(clean(hx.GenString(rng, 20)))
	switch rng.Intn(4) {
	case 0:
		what = rng.Int63()
	case 1:
		what = []int{rng.Intn(9), rng.Intn(99), id}
	case 2:
		what = map[string]int{"n": id}
	}
	pairs := [][2]interface{}{
		{"id", id},
		{"what", what},
		{"who", fmt.Sprintf("w%d", id%97)},
		{"payload", strings.Repeat(strconv.Itoa(id)+".", rng.Intn(60))},
	}
	if rng.Intn(300) == 0 {
		// far more than any buffer
		pairs[3][1] = strings.Repeat(strconv.Itoa(id)+".", 1+rng.Intn(40000))
	}
	rng.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	props := []interface{}{}
	for _, pair := range pairs {
		props = append(props, pair[0], pair[1])
	}
	return props
}

func idOf(body string) (int, bool) {
	at := strings.Index(body, "||id=")
	if at < 0 {
		return 0, false
	}
	rest := body[at+5:]
	end := strings.IndexAny(rest, "|\n")
	if end < 0 {
		return 0, false
	}
	id, err := strconv.Atoi(rest[:end])
	return id, err == nil
}

func round(t *vk.T, n int) {
	rng := t.Rng(fmt.Sprintf("round%d", n))
	goroutines := 2 + rng.Intn(30)
	each := 40 + rng.Intn(t.N(120, 600))
	kind := n % 6
	m := &monitor{t: t, delay: rng.Intn(3)}
	if kind == 3 {
		m.delay = 1
	}
	m.broken = kind == 5
	reportsAllowed.Store(m.broken)
	finish := func() []string { return m.lines }
	switch kind {
	case 3:
		w := async.NewAsyncWriter(async.AsyncWriterConfig{Writer: m, IsQueueBlocking: true, QueueLength: 1 + rng.Intn(50)})
		countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: w})
		finish = func() []string {
			deadline := time.Now().Add(60 * time.Second)
			for {
				m.mutex.Lock()
				count := len(m.lines)
				m.mutex.Unlock()
				if count >= goroutines*each || time.Now().After(deadline) {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			time.Sleep(20 * time.Millisecond)
			w.Close()
			m.mutex.Lock()
			defer m.mutex.Unlock()
			return append([]string(nil), m.lines...)
		}
	case 4:
		dir := t.Scratch("log")
		file := filepath.Join(dir, "app.log")
		w := &lumberjack.Logger{Filename: file, MaxSize: 100}
		countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: w})
		finish = func() []string {
			w.Close()
			data, err := os.ReadFile(file)
			if err != nil {
				t.Violate("file", "log file can not be read: %v", err)
			}
			os.RemoveAll(dir)
			lines := strings.SplitAfter(string(data), "\n")
			if lines[len(lines)-1] == "" {
				lines = lines[:len(lines)-1]
			}
			return lines
		}
	default:
		countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: m})
	}
	countlog.SetMinLevel(countlog.LevelDebug)
	expected := make([][]logged, goroutines)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < goroutines; g++ {
		g := g
		own := t.Rng(fmt.Sprintf("round%d-%d", n, g))
		expected[g] = make([]logged, each)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx := countlog.Ctx(context.Background())
			<-start
			for i := 0; i < each; i++ {
				id := g*1000000 + i
				pieces := pickEvent(own, n, g)
				event := hx.Template(pieces)
				props := makeProps(own, id)
				text, _ := hx.RefEventText(event, pieces, props, "call ")
				expected[g][i].body = hx.RefCompactBody(text, nil, props)
				countlog.Trace(event, props...) // below the threshold
				expected[g][i].level = emit(own.Intn(6), ctx, event, props)
			}
		}()
	}
	close(start)
	wg.Wait()
	lines := finish()
	seen := make([][]int, goroutines)
	next := make([]int, goroutines)
	for g := range seen {
		seen[g] = make([]int, each)
	}
	switches := 0
	last := -1
	for at, line := range lines {
		level, _, body, ok := hx.SplitCompact(line)
		if !ok || strings.Count(line, "\n") != 1 {
			t.Violate("not-a-line", "round %d write %d is not one whole line: %q", n, at, line)
			continue
		}
		id, ok := idOf(body)
		g, i := id/1000000, id%1000000
		if !ok || g >= goroutines || i >= each {
			t.Violate("unknown", "round %d write %d is no event that was logged: %q", n, at, line)
			continue
		}
		want := expected[g][i]
		if level != want.level || body != want.body {
			t.Violate("mixed", "round %d event %d of goroutine %d: wrote %q %q instead of %q %q", n, i, g, level, body, want.level, want.body)
		}
		seen[g][i]++
		if i < next[g] {
			t.Violate("order", "round %d goroutine %d: event %d written after event %d", n, g, i, next[g]-1)
		}
		next[g] = i + 1
		if last != g {
			switches++
			last = g
		}
	}
	for g := range seen {
		for i, count := range seen[g] {
			if count != 1 {
				t.Violate("not-once", "round %d (kind %d): event %d of goroutine %d written %d times", n, kind, i, g, count)
			}
		}
	}
	t.Eval(fmt.Sprintf("%d/%d/%d/%d", kind, goroutines, each, switches))
	t.Count("lines", len(lines))
	t.Count("goroutine_switches_in_output", switches)
	t.CountMax("max_concurrent_writes", int(m.peak))
	t.Sample(fmt.Sprint("kind", kind), map[string]interface{}{"goroutines": goroutines, "events_each": each, "lines": len(lines), "switches": switches, "first_line": lines[0]})
}

func main() {
	vk.Main(vk.Check{
		ID:            "C07",
		Rule:          "rounds of 2..31 goroutines logging 40..160 events each, with shared and fresh event names, changing key order and value types, through package functions and contexts, into a recording writer (with yields or delays, or reporting failures of many kinds), an async writer or a rolling file. Oracle: every write is one line of one logged event, each exactly once, with the expected level and text, in order per goroutine, and the buffer does not change during the write; race detector on. Non trivial: distinct (sink, goroutines, events, switches between goroutines in the output).",
		Assumptions:   []string{"the underlying writer does not keep the buffer after Write returns"},
		MinNontrivial: 10,
		Run: func(t *vk.T) {
			loglog.Error = func(err error) {
				if reportsAllowed.Load() {
					t.Count("reported_write_errors", 1)
					return
				}
				t.ViolateAsync("loglog", "the logger reported an internal error: %v", err)
			}
			for n := 0; n < t.N(40, 800) && !t.Violated(); n++ {
				t.Begin(func() string { return fmt.Sprintf("round %d", n) })
				round(t, n)
			}
		},
	})
}
