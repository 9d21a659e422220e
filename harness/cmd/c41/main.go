package main

import (
	"bytes"
	"encoding/json"
	"expvar"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	jsonformat "github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/witch"
)

// capacity is how many events wait for the viewer
const capacity = 10240

type item struct {
	Event    string      `json:"event"`
	Round    int         `json:"round"`
	Logger   int         `json:"logger"`
	N        int         `json:"n"`
	Text     string      `json:"text"`
	List     []string    `json:"list"`
	Location string      `json:"location"`
	Time     json.Number `json:"timestamp"`
}

var texts = []string{"", "plain", "a \"quoted\" \\ text", "two\nlines\r\n\ttab", "][,{}", "<b>&amp;</b>", "snowman \u2603 \U0001F600", "\x00\x01\x1f\x7f", strings.Repeat("long ", 600)}

func text(round, logger, n int) string { return texts[(round*7+logger*3+n)%len(texts)] }

func log(round, logger, n int) {
	s := text(round, logger, n)
	switch (logger + n) % 3 {
	case 0:
		countlog.Info("event!c41.one", "round", round, "logger", logger, "n", n, "text", s)
	case 1:
		countlog.Error("event!c41.two", "round", round, "logger", logger, "n", n, "text", s, "list", []string{s, "x"})
	default:
		countlog.Warn("event!c41.three", "text", s, "n", n, "logger", logger, "round", round)
	}
}

var names = []string{"event!c41.one", "event!c41.two", "event!c41.three"}

func (e item) wrong() string {
	s := text(e.Round, e.Logger, e.N)
	if e.Event != names[(e.Logger+e.N)%3] && "event!"+e.Event != names[(e.Logger+e.N)%3] {
		return "has the name " + e.Event
	}
	if e.Text != s {
		return fmt.Sprintf("has the text %.60q instead of %.60q", e.Text, s)
	}
	if (e.Logger+e.N)%3 == 1 && (len(e.List) != 2 || e.List[0] != s || e.List[1] != "x") {
		return fmt.Sprintf("has the list %.60q", e.List)
	}
	if !strings.Contains(e.Location, "main.go") {
		return "has the location " + e.Location
	}
	return ""
}

type source func(path string) (int, []byte, error)

// direct calls the handler, remote goes through a connection
func direct(path string) (int, []byte, error) {
	rec := httptest.NewRecorder()
	witch.Mux.ServeHTTP(rec, httptest.NewRequest("GET", "http://viewer"+path, nil))
	return rec.Code, rec.Body.Bytes(), nil
}

func remote(base string) source {
	return func(path string) (int, []byte, error) {
		resp, err := http.Get(base + path)
		if err != nil {
			return 0, nil, err
		}
		defer resp.Body.Close()
		body, err := io.ReadAll(resp.Body)
		return resp.StatusCode, body, err
	}
}

// poll gets one answer
func poll(t *vk.T, src source) []item {
	t.Tick()
	code, body, err := src("/witch/more-events")
	if err != nil || code != 200 {
		t.ViolateAsync("answer", "more-events is answered with %d, %v", code, err)
		return nil
	}
	var raw []json.RawMessage
	if err := json.Unmarshal(body, &raw); err != nil {
		t.ViolateAsync("array", "the answer is no JSON array: %v: %.200q", err, body)
		return nil
	}
	var items []item
	for _, r := range raw {
		var e item
		if err := json.Unmarshal(r, &e); err != nil {
			t.ViolateAsync("event", "an event is damaged: %v: %.200q", err, r)
			continue
		}
		items = append(items, e)
	}
	t.Count("answers", 1)
	return items
}

// tracker counts the events of one round
type tracker struct {
	t     *vk.T
	what  string
	round int
	mutex sync.Mutex
	seen  map[[2]int]int
	total int64
}

func newTracker(t *vk.T, what string, round int) *tracker {
	return &tracker{t: t, what: what, round: round, seen: map[[2]int]int{}}
}

// take checks one answer; last is the last event of every logger the poller has seen
func (k *tracker) take(items []item, last map[int]int) {
	k.mutex.Lock()
	defer k.mutex.Unlock()
	for _, e := range items {
		if e.Round != k.round {
			k.t.ViolateAsync("foreign", "%s: an event %v of round %d is delivered in round %d", k.what, e.Event, e.Round, k.round)
			continue
		}
		if e.N < 0 { // wakes a poller up
			continue
		}
		if wrong := e.wrong(); wrong != "" {
			k.t.ViolateAsync("content", "%s: event %d of logger %d %s", k.what, e.N, e.Logger, wrong)
		}
		if prev, ok := last[e.Logger]; ok && prev >= e.N {
			k.t.ViolateAsync("order", "%s: event %d of logger %d is delivered after event %d", k.what, e.N, e.Logger, prev)
		}
		last[e.Logger] = e.N
		if k.seen[[2]int{e.Logger, e.N}]++; k.seen[[2]int{e.Logger, e.N}] > 1 {
			k.t.ViolateAsync("twice", "%s: event %d of logger %d is delivered again", k.what, e.N, e.Logger)
		} else {
			atomic.AddInt64(&k.total, 1)
		}
	}
}

// rounds: loggers and pollers at the same time, nothing is lost or repeated
func rounds(t *vk.T, base string) {
	rng := t.Rng("rounds")
	for i := 0; i < t.N(40, 600) && !t.Violated(); i++ {
		i := i
		round := i + 1
		loggers, pollers := rng.Intn(5)+1, rng.Intn(4)+1
		each := rng.Intn(400) + 1
		if rng.Intn(4) == 0 {
			each = capacity / loggers
		}
		src := source(direct)
		if rng.Intn(3) == 0 {
			src = remote(base)
		}
		pause := time.Duration(rng.Intn(3)) * 100 * time.Microsecond
		before := rng.Intn(2) == 0
		what := fmt.Sprintf("%d loggers of %d events, %d pollers, all logged before: %v", loggers, each, pollers, before)
		t.Begin(func() string { return what })
		k := newTracker(t, what, round)
		var logging, polling sync.WaitGroup
		start := func() {
			for l := 0; l < loggers; l++ {
				l := l
				logging.Add(1)
				go func() {
					defer logging.Done()
					for n := 0; n < each; n++ {
						log(round, l, n)
						if pause > 0 && n%16 == 0 {
							time.Sleep(pause)
						}
					}
				}()
			}
		}
		start()
		if before {
			logging.Wait()
		}
		var stop int32
		var running int32 = int32(pollers)
		for p := 0; p < pollers; p++ {
			polling.Add(1)
			go func() {
				defer polling.Done()
				defer atomic.AddInt32(&running, -1)
				last := map[int]int{}
				for atomic.LoadInt32(&stop) == 0 {
					k.take(poll(t, src), last)
				}
			}()
		}
		logging.Wait()
		want := int64(loggers * each)
		wait := time.Now()
		for atomic.LoadInt64(&k.total) < want {
			time.Sleep(time.Millisecond)
			t.Tick()
			if time.Since(wait) > 30*time.Second {
				t.ViolateAsync("lost", "%s: %d of %d events are not delivered within 30 s", what, want-atomic.LoadInt64(&k.total), want)
				break
			}
		}
		atomic.StoreInt32(&stop, 1)
		// wake the pollers that wait for the next event
		for atomic.LoadInt32(&running) > 0 {
			countlog.Info("event!c41.wake", "round", round, "n", -1)
			time.Sleep(time.Millisecond)
		}
		polling.Wait()
		drain(t, k)
		t.Eval(fmt.Sprint("round", loggers, pollers, each, before))
		t.Count("events", int(want))
		if i < 4 {
			t.Sample("round", what)
		}
	}
}

// drain takes what is left; one more event makes the answer come at once
func drain(t *vk.T, k *tracker) {
	for {
		countlog.Info("event!c41.wake", "round", k.round, "n", -1)
		items := poll(t, direct)
		k.take(items, map[int]int{})
		if len(items) <= 1 {
			return
		}
	}
}

// overflow: nobody polls, logging does not wait and the first events are kept
func overflow(t *vk.T) {
	rng := t.Rng("overflow")
	stderr := os.Stderr
	for i := 0; i < t.N(6, 60) && !t.Violated(); i++ {
		round := 100000 + i
		loggers := rng.Intn(4) + 1
		each := (capacity+rng.Intn(3000))/loggers + rng.Intn(300)
		if i == 0 {
			loggers, each = 1, capacity
		} else if i == 1 {
			loggers, each = 1, capacity+1
		}
		what := fmt.Sprintf("%d loggers of %d events, no poller", loggers, each)
		t.Begin(func() string { return what })
		file, err := os.Create(filepath.Join(t.Scratch("overflow"), fmt.Sprint("stderr", i)))
		if err != nil {
			t.Fatal(err.Error())
		}
		os.Stderr = file
		var wait sync.WaitGroup
		for l := 0; l < loggers; l++ {
			l := l
			wait.Add(1)
			go func() {
				defer wait.Done()
				for n := 0; n < each; n++ {
					log(round, l, n)
				}
			}()
		}
		done := make(chan struct{})
		go func() { wait.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			os.Stderr = stderr
			t.Violate("blocked", "%s: logging waits for the viewer", what)
			return
		}
		os.Stderr = stderr
		file.Close()
		k := newTracker(t, what, round)
		last := map[int]int{}
		want := int64(loggers * each)
		if want > capacity {
			want = capacity
		}
		for atomic.LoadInt64(&k.total) < want {
			items := poll(t, direct)
			if len(items) == 0 {
				break
			}
			k.take(items, last)
		}
		drain(t, k)
		if k.total != want {
			t.ViolateAsync("kept", "%s: %d events are delivered, %d fit in", what, k.total, want)
		}
		for l := 0; l < loggers; l++ {
			n := 0
			for k.seen[[2]int{l, n}] > 0 {
				n++
			}
			for m := n; m < each; m++ {
				if k.seen[[2]int{l, m}] > 0 {
					t.ViolateAsync("prefix", "%s: event %d of logger %d is dropped, event %d is kept", what, n, l, m)
					break
				}
			}
		}
		t.Eval(fmt.Sprint("overflow", loggers, each))
		t.Count("dropped events", loggers*each-int(want))
	}
}

// same: events that are the same in everything, also in time, are as many as were logged
func same(t *vk.T) {
	rng := t.Rng("same")
	site := &spi.LogSite{Event: "event!c41.same", Func: "same", File: "main.go", Line: 1, Sample: []interface{}{"round", 0, "n", 0}}
	handler := countlog.EventWriter.HandlerOf(site)
	for i := 0; i < t.N(30, 300) && !t.Violated(); i++ {
		round := 400000 + i
		counts := make([]int, rng.Intn(4)+1)
		what := "bursts of equal events"
		t.Begin(func() string { return fmt.Sprint(what, " ", counts) })
		total, at := 0, time.Unix(1500000000, int64(i))
		for n := range counts {
			counts[n] = 1 + rng.Intn([]int{4, 100, 1200, 2400}[rng.Intn(4)])
			total += counts[n]
			for j := 0; j < counts[n]; j++ {
				handler.Handle(&spi.Event{Level: countlog.LevelInfo, Timestamp: at, Properties: []interface{}{"round", round, "n", n}})
			}
		}
		got := make([]int, len(counts))
		for sum := 0; sum < total; {
			items := poll(t, direct)
			if len(items) == 0 {
				break
			}
			sum += len(items)
			for _, e := range items {
				if e.Round != round || e.N < 0 || e.N >= len(got) {
					t.ViolateAsync("foreign", "event %d of round %d is delivered in round %d", e.N, e.Round, round)
					continue
				}
				got[e.N]++
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(counts) {
			t.ViolateAsync("same", "%v equal events are delivered instead of %v", got, counts)
		}
		t.Count("equal events", total)
		t.Eval(fmt.Sprint("same", counts))
		drain(t, newTracker(t, what, round))
	}
}

// longPoll: a poller that finds nothing gets the next event
func longPoll(t *vk.T, base string) {
	rng := t.Rng("long")
	for i := 0; i < t.N(15, 100) && !t.Violated(); i++ {
		round := 200000 + i
		src := source(direct)
		if i%2 == 0 {
			src = remote(base)
		}
		answer := make(chan []item, 1)
		t.Begin(func() string { return "a poller waits for the next event" })
		begin := time.Now()
		go func() { answer <- poll(t, src) }()
		time.Sleep(time.Duration(rng.Intn(400)) * time.Millisecond)
		early := false
		select {
		case items := <-answer:
			early = true
			if len(items) > 0 || time.Since(begin) < 5*time.Second {
				t.ViolateAsync("early", "the poller gets %d events before there is one", len(items))
			}
		default:
		}
		if early {
			continue
		}
		log(round, 0, 0)
		select {
		case items := <-answer:
			// an empty answer is right only when the waiting ran out, after 10 s
			if len(items) == 0 && time.Since(begin) > 5*time.Second {
				drain(t, newTracker(t, "after waiting", round))
			} else if len(items) != 1 || items[0].Round != round {
				t.ViolateAsync("next", "the poller gets %d events instead of the next one", len(items))
			}
		case <-time.After(60 * time.Second):
			t.ViolateAsync("never", "the poller does not get the next event within 60 s")
		}
		t.Eval(fmt.Sprint("long", i%10))
	}
	begin := time.Now()
	t.Begin(func() string { return "a poller waits and nothing is logged" })
	items := poll(t, direct)
	if len(items) != 0 {
		t.ViolateAsync("nothing", "%d events are delivered although none is logged", len(items))
	}
	if wait := time.Since(begin); wait > 60*time.Second {
		t.ViolateAsync("timeout", "the empty answer takes %v", wait)
	}
	t.Eval("timeout")
}

// lastMoment: the first event comes just before the pollers give up, on a processor that is busy until after it
func lastMoment(t *vk.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for i := 0; i < t.N(1, 6) && !t.Violated(); i++ {
		round, pollers := 300000+i, 4+4*(i%3)
		t.Begin(func() string { return fmt.Sprintf("%d pollers get their first event just before 10 s", pollers) })
		k := newTracker(t, "events just before the end of waiting", round)
		var polling sync.WaitGroup
		start := time.Now()
		for p := 0; p < pollers; p++ {
			polling.Add(1)
			go func() {
				defer polling.Done()
				k.take(poll(t, direct), map[int]int{})
			}()
		}
		for time.Since(start) < 9*time.Second {
			time.Sleep(500 * time.Millisecond)
			t.Tick()
		}
		time.Sleep(10*time.Second - time.Duration(2+2*(i%3))*time.Millisecond - time.Since(start))
		for n := 0; n < pollers; n++ {
			log(round, 0, n)
		}
		for time.Since(start) < 10*time.Second+5*time.Millisecond {
		}
		polling.Wait()
		drain(t, k)
		if k.total != int64(pollers) {
			t.ViolateAsync("last moment", "%d of %d events that are logged while the waiting of the pollers ends are delivered", k.total, pollers)
		}
		t.Eval(fmt.Sprint("last moment", pollers))
		t.Count("events", pollers)
	}
}

func pages(t *vk.T, base string) {
	webroot := "/repo/witch/webroot"
	files, err := filepath.Glob(filepath.Join(webroot, "*.html"))
	if err != nil || len(files) < 2 {
		t.Fatal("no webroot")
	}
	for _, src := range []source{direct, remote(base)} {
		for _, path := range []string{"/witch/", "/witch/anything"} {
			code, body, err := src(path)
			if err != nil || code != 200 {
				t.ViolateAsync("page", "%s is answered with %d, %v", path, code, err)
				continue
			}
			for _, name := range files {
				content, err := os.ReadFile(name)
				if err != nil {
					t.Fatal(err.Error())
				}
				parts := bytes.Split(content, []byte("{{ COMPONENTS }}"))
				for _, part := range parts {
					if n := bytes.Count(body, part); n < 1 {
						t.ViolateAsync("component", "%s lacks %s", path, filepath.Base(name))
					}
				}
				t.Eval("page " + filepath.Base(name))
			}
			if bytes.Contains(body, []byte("{{ COMPONENTS }}")) {
				t.ViolateAsync("placeholder", "%s still has the placeholder of the components", path)
			}
		}
		code, body, err := src("/witch/expvar")
		vars := map[string]json.RawMessage{}
		if err != nil || code != 200 || json.Unmarshal(body, &vars) != nil || string(vars["c41 state"]) != `"published"` {
			t.ViolateAsync("expvar", "/witch/expvar is answered with %d, %v: %.100q", code, err, body)
		}
		t.Eval("expvar")
	}
}

func run(t *vk.T) {
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &jsonformat.JsonFormat{}, Writer: io.Discard})
	expvar.NewString("c41 state").Set("published")
	listener, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err.Error())
	}
	addr := listener.Addr().String()
	listener.Close()
	witch.Start(addr)
	base := "http://" + addr
	up := false
	for begin := time.Now(); time.Since(begin) < 30*time.Second && !up; time.Sleep(10 * time.Millisecond) {
		resp, err := http.Get(base + "/witch/expvar")
		if err == nil {
			resp.Body.Close()
			up = true
		}
	}
	if !up {
		t.Violate("listen", "nothing listens at the address the viewer was started with")
		return
	}
	pages(t, base)
	longPoll(t, base)
	rounds(t, base)
	same(t)
	overflow(t)
	lastMoment(t)
}

func main() {
	vk.Main(vk.Check{
		ID:            "C41",
		Rule:          "The viewer is started; numbered events with hostile texts are logged by several goroutines while several pollers read more-events, through the handler and through a connection. Every answer must be one JSON array, and a conservation monitor checks over all answers of a round that every event is delivered exactly once, unchanged, and in the order of its logger for every poller. Bursts of events that are equal in everything are delivered as often as they were logged. Without pollers the logging must not wait and exactly the first 10240 events are kept. Waiting polls get the next event, also one that comes just before they give up on a busy processor. The page must contain every component.",
		Assumptions:   []string{"the viewer is started before the event names are used for the first time", "a poller reads its answers one after the other"},
		MinNontrivial: 10,
		Run:           run,
	})
}
