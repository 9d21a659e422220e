package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/stats"
)

// ledger is the collector, it keeps every point
type ledger struct {
	t      *vk.T
	mutex  sync.Mutex
	sums   map[string]float64 // event + dimension => sum
	points int
	kept   []*stats.Point // the points might be reused by mistake, so they are looked at again later
	keys   []string
}

func keyOf(event string, dimension []string) string {
	return fmt.Sprintf("%q %q", event, dimension)
}

func (l *ledger) Collect(point *stats.Point) {
	key := keyOf(point.Event, point.Dimension)
	if point.Value < 0 || point.Value != float64(int64(point.Value)) {
		l.t.ViolateAsync("value", "point %s has value %v", key, point.Value)
	}
	l.mutex.Lock()
	defer l.mutex.Unlock()
	l.sums[key] += point.Value
	l.points++
	if len(l.kept) < 20000 {
		l.kept = append(l.kept, point)
		l.keys = append(l.keys, key)
	}
	runtime.Gosched()
}

func (l *ledger) compare(want map[string]float64) (missing []string, extra []string) {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	for key, n := range want {
		if l.sums[key] < n {
			missing = append(missing, fmt.Sprintf("%s: %v of %v", key, l.sums[key], n))
		}
		if l.sums[key] > n {
			extra = append(extra, fmt.Sprintf("%s: %v of %v", key, l.sums[key], n))
		}
	}
	for key, n := range l.sums {
		if _, found := want[key]; !found && n != 0 {
			extra = append(extra, fmt.Sprintf("%s: %v, never logged", key, n))
		}
	}
	return missing, extra
}

// unwritable can not be written, which is no reason not to count the event
type unwritable struct{}

func (unwritable) MarshalJSON() ([]byte, error) { panic("unwritable") }

type city struct{ name string }

func (c city) String() string { return "city of " + c.name }

// dimValue makes a dimension value and its text
func dimValue(rng *rand.Rand, kind int, few int) (interface{}, string) {
	n := rng.Intn(few)
	switch kind {
	case 0:
		s := fmt.Sprintf("v%d", n)
		return s, s
	case 1:
		return n, fmt.Sprint(n)
	case 2:
		return n%2 == 0, fmt.Sprint(n%2 == 0)
	case 3:
		return city{fmt.Sprint(n)}, fmt.Sprintf("city of %d", n)
	case 4:
		return uint8(n), fmt.Sprint(n)
	case 5:
		s := strings.Repeat("x", n)
		return s, s
	case 6:
		return int64(-n), fmt.Sprint(-n)
	case 8:
		// they differ at the end only
		s := strings.Repeat("long ", 1+n/2*200) + fmt.Sprint(n)
		return s, s
	case 9:
		s := fmt.Sprintf("%0400d", n)
		return s, s
	default:
		// the buffer is overwritten by the caller afterwards
		buf := []byte(fmt.Sprintf("buf%d", n))
		return *(*string)(unsafe.Pointer(&buf)), string(buf)
	}
}

// series is one way to log a counted event
type series struct {
	event string
	keys  []string // in order of the event
	kinds []int
	dims  []string // in order of the dim property
	extra int
	late  bool     // agg and dim after the values
	other []string // dimensions at the other call site of the event, with the same keys and types
	maybe bool     // the event is also logged with another aggregation
	bad   bool     // one of the properties can not be written
}

func newSeries(rng *rand.Rand, id string) *series {
	s := &series{event: "event!" + id, extra: rng.Intn(3), late: rng.Intn(2) == 0}
	n := []int{0, 1, 1, 2, 2, 3, 4, 5, 6}[rng.Intn(9)]
	for i := 0; i < n+rng.Intn(2); i++ {
		s.keys = append(s.keys, fmt.Sprintf("d%d", i))
		s.kinds = append(s.kinds, rng.Intn(10))
	}
	s.dims = append(s.dims, s.keys...)
	s.other = append([]string(nil), s.dims...)
	rng.Shuffle(len(s.other), func(i, j int) { s.other[i], s.other[j] = s.other[j], s.other[i] })
	s.dims = s.dims[:n]
	if n > 0 && rng.Intn(3) == 0 {
		s.other = s.other[:1+rng.Intn(len(s.other))]
	} else {
		s.other = nil
	}
	s.maybe = rng.Intn(4) == 0
	s.bad = rng.Intn(6) == 0
	rng.Shuffle(len(s.dims), func(i, j int) { s.dims[i], s.dims[j] = s.dims[j], s.dims[i] })
	rng.Shuffle(len(s.keys), func(i, j int) {
		s.keys[i], s.keys[j] = s.keys[j], s.keys[i]
		s.kinds[i], s.kinds[j] = s.kinds[j], s.kinds[i]
	})
	return s
}

func isDim(dims []string, key string) bool {
	for _, dim := range dims {
		if dim == key {
			return true
		}
	}
	return false
}

func (s *series) log(rng *rand.Rand, few int, ctx *countlog.Context) string {
	var props []interface{}
	var dimension []string
	dims := s.dims
	if s.other != nil && rng.Intn(2) == 0 {
		dims = s.other
	}
	agg := "counter"
	if s.maybe && rng.Intn(2) == 0 {
		agg = []string{"none", "histogram"}[rng.Intn(2)]
	}
	head := []interface{}{"agg", agg}
	if len(dims) > 0 {
		head = append(head, "dim", strings.Join(dims, ","))
	}
	if !s.late {
		props = append(props, head...)
	}
	for i := 0; i < s.extra; i++ {
		props = append(props, fmt.Sprintf("extra%d", i), rng.Intn(1000))
	}
	if s.bad && rng.Intn(2) == 0 {
		props = append(props, "bad", unwritable{})
	}
	var reused []string
	for i, key := range s.keys {
		value, text := dimValue(rng, s.kinds[i], few)
		props = append(props, key, value)
		if buf, isText := value.(string); isText && s.kinds[i] == 7 {
			reused = append(reused, buf)
		}
		if isDim(dims, key) {
			dimension = append(dimension, key, text)
		}
	}
	if s.late {
		props = append(props, head...)
	}
	switch rng.Intn(3) {
	case 0:
		countlog.Info(s.event, props...)
	case 1:
		countlog.Trace(s.event, props...)
	default:
		ctx.Warn(s.event, props...)
	}
	for _, buf := range reused {
		overwrite(buf)
	}
	if agg != "counter" {
		return ""
	}
	return keyOf(s.event, dimension)
}

// overwrite reuses the buffer of the text, as servers do with their requests
func overwrite(text string) {
	var buf []byte
	*(*string)(unsafe.Pointer(&buf)) = text
	(*[3]uintptr)(unsafe.Pointer(&buf))[2] = uintptr(len(text))
	for i := range buf {
		buf[i] = '#'
	}
}

func round(t *vk.T, n int) {
	rng := t.Rng(fmt.Sprint("round", n))
	l := &ledger{t: t, sums: map[string]float64{}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	exporters := 0
	var exporterMutex sync.Mutex
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
		Collector: l,
		Executor: func(f func(ctx context.Context)) {
			exporterMutex.Lock()
			exporters++
			exporterMutex.Unlock()
			go f(ctx)
		},
	})
	lines := &hx.Lines{}
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: lines})
	var all []*series
	for i := 0; i < 30; i++ {
		all = append(all, newSeries(rng, fmt.Sprintf("r%d s%d", n, i)))
		if i%5 == 0 && i > 0 {
			// the same event with another set of properties
			again := newSeries(rng, fmt.Sprintf("r%d s%d", n, i-1))
			all = append(all, again)
		}
	}
	goroutines := 25
	seconds := 2500 * time.Millisecond
	wants := make([]map[string]float64, goroutines)
	var wg sync.WaitGroup
	start := time.Now()
	for g := 0; g < goroutines; g++ {
		g := g
		own := t.Rng(fmt.Sprint("round", n, "-", g))
		wants[g] = map[string]float64{}
		wg.Add(1)
		if g == 24 {
			// a crowd: one goroutine counts by thousands of values, some of them only once
			go func() {
				defer wg.Done()
				event := fmt.Sprintf("event!r%d crowd", n)
				values := 1500 + own.Intn(3000)
				for round := 0; round < 3; round++ {
					for i := 0; i < values; i += 1 + own.Intn(1+2*round) {
						value := fmt.Sprint("user ", i)
						countlog.Info(event, "agg", "counter", "dim", "user", "user", value)
						wants[g][keyOf(event, []string{"user", value})]++
						if i%100 == 0 {
							t.Tick()
						}
					}
					time.Sleep(time.Duration(own.Intn(1100)) * time.Millisecond)
				}
				t.Count("crowd", values)
			}()
			continue
		}
		go func() {
			defer wg.Done()
			lc := countlog.Ctx(context.Background())
			var inner sync.WaitGroup
			var mutex sync.Mutex
			each := t.N(900, 900)
			for i := 0; i < each; i++ {
				s := all[own.Intn(len(all))]
				if own.Intn(10) == 0 {
					// from a goroutine of its own, to reach every shard
					seed := own.Int63()
					inner.Add(1)
					go func() {
						defer inner.Done()
						key := s.log(rand.New(rand.NewSource(seed)), 6, countlog.Ctx(context.Background()))
						mutex.Lock()
						if key != "" {
							wants[g][key]++
						}
						mutex.Unlock()
					}()
				} else {
					key := s.log(own, 6, lc)
					mutex.Lock()
					if key != "" {
						wants[g][key]++
					}
					mutex.Unlock()
				}
				if i%50 == 0 {
					t.Tick()
				}
				// spread over several exports
				if ahead := time.Duration(i)*seconds/time.Duration(each) - time.Since(start); ahead > 0 {
					time.Sleep(ahead)
				}
			}
			inner.Wait()
		}()
	}
	wg.Wait()
	want := map[string]float64{}
	logged := 0
	for _, part := range wants {
		for key, count := range part {
			want[key] += count
			logged += int(count)
		}
	}
	// everything is exported sooner or later
	var missing, extra []string
	for i := 0; i < 300; i++ {
		missing, extra = l.compare(want)
		if len(extra) > 0 || len(missing) == 0 {
			break
		}
		t.Tick()
		time.Sleep(100 * time.Millisecond)
	}
	if len(missing) == 0 {
		// and not once more
		time.Sleep(2300 * time.Millisecond)
		missing, extra = l.compare(want)
	}
	if len(missing) > 0 {
		t.ViolateAsync("lost", "round %d: %d combinations lost counts, for example %s", n, len(missing), missing[0])
	}
	if len(extra) > 0 {
		t.ViolateAsync("invented", "round %d: %d combinations have too many counts, for example %s", n, len(extra), extra[0])
	}
	l.mutex.Lock()
	for i, point := range l.kept {
		if keyOf(point.Event, point.Dimension) != l.keys[i] {
			t.ViolateAsync("changed", "round %d: point %s changed to %s after it was collected", n, l.keys[i], keyOf(point.Event, point.Dimension))
			break
		}
	}
	for key := range want {
		t.Eval(fmt.Sprint(n%4, key))
	}
	t.Count("events_counted", logged)
	t.Count("points_collected", l.points)
	t.Count("combinations", len(want))
	exporterMutex.Lock()
	t.Count("exporters", exporters)
	exporterMutex.Unlock()
	sample := ""
	for key, n := range want {
		sample = fmt.Sprintf("%s => %v", key, n)
		break
	}
	t.Sample("round", map[string]interface{}{"events": logged, "combinations": len(want), "points": l.points, "for_example": sample})
	l.mutex.Unlock()
}

func main() {
	vk.Main(vk.Check{
		ID:            "C11",
		Rule:          "rounds of 24 goroutines (plus one-off goroutines, and one that counts by thousands of values) logging about 20000 events of 36 counted series (0..6 dimensions of 8 kinds of values, in any order, with other properties in between, the same event also with other dimensions, with other keys and with the same, with aggregations that count nothing, and with properties that can not be written) spread over three exports. Conservation: per event and combination the collected points sum up to what was logged, nothing else is collected, nothing is collected twice afterwards. Race detector on. Non trivial: distinct combinations.",
		Assumptions:   []string{"an event with another value of agg than counter is not counted"},
		MinNontrivial: 100,
		StallSeconds:  120,
		Run: func(t *vk.T) {
			countlog.SetMinLevel(0)
			for n := 0; n < t.N(2, 40) && !t.Violated(); n++ {
				t.Begin(func() string { return fmt.Sprintf("round %d", n) })
				round(t, n)
			}
		},
	})
}
