package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
)

type arrival struct {
	at    time.Time
	until time.Time
	point stats.Point
}

type collector struct {
	mutex    sync.Mutex
	arrivals []arrival
	slow     time.Duration
	slept    bool
}

func (c *collector) Collect(point *stats.Point) {
	defer c.sleep()
	c.mutex.Lock()
	copied := *point
	copied.Dimension = append([]string(nil), point.Dimension...)
	c.arrivals = append(c.arrivals, arrival{at: time.Now(), point: copied})
	c.mutex.Unlock()
}

// sleep makes the first collecting take some exports
func (c *collector) sleep() {
	if c.slow == 0 || c.slept {
		return
	}
	c.slept = true
	time.Sleep(c.slow)
	c.mutex.Lock()
	c.arrivals[len(c.arrivals)-1].until = time.Now()
	c.mutex.Unlock()
}

// slowCollector: after one slow export the points carry the time of their export again
func slowCollector(t *vk.T, id string, slow time.Duration) {
	c := &collector{slow: slow}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	event := "event!" + id
	mutex.Lock()
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
		Collector: c,
		Executor:  func(f func(ctx context.Context)) { go f(ctx) },
	})
	countlog.Info(event, "agg", "counter")
	mutex.Unlock()
	n := 1
	begin := time.Now()
	for {
		countlog.Info(event, "agg", "counter")
		n++
		c.mutex.Lock()
		count := len(c.arrivals)
		c.mutex.Unlock()
		if count >= 5 && c.sum(event) > 1 {
			break
		}
		if time.Since(begin) > 40*time.Second {
			t.ViolateAsync("slow-collector", "%s: %d exports within 40 seconds although collecting took %v only once", id, count, slow)
			return
		}
		t.Tick()
		time.Sleep(50 * time.Millisecond)
	}
	for c.sum(event) != float64(n) {
		if time.Since(begin) > 70*time.Second {
			t.ViolateAsync("not-exported", "%s: %v of %v counts were exported", id, c.sum(event), n)
			return
		}
		t.Tick()
		time.Sleep(20 * time.Millisecond)
	}
	arrivals := c.take()
	for i, a := range arrivals {
		if a.point.Timestamp.After(a.at) {
			t.ViolateAsync("timestamp", "%s: point collected at %v has timestamp %v", id, a.at, a.point.Timestamp)
		}
		// the export right after the slow one might have been due in the meantime
		if i >= 2 && a.point.Timestamp.Before(arrivals[0].until) {
			t.ViolateAsync("timestamp", "%s: point %d collected at %v has timestamp %v, before the end of the slow export at %v", id, i, a.at, a.point.Timestamp, arrivals[0].until)
		}
	}
	t.Eval(id)
	t.Count("points", len(arrivals))
	t.Count("slow_exports", 1)
}

func (c *collector) take() []arrival {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	taken := c.arrivals
	c.arrivals = nil
	return taken
}

func (c *collector) sum(event string) (sum float64) {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	for _, a := range c.arrivals {
		if a.point.Event == event {
			sum += a.point.Value
		}
	}
	return sum
}

func log(event string, kind int) {
	switch kind % 3 {
	case 0:
		countlog.Info(event, "agg", "counter")
	case 1:
		countlog.Warn(event, "agg", "counter", "dim", "k", "k", "v")
	default:
		countlog.Trace(event, "a", "x", "agg", "counter", "dim", "a,b", "b", 3)
	}
}

// lifetime: counts keep arriving as long as the context lives, and stop when it ends
func lifetime(t *vk.T, id string, waves int) {
	c := &collector{}
	ctx, cancel := context.WithCancel(context.Background())
	running := int64(0)
	aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{
		Collector: c,
		Executor: func(f func(ctx context.Context)) {
			atomic.AddInt64(&running, 1)
			go func() {
				defer atomic.AddInt64(&running, -1)
				f(ctx)
			}()
		},
	})
	mutex.Lock()
	countlog.EventAggregator = aggregator
	// the handlers are created with the aggregator at the time of first event
	started := time.Now()
	events := []string{}
	for i := 0; i < 3; i++ {
		// names of all lengths
		event := fmt.Sprintf("event!%s.%d", id, i) + strings.Repeat([]string{"", " long name {k}", "名é\n"}[i], len(id)*len(id)*waves/(i+1))
		events = append(events, event)
		log(event, i)
	}
	mutex.Unlock()
	logged := map[string]float64{}
	for _, event := range events {
		logged[event]++
	}
	slowest := time.Duration(0)
	for wave := 0; wave < waves; wave++ {
		begin := time.Now()
		for i, event := range events {
			n := 1 + (wave+i)%4
			for j := 0; j < n; j++ {
				log(event, i)
			}
			logged[event] += float64(n)
		}
		complete := func() bool {
			for _, event := range events {
				if c.sum(event) != logged[event] {
					return false
				}
			}
			return true
		}
		for !complete() {
			if time.Since(begin) > 25*time.Second {
				for _, event := range events {
					if sum := c.sum(event); sum != logged[event] {
						t.ViolateAsync("not-exported", "%s wave %d: %v of %v counts of %q were exported within 25 seconds", id, wave, sum, logged[event], event)
					}
				}
				cancel()
				return
			}
			t.Tick()
			time.Sleep(20 * time.Millisecond)
		}
		if took := time.Since(begin); took > slowest {
			slowest = took
		}
		t.Eval(fmt.Sprintf("%s wave %d", id, wave))
	}
	if n := atomic.LoadInt64(&running); n == 0 {
		t.ViolateAsync("exporter-ended", "%s: no exporter is running while the context lives", id)
	}
	cancel()
	ended := time.Now()
	for atomic.LoadInt64(&running) > 0 {
		if time.Since(ended) > 25*time.Second {
			t.ViolateAsync("exporter-leaked", "%s: %d exporters still running 25 seconds after the context ended", id, atomic.LoadInt64(&running))
			return
		}
		t.Tick()
		time.Sleep(10 * time.Millisecond)
	}
	arrivals := c.take()
	ticks := map[time.Time]bool{}
	for _, a := range arrivals {
		known := false
		for i, event := range events {
			if a.point.Event == event {
				known = true
				want := [][]string{nil, {"k", "v"}, {"a", "x", "b", "3"}}[i]
				if fmt.Sprint(a.point.Dimension) != fmt.Sprint(want) {
					t.ViolateAsync("dimension", "%s: point of %q has dimension %q instead of %q", id, event, a.point.Dimension, want)
				}
			}
		}
		if !known {
			t.ViolateAsync("event-name", "%s: point with event name %q", id, a.point.Event)
		}
		// the export time is taken shortly before the point is collected
		if a.point.Timestamp.Before(started) || a.point.Timestamp.After(a.at) {
			t.ViolateAsync("timestamp", "%s: point collected at %v has timestamp %v (first event logged at %v)", id, a.at, a.point.Timestamp, started)
		}
		ticks[a.point.Timestamp] = true
		late := int64(a.at.Sub(a.point.Timestamp))
		for old := atomic.LoadInt64(&latest); late > old && !atomic.CompareAndSwapInt64(&latest, old, late); old = atomic.LoadInt64(&latest) {
		}
	}
	// about once a second: never much more often
	lived := ended.Sub(started)
	if most := 3 * (int(lived/time.Second) + 2); len(ticks) > 2*most {
		t.ViolateAsync("too-often", "%s: %d exports of 3 events in %v", id, len(ticks), lived)
	}
	// nothing is exported any more, but logging goes on
	for i, event := range events {
		log(event, i)
	}
	time.Sleep(2500 * time.Millisecond)
	if late := c.take(); len(late) > 0 {
		t.ViolateAsync("exported-after-end", "%s: %d points exported after the context ended", id, len(late))
	}
	t.Count("points", len(arrivals))
	t.Count("distinct_export_times", len(ticks))
	t.CountMax("slowest_export_ms", int(slowest/time.Millisecond))
	t.Sample("lifetime", map[string]interface{}{"id": id, "waves": waves, "points": len(arrivals), "export_times": len(ticks)})
}

var mutex sync.Mutex

// latest is the longest time from export time to collecting, of collectors that are not slow
var latest int64

// watch returns the longest time this process did not get its turn
func watch(stop chan struct{}) (starved time.Duration) {
	for last := time.Now(); ; {
		select {
		case <-stop:
			return starved
		default:
		}
		time.Sleep(5 * time.Millisecond)
		now := time.Now()
		if gap := now.Sub(last); gap > starved {
			starved = gap
		}
		last = now
	}
}

// cadence compares the exports of a steadily counted event with the ticks of another ticker
func cadence(t *vk.T, id string, length time.Duration) {
	c := &collector{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	event := "event!" + id
	mutex.Lock()
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
		Collector: c,
		Executor:  func(f func(ctx context.Context)) { go f(ctx) },
	})
	countlog.Info(event, "agg", "counter")
	mutex.Unlock()
	ticker := time.NewTicker(time.Second)
	defer ticker.Stop()
	begin := time.Now()
	control := 0
	starved := 0
	last := begin
	for time.Since(begin) < length {
		select {
		case <-ticker.C:
			control++
		default:
		}
		countlog.Info(event, "agg", "counter")
		t.Tick()
		time.Sleep(5 * time.Millisecond)
		if time.Since(last) > 300*time.Millisecond {
			starved++
		}
		last = time.Now()
	}
	times := map[time.Time]bool{}
	for _, a := range c.take() {
		times[a.point.Timestamp] = true
	}
	t.Eval(id)
	t.Count("cadence_exports", len(times))
	t.Count("cadence_control_ticks", control)
	if starved > 0 {
		// too busy to judge
		t.Count("cadence_not_judged", 1)
		return
	}
	if len(times) < control*6/10-1 || len(times) > control*3/2+2 {
		t.ViolateAsync("cadence", "%s: %d exports while another ticker of one second had %d ticks", id, len(times), control)
	}
}

// idle: counting goes on after a while without any event
func idle(t *vk.T, id string, pauses []time.Duration, atFirst bool) {
	c := &collector{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	event := "event!" + id
	aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{
		Collector: c,
		Executor:  func(f func(ctx context.Context)) { go f(ctx) },
	})
	kv := []interface{}{"agg", "counter", "dim", "k", "k", "v"}
	handler := aggregator.HandlerOf(&spi.LogSite{Event: event, Sample: kv})
	counted := 0
	for i, pause := range pauses {
		if i > 0 || atFirst {
			for begin := time.Now(); time.Since(begin) < pause; time.Sleep(50 * time.Millisecond) {
				t.Tick()
			}
		}
		for n := 1 + i; n > 0; n-- {
			handler.Handle(&spi.Event{Level: spi.LevelInfo, Timestamp: time.Now(), Properties: kv})
			counted++
		}
		for begin := time.Now(); c.sum(event) != float64(counted); time.Sleep(20 * time.Millisecond) {
			t.Tick()
			if time.Since(begin) > 25*time.Second {
				t.ViolateAsync("not-exported", "%s: %v of %v counts were exported within 25 seconds after %v without any", id, c.sum(event), counted, pause)
				return
			}
		}
		t.Eval(fmt.Sprint(id, i))
		t.Count("pauses", 1)
	}
}

// busyCollector logs counted events itself, or is stuck for a while
type busyCollector struct {
	collector
	event string
	again int64
	gate  chan struct{}
	stuck chan struct{}
	once  sync.Once
}

func (c *busyCollector) Collect(point *stats.Point) {
	c.collector.Collect(point)
	if point.Value > 0 && atomic.AddInt64(&c.again, -1) >= 0 {
		countlog.Info(c.event, "agg", "counter")
	}
	if c.gate != nil {
		c.once.Do(func() {
			close(c.stuck)
			<-c.gate
		})
	}
}

// unhindered: whatever the collector does, log calls of all goroutines return
func unhindered(t *vk.T, id string, again int, stuck bool) {
	event := "event!" + id
	c := &busyCollector{event: event, again: int64(again)}
	if stuck {
		c.gate = make(chan struct{})
		c.stuck = make(chan struct{})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mutex.Lock()
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
		Collector: c,
		Executor:  func(f func(ctx context.Context)) { go f(ctx) },
	})
	countlog.Info(event, "agg", "counter")
	mutex.Unlock()
	counted := int64(1)
	logAll := func(what string) bool {
		// consecutive goroutines count in all shards
		var wg sync.WaitGroup
		for i := 0; i < 64; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				countlog.Info(event, "agg", "counter")
				atomic.AddInt64(&counted, 1)
			}()
		}
		returned := make(chan struct{})
		go func() { wg.Wait(); close(returned) }()
		for begin := time.Now(); ; {
			select {
			case <-returned:
				return true
			case <-time.After(50 * time.Millisecond):
				t.Tick()
			}
			if time.Since(begin) > 30*time.Second {
				t.ViolateAsync("log-blocked", "%s: log calls did not return within 30 seconds %s", id, what)
				return false
			}
		}
	}
	if stuck {
		for begin := time.Now(); ; t.Tick() {
			select {
			case <-c.stuck:
			case <-time.After(50 * time.Millisecond):
				if time.Since(begin) < 25*time.Second {
					continue
				}
				t.ViolateAsync("not-exported", "%s: nothing was exported within 25 seconds", id)
				return
			}
			break
		}
		ok := logAll("while the collector was stuck")
		close(c.gate)
		if !ok {
			return
		}
	}
	for wave := 0; wave < 4; wave++ {
		if !logAll("while the collector logged events") {
			return
		}
		time.Sleep(400 * time.Millisecond)
	}
	for begin := time.Now(); ; time.Sleep(20 * time.Millisecond) {
		t.Tick()
		left := atomic.LoadInt64(&c.again)
		if left < 0 {
			left = 0
		}
		want := float64(atomic.LoadInt64(&counted) + int64(again) - left)
		got := c.sum(event)
		if got == want && left == 0 {
			break
		}
		if time.Since(begin) > 40*time.Second {
			t.ViolateAsync("not-exported", "%s: %v of %v counts were exported, the collector has still %d of %d events to log", id, got, want, left, again)
			return
		}
	}
	t.Eval(id)
	t.Count("events_logged_by_collectors", again)
	if stuck {
		t.Count("stuck_exports", 1)
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C12",
		Rule:          "lifetimes of aggregators with a recording collector and an executor whose context is cancelled at the end: 2..6 waves of counting, each must reach the collector exactly (sum per event) before the next starts; points are checked for name, dimension and export time (not in the future, nor long ago unless the process was starved); collectors of which one export takes 4 seconds and more, after which the export times are right again; collectors that log events of the very counter or that are stuck, while 64 goroutines count; an event counted steadily is exported about as often as an independent ticker of one second ticks; events counted after pauses of several seconds are exported as well; after cancellation the exporters end and nothing more arrives. Without collector no exporter is started. Non trivial: every completed wave of a lifetime.",
		Assumptions:   []string{"about once a second is judged as within 25 seconds each time, and as 0.6 to 1.5 times the ticks of an independent ticker on average, unless the process was starved"},
		MinNontrivial: 4,
		StallSeconds:  120,
		Run: func(t *vk.T) {
			countlog.SetMinLevel(0)
			lines := &hx.Lines{}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: lines})
			t.Begin(func() string { return "without collector" })
			started := int64(0)
			countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
				Executor: func(f func(ctx context.Context)) { atomic.AddInt64(&started, 1) },
			})
			for i := 0; i < 30; i++ {
				log(fmt.Sprintf("event!disabled%d", i%6), i)
			}
			if got := lines.Take(); len(got) != 30 {
				t.Violate("disabled-output", "%d of 30 events were output without collector", len(got))
			}
			if started != 0 {
				t.Violate("disabled-started", "%d exporters were started without collector", started)
			}
			t.Begin(func() string { return "lifetimes" })
			var wg sync.WaitGroup
			stop, starved := make(chan struct{}), make(chan time.Duration)
			go func() { starved <- watch(stop) }()
			for i := 0; i < t.N(12, 40); i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(i*87) * time.Millisecond)
					lifetime(t, fmt.Sprint("life", i), 2+i%t.N(5, 60))
				}()
			}
			for i := 0; i < t.N(2, 6); i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(i*137) * time.Millisecond)
					slowCollector(t, fmt.Sprint("slow", i), time.Duration(4+i)*time.Second)
				}()
			}
			for i := 0; i < t.N(4, 16); i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(i*211) * time.Millisecond)
					unhindered(t, fmt.Sprint("busy", i), 5+40*(i/2), i%2 == 1)
				}()
			}
			for i := 0; i < 2; i++ {
				i := i
				wg.Add(2)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(i*333) * time.Millisecond)
					cadence(t, fmt.Sprint("cadence", i), time.Duration(t.N(15, 90))*time.Second)
				}()
				go func() {
					defer wg.Done()
					pauses := []time.Duration{6500 * time.Millisecond, 3 * time.Second, 4200 * time.Millisecond}
					if t.Thorough() {
						pauses = append(pauses, 11*time.Second, 31*time.Second, 62*time.Second)
					}
					idle(t, fmt.Sprint("idle", i), pauses, i == 0)
				}()
			}
			wg.Wait()
			close(stop)
			gap, late := <-starved, time.Duration(atomic.LoadInt64(&latest))
			if gap > 100*time.Millisecond {
				// too busy to judge
				t.Count("lateness_not_judged", 1)
			} else if late > 400*time.Millisecond {
				t.Violate("timestamp", "a point is collected %v after the time it carries, although this process got its turn every %v at least", late, gap)
			}
			t.CountMax("latest_point_ms", int(late/time.Millisecond))
			t.CountMax("longest_starvation_ms", int(gap/time.Millisecond))
			t.Begin(func() string { return "default executor" })
			c := &collector{}
			countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: c})
			for wave := 1; wave <= 3; wave++ {
				countlog.Info("event!default", "agg", "counter")
				begin := time.Now()
				for c.sum("event!default") != float64(wave) {
					if time.Since(begin) > 25*time.Second {
						t.Violate("default-executor", "wave %d: %v of %v counts were exported within 25 seconds", wave, c.sum("event!default"), wave)
						break
					}
					t.Tick()
					time.Sleep(20 * time.Millisecond)
				}
				t.Eval(fmt.Sprint("default", wave))
			}
		},
	})
}
