package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/async"
)

// gated lets messages through only while the gate is open
type gated struct {
	mutex    sync.Mutex
	cond     *sync.Cond
	open     bool
	inside   int
	received []string
	slow     *rand.Rand
	panics   *rand.Rand
	pause    time.Duration
}

func newGated() *gated {
	g := &gated{}
	g.cond = sync.NewCond(&g.mutex)
	return g
}

func (g *gated) Write(buf []byte) (int, error) {
	g.mutex.Lock()
	g.inside++
	g.cond.Broadcast()
	for !g.open {
		g.cond.Wait()
	}
	g.received = append(g.received, string(buf))
	slow := g.slow
	g.cond.Broadcast()
	g.mutex.Unlock()
	if slow != nil {
		time.Sleep(time.Duration(slow.Intn(200)) * time.Microsecond)
	}
	time.Sleep(g.pause)
	if g.panics != nil && g.panics.Intn(8) == 0 {
		panic("planned panic")
	}
	return len(buf), nil
}

func (g *gated) waitInside(n int) {
	g.mutex.Lock()
	for g.inside < n {
		g.cond.Wait()
	}
	g.mutex.Unlock()
}

func (g *gated) setOpen(open bool) {
	g.mutex.Lock()
	g.open = open
	g.cond.Broadcast()
	g.mutex.Unlock()
}

func (g *gated) waitReceived(n int) {
	g.mutex.Lock()
	for len(g.received) < n {
		g.cond.Wait()
	}
	g.mutex.Unlock()
}

type drops struct {
	mutex sync.Mutex
	msgs  []string
}

func (d *drops) add(msg []byte) {
	d.mutex.Lock()
	d.msgs = append(d.msgs, string(msg))
	d.mutex.Unlock()
}

func payload(rng *rand.Rand, p, i int) string {
	return fmt.Sprintf("%d:%d:%s", p, i, strings.Repeat(string(rune('a'+p%26)), rng.Intn(400)))
}

// reconcile: every message is delivered or dropped, once
func reconcile(t *vk.T, what string, sent [][]string, delivered, dropped []string) bool {
	return conserve(t, what, sent, delivered, dropped) && ordered(t, what, delivered) && ordered(t, what, dropped)
}

func conserve(t *vk.T, what string, sent [][]string, delivered, dropped []string) bool {
	count := map[string]int{}
	for _, msg := range delivered {
		count[msg]++
	}
	for _, msg := range dropped {
		count[msg]++
	}
	total := 0
	for _, msgs := range sent {
		for _, msg := range msgs {
			total++
			if count[msg] != 1 {
				t.ViolateAsync("not-exactly-once", "%s: message %.40q delivered or reported as dropped %d times", what, msg, count[msg])
				return false
			}
		}
	}
	if len(delivered)+len(dropped) != total {
		t.ViolateAsync("conservation", "%s: %d messages sent, %d delivered, %d dropped", what, total, len(delivered), len(dropped))
		return false
	}
	return true
}

func ordered(t *vk.T, what string, list []string) bool {
	last := map[int]int{}
	for _, msg := range list {
		var p, i int
		fmt.Sscanf(msg, "%d:%d:", &p, &i)
		if previous, seen := last[p]; seen && previous >= i {
			t.ViolateAsync("reordered", "%s: message %d of producer %d after message %d", what, i, p, previous)
			return false
		}
		last[p] = i
	}
	return true
}

// stalled: the underlying writer is stuck, exactly the queue length is accepted
func stalled(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := []int{0, 1, 2, 5, 33, 500}[rng.Intn(6)]
	capacity := queue
	if queue == 0 {
		capacity = 1024
	}
	producers := 1 + rng.Intn(8)
	extra := 1 + rng.Intn(300)
	what := fmt.Sprintf("stalled seed=%d queue=%d producers=%d extra=%d", seed, queue, producers, extra)
	g := newGated()
	d := &drops{}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: g, OnMessageDropped: d.add})
	sent := make([][]string, producers+1)
	// one message is on its way, the consumer is stuck with it
	sent[producers] = []string{payload(rng, producers, 0)}
	writer.Write([]byte(sent[producers][0]))
	g.waitInside(1)
	for i := 0; i < capacity+extra; i++ {
		p := i % producers
		sent[p] = append(sent[p], payload(rng, p, i/producers))
	}
	var wg sync.WaitGroup
	for p := 0; p < producers; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			var reused []byte
			for _, msg := range sent[p] {
				reused = append(reused[:0], msg...)
				n, err := writer.Write(reused)
				if n != len(msg) || err != nil {
					t.ViolateAsync("write-result", "%s: Write returned %d, %v", what, n, err)
				}
				for i := range reused {
					reused[i] = '#'
				}
				t.Tick()
			}
		}(p)
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(60 * time.Second):
		t.ViolateAsync("blocked", "%s: Write did not return while the underlying writer was stuck", what)
		g.setOpen(true)
		return
	}
	droppedWhileStuck := len(d.msgs)
	if droppedWhileStuck != extra {
		t.ViolateAsync("drop-count", "%s: %d messages dropped with %d places in the queue and %d messages", what, droppedWhileStuck, capacity, capacity+extra)
	}
	g.setOpen(true)
	closing := time.Now()
	writer.Close()
	if took := time.Since(closing); took < 900*time.Millisecond && len(d.msgs) > droppedWhileStuck {
		t.ViolateAsync("dropped-by-closing", "%s: %d waiting messages were dropped although closing took %v only", what, len(d.msgs)-droppedWhileStuck, took)
	}
	g.mutex.Lock()
	delivered := append([]string(nil), g.received...)
	g.mutex.Unlock()
	if reconcile(t, what, sent, delivered, d.msgs) {
		t.Count("delivered", len(delivered))
		t.Count("dropped", len(d.msgs))
		t.Eval(what)
		t.Sample("stalled", what)
	}
}

// flowing: the underlying writer works, slower than the producers
func flowing(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := 1 + rng.Intn(20)
	producers := 1 + rng.Intn(8)
	perProducer := 50 + rng.Intn(200)
	what := fmt.Sprintf("flowing seed=%d queue=%d producers=%d messages=%d", seed, queue, producers, perProducer)
	g := newGated()
	g.open = true
	g.slow = rand.New(rand.NewSource(seed + 1))
	if seed%3 == 0 {
		g.panics = rand.New(rand.NewSource(seed + 2))
	}
	d := &drops{}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: g, OnMessageDropped: d.add})
	sent := make([][]string, producers)
	var wg sync.WaitGroup
	for p := 0; p < producers; p++ {
		wg.Add(1)
		own := rand.New(rand.NewSource(seed + int64(p)*31 + 5))
		go func(p int) {
			defer wg.Done()
			var reused []byte
			for i := 0; i < perProducer; i++ {
				msg := payload(own, p, i)
				sent[p] = append(sent[p], msg)
				reused = append(reused[:0], msg...)
				writer.Write(reused)
				for i := range reused {
					reused[i] = '#'
				}
				if own.Intn(8) == 0 {
					time.Sleep(time.Duration(own.Intn(300)) * time.Microsecond)
				}
				t.Tick()
			}
		}(p)
	}
	wg.Wait()
	writer.Close()
	if reconcile(t, what, sent, g.received, d.msgs) {
		t.Count("delivered", len(g.received))
		t.Count("dropped", len(d.msgs))
		t.Eval(what)
	}
}

// calm: never more messages waiting than the queue can hold, so nothing may be dropped
func calm(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := []int{0, 1, 3, 17, 200}[rng.Intn(5)]
	capacity := queue
	if queue == 0 {
		capacity = 1024
	}
	what := fmt.Sprintf("calm seed=%d queue=%d", seed, queue)
	g := newGated()
	g.open = true
	d := &drops{}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: g, OnMessageDropped: d.add})
	var sent []string
	for burst := 0; burst < 6; burst++ {
		size := 1 + rng.Intn(capacity)
		if burst == 3 {
			size = capacity
		}
		for i := 0; i < size; i++ {
			msg := payload(rng, 0, len(sent))
			sent = append(sent, msg)
			writer.Write([]byte(msg))
		}
		d.mutex.Lock()
		dropped := len(d.msgs)
		d.mutex.Unlock()
		if dropped > 0 {
			t.ViolateAsync("dropped-too-early", "%s: %d messages dropped although at most %d were waiting", what, dropped, size)
			return
		}
		g.waitReceived(len(sent))
		t.Tick()
	}
	writer.Close()
	if reconcile(t, what, [][]string{sent}, g.received, d.msgs) {
		t.Count("delivered", len(sent))
		t.Eval(what)
	}
}

// noCallback: drops are reported to the log of the logger
func noCallback(t *vk.T, seed int64, reports *int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := 1 + rng.Intn(4)
	extra := 1200 + rng.Intn(1200)
	if rng.Intn(3) == 0 {
		// already the first one is reported
		extra = (queue+1+rng.Intn(20))/4*4 + 4
	}
	g := newGated()
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: g})
	writer.Write([]byte("first"))
	g.waitInside(1)
	before := atomic.LoadInt64(reports)
	var wg sync.WaitGroup
	var accepted int64
	for p := 0; p < 4; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < extra/4; i++ {
				if n, err := writer.Write([]byte("x")); n == 1 && err == nil {
					atomic.AddInt64(&accepted, 1)
				}
			}
		}()
	}
	wg.Wait()
	if atomic.LoadInt64(reports) == before {
		t.ViolateAsync("not-reported", "%d messages dropped without callback and without report", extra/4*4-queue)
	}
	g.setOpen(true)
	writer.Close()
	if len(g.received) != queue+1 {
		t.ViolateAsync("conservation", "without callback: %d messages delivered, expected %d", len(g.received), queue+1)
	}
	t.Count("dropped", extra/4*4-queue)
	t.Eval(fmt.Sprintf("nocallback %d %d", queue, extra))
}

// closedStuck: the underlying writer is stuck for longer than closing gives it
func closedStuck(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := 1 + rng.Intn(50)
	waiting := 1 + rng.Intn(queue)
	late := 1 + rng.Intn(2*queue)
	what := fmt.Sprintf("closed stuck seed=%d queue=%d waiting=%d late=%d", seed, queue, waiting, late)
	g := newGated()
	d := &drops{}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: g, OnMessageDropped: d.add})
	sent := make([][]string, 2)
	write := func(p int) {
		msg := payload(rng, p, len(sent[p]))
		sent[p] = append(sent[p], msg)
		buf := []byte(msg)
		if n, err := writer.Write(buf); n != len(msg) || err != nil {
			t.ViolateAsync("write-result", "%s: Write returned %d, %v", what, n, err)
		}
		for i := range buf {
			buf[i] = '#'
		}
	}
	write(0)
	g.waitInside(1)
	for i := 0; i < waiting; i++ {
		write(0)
	}
	if seed%2 == 0 {
		// the messages still waiting after a second are given up
		g.pause = 400 * time.Millisecond
	}
	stuck := time.Duration(rng.Intn(300)) * time.Millisecond
	go func() {
		for begin := time.Now(); time.Since(begin) < stuck; time.Sleep(20 * time.Millisecond) {
			t.Tick()
		}
		g.setOpen(true)
	}()
	writer.Close()
	for i := 0; i < late; i++ {
		write(1)
		t.Tick()
	}
	g.mutex.Lock()
	delivered := append([]string(nil), g.received...)
	g.mutex.Unlock()
	d.mutex.Lock()
	dropped := append([]string(nil), d.msgs...)
	d.mutex.Unlock()
	if reconcile(t, what, sent, delivered, dropped) {
		t.Count("delivered", len(delivered))
		t.Count("dropped", len(dropped))
		t.Count("dropped_by_closing", len(dropped)-late)
		t.Eval(what)
	}
}

// closedMeanwhile: the writer is closed while the producers write
func closedMeanwhile(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := 1 + rng.Intn(200)
	producers := 1 + rng.Intn(6)
	what := fmt.Sprintf("closed meanwhile seed=%d queue=%d producers=%d", seed, queue, producers)
	g := newGated()
	g.open = true
	if seed%2 == 0 {
		g.slow = rand.New(rand.NewSource(seed + 1))
	}
	d := &drops{}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: g, OnMessageDropped: d.add})
	sent := make([][]string, producers)
	var wg sync.WaitGroup
	var stop int32
	tail := "x"
	if seed%3 == 0 {
		// long messages take time to copy
		tail = strings.Repeat("long ", 1+rng.Intn(1000000))
	}
	for p := 0; p < producers; p++ {
		p := p
		own := rand.New(rand.NewSource(seed + int64(p)*31 + 5))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000 && atomic.LoadInt32(&stop) == 0; i++ {
				msg := fmt.Sprintf("%d:%d:", p, i)
				sent[p] = append(sent[p], msg)
				writer.Write([]byte(msg + tail))
				if own.Intn(20) == 0 {
					time.Sleep(time.Duration(own.Intn(200)) * time.Microsecond)
				}
			}
		}()
	}
	time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	writer.Close()
	time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	g.mutex.Lock()
	delivered := append([]string(nil), g.received...)
	g.mutex.Unlock()
	d.mutex.Lock()
	dropped := append([]string(nil), d.msgs...)
	d.mutex.Unlock()
	for _, list := range [][]string{delivered, dropped} {
		for i, msg := range list {
			if !strings.HasSuffix(msg, ":"+tail) {
				t.ViolateAsync("content", "%s: message of %d bytes %.40q instead of %d", what, len(msg), msg, len(tail))
			}
			list[i] = strings.TrimSuffix(msg, tail)
		}
	}
	// the ones dropped by closing and by writing are reported at the same time, in any order
	if conserve(t, what, sent, delivered, dropped) && ordered(t, what, delivered) {
		t.Count("delivered", len(delivered))
		t.Count("dropped", len(dropped))
		t.Count("closed_meanwhile", 1)
		t.Eval(what)
	}
	t.Tick()
}

func main() {
	vk.Main(vk.Check{
		ID:            "C04",
		Rule:          "seeded histories of concurrent producers against an underlying writer that is stuck behind a gate (the number of accepted messages is then exactly determined), slow, panicking at times, or never overloaded; with and without drop callback; closed while the underlying writer is stuck or the producers write, and written to afterwards. Non trivial: every history; distinct by its parameters.",
		Assumptions:   []string{"a Write that does not return within 60 s while the gate is closed counts as blocked"},
		StallSeconds:  90,
		MinNontrivial: 20,
		Run: func(t *vk.T) {
			var reports int64
			loglog.Error = func(err error) { atomic.AddInt64(&reports, 1) }
			rng := t.Rng("rounds")
			for wave := 0; wave < t.N(12, 150) && !t.Violated(); wave++ {
				t.Begin(func() string { return fmt.Sprintf("wave %d", wave) })
				var wg sync.WaitGroup
				run := func(f func(t *vk.T, seed int64)) {
					seed := rng.Int63()
					wg.Add(1)
					go func() {
						defer wg.Done()
						f(t, seed)
					}()
				}
				for i := 0; i < 8; i++ {
					run(stalled)
					run(flowing)
					run(calm)
					run(closedMeanwhile)
					if i%4 == 0 && wave%3 == 0 {
						run(closedStuck)
					}
				}
				wg.Wait()
				noCallback(t, rng.Int63(), &reports)
			}
		},
	})
}
