package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/async"
)

// target is the underlying writer. It is deliberately not synchronized: messages reach it one by one.
type target struct {
	rng      *rand.Rand
	mode     int
	received [][]byte
	closed   int32
	lateness int // messages received after close
	closeErr error
	errors   int
	panics   int
}

const (
	fast = iota
	slow
	failing
	bursts
	panicking
	modes
)

func (w *target) Write(buf []byte) (int, error) {
	if atomic.LoadInt32(&w.closed) > 0 {
		w.lateness++
	}
	w.received = append(w.received, append([]byte(nil), buf...))
	switch w.mode {
	case slow:
		time.Sleep(time.Duration(w.rng.Intn(300)) * time.Microsecond)
	case failing:
		if w.rng.Intn(3) == 0 {
			w.errors++
			return 0, errors.New("planned failure")
		}
	case panicking:
		if w.rng.Intn(6) == 0 {
			w.panics++
			panic("planned panic")
		}
	case bursts:
		if w.rng.Intn(40) == 0 {
			time.Sleep(time.Duration(w.rng.Intn(3)) * time.Millisecond)
		}
	}
	return len(buf), nil
}

type closableTarget struct {
	*target
}

func (w closableTarget) Close() error {
	atomic.AddInt32(&w.closed, 1)
	return w.closeErr
}

type plainTarget struct {
	w *target
}

func (w plainTarget) Write(buf []byte) (int, error) { return w.w.Write(buf) }

func message(rng *rand.Rand, producer, seq int) []byte {
	size := 0
	switch rng.Intn(5) {
	case 0:
	case 1:
		size = rng.Intn(20)
	case 2:
		size = rng.Intn(300)
	case 3:
		size = 127 + rng.Intn(4)
	case 4:
		size = rng.Intn(6000)
	}
	buf := []byte(fmt.Sprintf("%d:%d:", producer, seq))
	for i := 0; i < size; i++ {
		buf = append(buf, byte(rng.Intn(256)))
	}
	return buf
}

func round(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	producers := 1 + rng.Intn(12)
	perProducer := 1 + rng.Intn(150)
	queue := []int{0, 1, 2, 7, 64, 5000}[rng.Intn(6)]
	w := &target{rng: rand.New(rand.NewSource(seed + 1)), mode: rng.Intn(modes)}
	what := fmt.Sprintf("seed=%d producers=%d messages=%d queue=%d mode=%d", seed, producers, perProducer, queue, w.mode)
	var underlying io.Writer = plainTarget{w}
	isCloser := rng.Intn(2) == 0
	if isCloser {
		if rng.Intn(2) == 0 {
			w.closeErr = errors.New("planned close failure")
		}
		underlying = closableTarget{w}
	}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{
		QueueLength:     queue,
		Writer:          underlying,
		IsQueueBlocking: true,
		OnMessageDropped: func(msg []byte) {
			t.ViolateAsync("dropped", "%s: blocking writer dropped a message", what)
		},
	})
	sent := make([][][]byte, producers)
	var wg sync.WaitGroup
	for p := 0; p < producers; p++ {
		wg.Add(1)
		own := rand.New(rand.NewSource(seed + int64(p)*7919 + 11))
		go func(p int) {
			defer wg.Done()
			reused := make([]byte, 0, 8192)
			for i := 0; i < perProducer; i++ {
				msg := message(own, p, i)
				if own.Intn(50) == 0 {
					msg = msg[:0] // empty messages are messages too, they are compared as a count
				}
				sent[p] = append(sent[p], msg)
				reused = append(reused[:0], msg...)
				n, err := writer.Write(reused)
				if n != len(msg) || err != nil {
					t.ViolateAsync("write-result", "%s: Write of %d bytes returned %d, %v", what, len(msg), n, err)
				}
				// the caller owns its buffer again
				reused = reused[:cap(reused)]
				for j := 0; j < len(msg)+8 && j < len(reused); j++ {
					reused[j] = '#'
				}
				t.Tick()
			}
		}(p)
	}
	wg.Wait()
	closedAt := time.Now()
	err := writer.Close()
	if isCloser {
		if err != w.closeErr {
			t.ViolateAsync("close-result", "%s: Close returned %v, the underlying writer %v", what, err, w.closeErr)
		}
		if w.closed != 1 {
			t.ViolateAsync("close-count", "%s: underlying writer closed %d times", what, w.closed)
		}
		if w.lateness > 0 {
			t.ViolateAsync("write-after-close", "%s: %d messages written after the underlying writer was closed", what, w.lateness)
		}
	} else if err != nil {
		t.ViolateAsync("close-result", "%s: Close returned %v", what, err)
	}
	total := 0
	empty := 0
	for _, msgs := range sent {
		for _, msg := range msgs {
			total++
			if len(msg) == 0 {
				empty++
			}
		}
	}
	if len(w.received) < total && time.Since(closedAt) > 900*time.Millisecond {
		// the grace period is over because this machine is too slow, nothing is promised then
		t.Count("inconclusive_slow_close", 1)
		return
	}
	next := make([]int, producers)
	gotEmpty := 0
	for i, got := range w.received {
		if len(got) == 0 {
			gotEmpty++
			continue
		}
		var p, seq int
		if n, _ := fmt.Sscanf(string(got[:min(len(got), 24)]), "%d:%d:", &p, &seq); n != 2 || p < 0 || p >= producers {
			t.ViolateAsync("corrupted", "%s: message %d received as %.60q", what, i, got)
			return
		}
		for next[p] < len(sent[p]) && len(sent[p][next[p]]) == 0 {
			next[p]++
		}
		if next[p] >= len(sent[p]) || !bytes.Equal(sent[p][next[p]], got) {
			expected := []byte("nothing more")
			if next[p] < len(sent[p]) {
				expected = sent[p][next[p]]
			}
			t.ViolateAsync("lost-or-reordered", "%s: producer %d: expected message %d %.60q, received %.60q", what, p, next[p], expected, got)
			return
		}
		next[p]++
	}
	if len(w.received) != total || gotEmpty != empty {
		t.ViolateAsync("lost-or-duplicated", "%s: %d messages accepted, %d received", what, total, len(w.received))
		return
	}
	t.Count("messages", total)
	t.Count("failed_writes", w.errors)
	t.Count("panicked_writes", w.panics)
	t.Eval(what)
	t.Sample("history", what)
}

// closeWithBacklog: the queue is full of messages when the writer is closed
func closeWithBacklog(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := 1 + rng.Intn(400)
	backlog := 1 + rng.Intn(queue)
	gate := make(chan struct{})
	entered := make(chan struct{}, 1)
	w := &gated{gate: gate, entered: entered}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: w, IsQueueBlocking: true})
	writer.Write([]byte("first"))
	<-entered
	for i := 0; i < backlog; i++ {
		writer.Write([]byte(fmt.Sprintf("msg%d", i)))
		t.Tick()
	}
	// Close while the backlog is there and the underlying writer is stuck
	done := make(chan struct{})
	go func() {
		writer.Close()
		close(done)
	}()
	time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
	start := time.Now()
	close(gate)
	<-done
	if time.Since(start) > 900*time.Millisecond && len(w.received) < backlog+1 {
		t.Count("inconclusive_slow_close", 1)
		return
	}
	if len(w.received) != backlog+1 {
		t.ViolateAsync("lost-at-close", "seed=%d: queue=%d, %d messages accepted before close, %d written", seed, queue, backlog+1, len(w.received))
		return
	}
	for i := 0; i < backlog; i++ {
		if w.received[i+1] != fmt.Sprintf("msg%d", i) {
			t.ViolateAsync("reordered-at-close", "seed=%d: message %d is %q", seed, i, w.received[i+1])
			return
		}
	}
	if w.closed != 1 {
		t.ViolateAsync("close-count", "underlying writer closed %d times", w.closed)
	}
	t.Count("backlog_messages", backlog)
	t.Eval(fmt.Sprintf("backlog %d/%d", backlog, queue))
}

// afterClose: who writes to a closed writer gets on
func afterClose(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	queue := 1 + rng.Intn(20)
	w := &target{rng: rng}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: closableTarget{w}, IsQueueBlocking: true})
	writer.Write([]byte("before"))
	writer.Close()
	received := len(w.received)
	done := make(chan int)
	go func() {
		refused := 0
		for i := 0; i < 2*queue+10; i++ {
			if n, err := writer.Write([]byte("after")); err != nil || n != 5 {
				refused++
			}
		}
		done <- refused
	}()
	for begin := time.Now(); ; t.Tick() {
		select {
		case refused := <-done:
			if refused != 2*queue+10 {
				t.ViolateAsync("accepted-after-close", "seed=%d: %d writes to a closed writer with %d places were refused, of %d", seed, refused, queue, 2*queue+10)
			}
			t.Count("refused_after_close", refused)
		case <-time.After(50 * time.Millisecond):
			if time.Since(begin) < 30*time.Second {
				continue
			}
			t.ViolateAsync("blocked-after-close", "seed=%d: writing to a closed writer with %d places did not return within 30 s", seed, queue)
		}
		break
	}
	if received != 1 || len(w.received) != 1 || w.lateness > 0 {
		t.ViolateAsync("write-after-close", "seed=%d: %d messages were written at the end, %d after the close", seed, len(w.received), w.lateness)
	}
	t.Eval(fmt.Sprintf("after close %d", queue))
}

type dozing struct {
	mutex    sync.Mutex
	pause    time.Duration
	received []string
	closed   int
}

func (w *dozing) Write(buf []byte) (int, error) {
	time.Sleep(w.pause)
	w.mutex.Lock()
	defer w.mutex.Unlock()
	w.received = append(w.received, string(buf))
	return len(buf), nil
}

func (w *dozing) Close() error {
	w.closed++
	return nil
}

// ownLog: what is told while closing waits is written to the very writer that is closed
func ownLog(t *vk.T, pause time.Duration, queue int) {
	w := &dozing{pause: pause}
	writer := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queue, Writer: w, IsQueueBlocking: true})
	previous := concurrent.LogInfo
	defer func() { concurrent.LogInfo = previous }()
	concurrent.LogInfo = func(event string, properties ...interface{}) { writer.Write([]byte("log " + event)) }
	for i := 0; i <= queue; i++ {
		writer.Write([]byte(fmt.Sprint("msg ", i)))
	}
	done := make(chan struct{})
	go func() {
		writer.Close()
		close(done)
	}()
	for begin := time.Now(); ; t.Tick() {
		select {
		case <-done:
		case <-time.After(50 * time.Millisecond):
			if time.Since(begin) < 40*time.Second {
				continue
			}
			t.ViolateAsync("close-blocked", "closing did not return within 40 s: it is told of the waiting in the log it closes (writes take %v, %d places)", pause, queue)
			return
		}
		break
	}
	w.mutex.Lock()
	defer w.mutex.Unlock()
	next := 0
	for _, msg := range w.received {
		if msg == fmt.Sprint("msg ", next) {
			next++
		} else if msg[:4] != "log " {
			t.ViolateAsync("lost-or-reordered", "received %q instead of message %d", msg, next)
		}
	}
	if w.closed != 1 {
		t.ViolateAsync("close-count", "underlying writer closed %d times", w.closed)
	}
	t.Eval(fmt.Sprintf("own log %v %d", pause, queue))
}

type gated struct {
	gate     chan struct{}
	entered  chan struct{}
	once     sync.Once
	received []string
	closed   int
}

func (w *gated) Write(buf []byte) (int, error) {
	w.once.Do(func() { w.entered <- struct{}{} })
	<-w.gate
	w.received = append(w.received, string(buf))
	return len(buf), nil
}

func (w *gated) Close() error {
	w.closed++
	return nil
}

func main() {
	vk.Main(vk.Check{
		ID:   "C03",
		Rule: "seeded histories: producers x messages (0 to 6000 random bytes, buffer overwritten by the producer after each write) x queue lengths x underlying writers (fast, slow, failing, panicking, bursty; closable or not), closed after the producers end or while the queue holds a backlog, written to after it was closed, closed while the closing itself is logged to it. Non trivial: every history; distinct by its parameters.",
		Assumptions: []string{
			"what is accepted while closing is not judged, only that nobody is blocked",
			"a run where draining took longer than the documented grace period of one second is not judged for loss",
		},
		StallSeconds:  90,
		MinNontrivial: 20,
		Run: func(t *vk.T) {
			loglog.Error = func(err error) {}
			rng := t.Rng("rounds")
			for wave := 0; wave < t.N(8, 120) && !t.Violated(); wave++ {
				t.Begin(func() string { return fmt.Sprintf("wave %d", wave) })
				var wg sync.WaitGroup
				for i := 0; i < 12; i++ {
					seed := rng.Int63()
					wg.Add(1)
					go func() {
						defer wg.Done()
						round(t, seed)
					}()
					backlogSeed := rng.Int63()
					wg.Add(1)
					go func() {
						defer wg.Done()
						closeWithBacklog(t, backlogSeed)
					}()
					closedSeed := rng.Int63()
					wg.Add(1)
					go func() {
						defer wg.Done()
						afterClose(t, closedSeed)
					}()
				}
				wg.Wait()
			}
			for i := 0; i < t.N(2, 8) && !t.Violated(); i++ {
				t.Begin(func() string { return fmt.Sprintf("own log %d", i) })
				ownLog(t, []time.Duration{1200, 400, 700, 2100}[i%4]*time.Millisecond, 1+i)
			}
		},
	})
}
