package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/concurrent"
)

// history is the monitor of one executor
type history struct {
	started  int64 // Go returned or is about to be called
	running  int64
	finished int64
	runs     sync.Map // task id => *int64
	nextID   int64
	stopping int32
	early    int64 // tasks that saw the context cancelled before anybody stopped the executor
	stuck    int64 // tasks that were not told to stop
}

const patience = 40 * time.Second

var errStop = concurrent.StopSignal

// spawn starts the task from one of several sites
func spawn(executor *concurrent.UnboundedExecutor, site int, task func(ctx context.Context)) {
	switch site % 6 {
	case 0:
		executor.Go(task)
	case 1:
		executor.Go(task)
	case 2:
		executor.Go(func(ctx context.Context) { task(ctx) })
	case 3:
		var asInterface concurrent.Executor = executor
		asInterface.Go(task)
	case 4:
		func() { executor.Go(task) }()
	default:
		executor.Go(task)
	}
}

type kind int

const (
	quick kind = iota
	untilCancelled
	slow
	panics
	stops
	exits
	nests
	nestsLate
	kinds
)

func (h *history) start(t *vk.T, executor *concurrent.UnboundedExecutor, rng *rand.Rand, depth int) {
	id := atomic.AddInt64(&h.nextID, 1)
	atomic.AddInt64(&h.started, 1)
	runs := new(int64)
	h.runs.Store(id, runs)
	k := kind(rng.Intn(int(kinds)))
	site := rng.Intn(6)
	delay := time.Duration(rng.Intn(260)) * time.Millisecond
	seed := rng.Int63()
	spawn(executor, site, func(ctx context.Context) {
		atomic.AddInt64(runs, 1)
		atomic.AddInt64(&h.running, 1)
		defer atomic.AddInt64(&h.finished, 1)
		if ctx.Err() != nil && atomic.LoadInt32(&h.stopping) == 0 {
			atomic.AddInt64(&h.early, 1)
		}
		switch k {
		case quick:
		case untilCancelled:
			h.untilCancelled(ctx)
			time.Sleep(delay)
		case slow:
			time.Sleep(delay)
		case panics:
			time.Sleep(delay / 4)
			panic(fmt.Sprintf("planned %d", id))
		case stops:
			h.untilCancelled(ctx)
			panic(errStop)
		case exits:
			time.Sleep(delay / 4)
			runtime.Goexit()
		case nests:
			if depth < 3 {
				own := rand.New(rand.NewSource(seed))
				for i := own.Intn(3); i >= 0; i-- {
					h.start(t, executor, own, depth+1)
				}
			}
		case nestsLate:
			h.untilCancelled(ctx)
			if depth < 3 {
				own := rand.New(rand.NewSource(seed))
				time.Sleep(delay)
				h.start(t, executor, own, depth+1)
			}
		}
	})
}

func (h *history) untilCancelled(ctx context.Context) {
	select {
	case <-ctx.Done():
	case <-time.After(patience):
		atomic.AddInt64(&h.stuck, 1)
	}
}

func (h *history) verify(t *vk.T, what string) {
	started := atomic.LoadInt64(&h.started)
	finished := atomic.LoadInt64(&h.finished)
	if started != finished {
		t.ViolateAsync("returned-early", "%s: returned while %d of %d tasks had not finished", what, started-finished, started)
	}
	h.runs.Range(func(id, runs interface{}) bool {
		if n := atomic.LoadInt64(runs.(*int64)); n != 1 {
			t.ViolateAsync("not-once", "%s: task %v ran %d times", what, id, n)
			return false
		}
		return true
	})
	if h.early > 0 {
		t.ViolateAsync("early-cancel", "%s: %d tasks saw a cancelled context before the executor was stopped", what, h.early)
	}
	if h.stuck > 0 {
		t.ViolateAsync("not-cancelled", "%s: %d tasks were not cancelled within %v", what, h.stuck, patience)
	}
}

func round(t *vk.T, seed int64, n int) {
	rng := rand.New(rand.NewSource(seed))
	executor := concurrent.NewUnboundedExecutor()
	h := &history{}
	tasks := rng.Intn(n) + 1
	for i := 0; i < tasks; i++ {
		h.start(t, executor, rng, 0)
	}
	time.Sleep(time.Duration(rng.Intn(150)) * time.Millisecond)
	mode := rng.Intn(4)
	if mode == 1 {
		// Stop alone cancels and does not wait, tasks can still be started afterwards
		atomic.StoreInt32(&h.stopping, 1)
		executor.Stop()
		for i := 0; i < 3; i++ {
			h.start(t, executor, rng, 0)
		}
	}
	atomic.StoreInt32(&h.stopping, 1)
	waiters := 1
	if mode == 2 {
		waiters = 3
	}
	var wg sync.WaitGroup
	for i := 0; i < waiters; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i == 0 {
				executor.StopAndWaitForever()
			} else {
				executor.StopAndWait(context.Background())
			}
			h.verify(t, fmt.Sprintf("round seed=%d mode=%d tasks=%d", seed, mode, tasks))
		}(i)
	}
	wg.Wait()
	if mode == 3 {
		// waiting again with nothing left returns at once
		executor.StopAndWaitForever()
		h.verify(t, "second wait")
	}
	t.Count("tasks", int(h.started))
	t.Eval(fmt.Sprintf("mode=%d tasks=%d started=%d", mode, tasks, h.started))
	t.Sample("random task tree", map[string]interface{}{"seed": seed, "mode": mode, "top_tasks": tasks, "all_tasks": h.started})
}

// barrier: all the tasks are alive at the same time, so none of them waits for another one
func barrier(t *vk.T, n int) {
	executor := concurrent.NewUnboundedExecutor()
	var arrived sync.WaitGroup
	arrived.Add(n)
	release := make(chan struct{})
	var finished int64
	var ids sync.Map
	for i := 0; i < n; i++ {
		executor.Go(func(ctx context.Context) {
			buf := make([]byte, 64)
			ids.Store(string(buf[:runtime.Stack(buf, false)])[:24], true)
			arrived.Done()
			<-release
			atomic.AddInt64(&finished, 1)
		})
	}
	all := make(chan struct{})
	go func() { arrived.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(patience):
		t.ViolateAsync("not-concurrent", "%d tasks that wait for each other never all ran", n)
		close(release)
		return
	}
	distinct := 0
	ids.Range(func(k, v interface{}) bool { distinct++; return true })
	if distinct != n {
		t.ViolateAsync("not-own-goroutine", "%d tasks ran in %d goroutines", n, distinct)
	}
	// the waiter gives up by its own context while the tasks go on
	ctx, cancel := context.WithCancel(context.Background())
	returned := make(chan int64, 1)
	go func() {
		executor.StopAndWait(ctx)
		returned <- atomic.LoadInt64(&finished)
	}()
	select {
	case <-returned:
		t.ViolateAsync("returned-early", "StopAndWait returned while %d tasks were running and the context of the waiter was alive", n)
	case <-time.After(450 * time.Millisecond):
	}
	cancel()
	select {
	case <-returned:
	case <-time.After(patience):
		t.ViolateAsync("ignored-context", "StopAndWait did not return after the context of the waiter ended")
	}
	// context already over
	go func() {
		executor.StopAndWait(ctx)
		returned <- 0
	}()
	select {
	case <-returned:
	case <-time.After(patience):
		t.ViolateAsync("ignored-context", "StopAndWait did not return with a context already over")
	}
	if atomic.LoadInt64(&finished) != 0 {
		t.ViolateAsync("harness", "tasks finished before release")
	}
	close(release)
	executor.StopAndWaitForever()
	if got := atomic.LoadInt64(&finished); got != int64(n) {
		t.ViolateAsync("returned-early", "StopAndWaitForever returned after %d of %d tasks", got, n)
	}
	t.Count("tasks", n)
	t.Eval(fmt.Sprintf("barrier %d", n))
}

// ended: a waiter whose time is over before it waits stops the tasks like any other
func ended(t *vk.T, n int) {
	executor := concurrent.NewUnboundedExecutor()
	stopped := make(chan struct{}, n)
	for i := 0; i < n; i++ {
		executor.Go(func(ctx context.Context) {
			<-ctx.Done()
			stopped <- struct{}{}
		})
	}
	ctx, cancel := context.WithCancel(context.Background())
	if n%2 == 0 {
		ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	}
	cancel()
	done := make(chan struct{})
	go func() {
		executor.StopAndWait(ctx)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(patience):
		t.ViolateAsync("ignored-context", "StopAndWait did not return with a context already over")
		return
	}
	for i := 0; i < n; i++ {
		select {
		case <-stopped:
		case <-time.After(patience):
			t.ViolateAsync("not-cancelled", "%d of %d tasks see no cancellation after StopAndWait with a context already over", n-i, n)
			executor.Stop()
			return
		}
	}
	t.Count("tasks", n)
	t.Eval(fmt.Sprintf("ended waiter %d", n))
}

// starved: the only processor is busy with others, so that a task handed over runs much later than
// the first look of the waiter
func starved(t *vk.T, round int) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	var wg sync.WaitGroup
	for i := 0; i < 40; i++ {
		wg.Add(1)
		go func(x uint64) {
			defer wg.Done()
			// a fixed amount of work, several time slices long
			for n := 0; n < 3e7; n++ {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
			}
			if x == 0 {
				panic("xorshift never is 0")
			}
		}(uint64(i + 1))
	}
	executor := concurrent.NewUnboundedExecutor()
	var finished int64
	for i := 0; i < 4; i++ {
		// all but the last one are queued behind the others
		executor.Go(func(ctx context.Context) {
			atomic.AddInt64(&finished, 1)
		})
	}
	executor.StopAndWaitForever()
	if got := atomic.LoadInt64(&finished); got != 4 {
		t.ViolateAsync("returned-early", "on a busy machine StopAndWaitForever returned after %d of 4 tasks", got)
	}
	wg.Wait()
	t.Eval(fmt.Sprintf("starved %d", round))
	t.Count("starved_executors", 1)
}

// relay: a chain of tasks, each starts the next one as its last action, while the waiter polls
func relay(t *vk.T, length int, step time.Duration) {
	executor := concurrent.NewUnboundedExecutor()
	var finished int64
	var next func(i int) func(ctx context.Context)
	next = func(i int) func(ctx context.Context) {
		return func(ctx context.Context) {
			time.Sleep(step)
			if i+1 < length {
				spawn(executor, i, next(i+1))
			}
			atomic.AddInt64(&finished, 1)
		}
	}
	executor.Go(next(0))
	executor.StopAndWaitForever()
	if got := atomic.LoadInt64(&finished); got != int64(length) {
		t.ViolateAsync("returned-early", "StopAndWaitForever returned after %d of %d tasks of a relay", got, length)
	}
	t.Count("tasks", length)
	t.Eval(fmt.Sprintf("relay %d %v", length, step))
}

// waitLogged: what is told of the waiting starts tasks of the executor waited for
func waitLogged(t *vk.T, tasks int) {
	executor := concurrent.NewUnboundedExecutor()
	previous := concurrent.LogInfo
	defer func() { concurrent.LogInfo = previous }()
	var started, finished, told int64
	concurrent.LogInfo = func(event string, properties ...interface{}) {
		if atomic.AddInt64(&told, 1) > 3 {
			return
		}
		atomic.AddInt64(&started, 1)
		executor.Go(func(ctx context.Context) {
			time.Sleep(time.Millisecond)
			atomic.AddInt64(&finished, 1)
		})
	}
	for i := 0; i < tasks; i++ {
		atomic.AddInt64(&started, 1)
		executor.Go(func(ctx context.Context) {
			<-ctx.Done()
			time.Sleep(250 * time.Millisecond)
			atomic.AddInt64(&finished, 1)
		})
	}
	done := make(chan struct{})
	go func() {
		executor.StopAndWaitForever()
		close(done)
	}()
	for begin := time.Now(); ; t.Tick() {
		select {
		case <-done:
		case <-time.After(20 * time.Millisecond):
			if time.Since(begin) < patience {
				continue
			}
			t.ViolateAsync("never-returned", "StopAndWaitForever did not return within %v when telling of the waiting starts tasks (%d started, %d finished)", patience, atomic.LoadInt64(&started), atomic.LoadInt64(&finished))
		}
		break
	}
	if t.Violated() {
		return
	}
	if s, f := atomic.LoadInt64(&started), atomic.LoadInt64(&finished); s != f {
		t.ViolateAsync("returned-early", "StopAndWaitForever returned with %d of %d tasks finished, some were started while telling of the waiting", f, s)
	}
	t.Count("tasks_started_by_telling", int(atomic.LoadInt64(&started))-tasks)
	t.Eval(fmt.Sprintf("wait logged %d", tasks))
}

func main() {
	vk.Main(vk.Check{
		ID:            "C01",
		Rule:          "seeded trees of tasks (quick, slow, waiting for cancellation, panicking, exiting, starting other tasks before and after cancellation) on fresh executors, stopped at random moments by one or several waiters; waiters whose context has ended before; a hook for what is told of the waiting that starts tasks itself; barriers, relays and starved schedules. Non trivial: at least one task is alive or not yet started when the executor is stopped; distinct by (mode, tasks, tasks started).",
		Assumptions:   []string{"a task that is not cancelled within 40 s counts as never cancelled"},
		StallSeconds:  120,
		MinNontrivial: 20,
		Run: func(t *vk.T) {
			concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} { return recovered }
			concurrent.LogInfo = func(event string, properties ...interface{}) {}
			rng := t.Rng("rounds")
			waves := t.N(4, 60)
			for wave := 0; wave < waves && !t.Violated(); wave++ {
				t.Begin(func() string { return fmt.Sprintf("wave %d", wave) })
				var wg sync.WaitGroup
				for i := 0; i < 60; i++ {
					seed := rng.Int63()
					size := 1 + rng.Intn(40)
					wg.Add(1)
					go func() {
						defer wg.Done()
						round(t, seed, size)
					}()
				}
				for i := 0; i < 12; i++ {
					length := 3 + rng.Intn(12)
					step := time.Duration(rng.Intn(60)) * time.Millisecond
					wg.Add(1)
					go func() {
						defer wg.Done()
						relay(t, length, step)
					}()
				}
				for _, n := range []int{1, 17, 300} {
					n := n
					wg.Add(1)
					go func() {
						defer wg.Done()
						barrier(t, n)
					}()
				}
				for _, n := range []int{1, 2, 5, 100} {
					n := n
					wg.Add(1)
					go func() {
						defer wg.Done()
						ended(t, n)
					}()
				}
				wg.Wait()
			}
			for i := 0; i < t.N(3, 12) && !t.Violated(); i++ {
				t.Begin(func() string { return "wait logged" })
				waitLogged(t, 1+i*i*7)
			}
			for i := 0; i < t.N(4, 20) && !t.Violated(); i++ {
				t.Begin(func() string { return "starved" })
				starved(t, i)
			}
		},
	})
}
