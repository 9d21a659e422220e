package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/gls"
)

// traced is the id the runtime prints
func traced() int64 {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	buf = bytes.TrimPrefix(buf, []byte("goroutine "))
	id, err := strconv.ParseInt(string(buf[:bytes.IndexByte(buf, ' ')]), 10, 64)
	if err != nil {
		return -1
	}
	return id
}

type history struct {
	t     *vk.T
	mutex sync.Mutex
	owner map[int64]string
}

func (h *history) claim(id int64, who string) {
	h.mutex.Lock()
	other, taken := h.owner[id]
	h.owner[id] = who
	h.mutex.Unlock()
	if taken {
		h.t.ViolateAsync("unique", "goroutine %s has id %d, goroutine %s had it as well", who, id, other)
	}
}

func grow(n int, want int64, h *history, who string) int {
	var pad [128]int
	pad[n%128] = n
	if n%50 == 0 {
		if got := gls.GoID(); got != want {
			h.t.ViolateAsync("stable", "goroutine %s: id %d became %d when the stack grew", who, want, got)
		}
	}
	if n == 0 {
		return 0
	}
	return grow(n-1, want, h, who) + pad[n%128]
}

func (h *history) live(rng *rand.Rand, who string, wg *sync.WaitGroup, depth int) {
	defer wg.Done()
	id := gls.GoID()
	h.claim(id, who)
	steps := ""
	checks := 0
	same := func(when string) {
		checks++
		if got := gls.GoID(); got != id {
			h.t.ViolateAsync("stable", "goroutine %s: id %d became %d after %s (%s)", who, id, got, when, steps)
		}
	}
	for i := rng.Intn(6) + 1; i > 0; i-- {
		op := rng.Intn(10)
		steps += string(rune('a' + op))
		switch op {
		case 0:
			grow(rng.Intn(2000), id, h, who)
			same("stack growth")
		case 1:
			time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
			same("sleep")
		case 2:
			runtime.Gosched()
			same("yield")
		case 3:
			ch := make(chan int64)
			wg.Add(1)
			if depth > 0 {
				childSeed := rng.Int63()
				go func() {
					defer func() { ch <- 1 }()
					h.live(rand.New(rand.NewSource(childSeed)), who+".c", wg, depth-1)
				}()
			} else {
				go func() { defer wg.Done(); ch <- 1 }()
			}
			<-ch
			same("blocking")
		case 4:
			func() {
				defer func() {
					recover()
					same("recovering")
				}()
				defer func() { same("panic") }()
				var m map[string]int
				m["x"] = 1
			}()
			same("panic")
		case 5:
			if rng.Intn(8) == 0 {
				runtime.GC()
			}
			same("garbage collection")
		case 6:
			runtime.LockOSThread()
			runtime.Gosched()
			same("locking the thread")
			runtime.UnlockOSThread()
		case 7:
			m := &sync.Mutex{}
			m.Lock()
			time.AfterFunc(50*time.Microsecond, func() { m.Unlock() })
			m.Lock()
			same("mutex")
		case 8:
			if printed := traced(); printed != id {
				h.t.ViolateAsync("traced", "goroutine %s: id %d, stack trace says %d", who, id, printed)
			}
		default:
			x := 0
			for j := 0; j < 20000; j++ {
				x += j * x
			}
			runtime.KeepAlive(x)
			same("computing")
		}
	}
	if printed := traced(); printed != id {
		h.t.ViolateAsync("traced", "goroutine %s: id %d, stack trace says %d", who, id, printed)
	}
	h.t.Eval(steps)
	h.t.Count("comparisons", checks)
	if rng.Intn(10) == 0 {
		runtime.Goexit()
	}
}

// crowd starts many goroutines that only claim their id
func (h *history) crowd(name string, n int) (last int64) {
	for i := 0; i < n && !h.t.Violated(); i += 500 {
		h.t.Begin(func() string { return fmt.Sprintf("%s goroutines %d to %d", name, i, i+500) })
		ids := make([]int64, 500)
		var wg sync.WaitGroup
		for j := range ids {
			j := j
			wg.Add(1)
			start := func() {
				defer wg.Done()
				ids[j] = gls.GoID()
				if j%16 == 0 {
					if printed := traced(); printed != ids[j] {
						h.t.ViolateAsync("traced", "%s goroutine: id %d, stack trace says %d", name, ids[j], printed)
					}
				}
			}
			if j%100 == 99 {
				// run by the runtime in a goroutine of its own
				time.AfterFunc(0, start)
			} else {
				go start()
			}
		}
		wg.Wait()
		for j, id := range ids {
			h.claim(id, name)
			if id > last {
				last = id
			}
			ids[j] = 0
		}
	}
	return last
}

func main() {
	vk.Main(vk.Check{
		ID:            "C16",
		Rule:          "waves of goroutines with seeded lives (stack growth, sleep, yield, channel and mutex blocking, panic and recover, garbage collection, locking to thread, Goexit) with changing GOMAXPROCS; then 150000 goroutines that only claim their id, and some after the id counter of the runtime was advanced by 2^31, 2^32, 2^40 and 2^52 (found by its address, only if it holds a plausible value). Oracle: id is the same after every step, equals the one in runtime.Stack, and was never claimed before by any goroutine of the process. Non trivial: distinct sequences of steps.",
		Assumptions:   []string{},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			rng := t.Rng("lives")
			h := &history{t: t, owner: map[int64]string{}}
			h.claim(gls.GoID(), "main")
			waves := t.N(150, 4000)
			procs := runtime.GOMAXPROCS(0)
			for i := 0; i < waves && !t.Violated(); i++ {
				t.Begin(func() string { return fmt.Sprintf("wave %d", i) })
				if i%10 == 0 {
					runtime.GOMAXPROCS(1 + rng.Intn(procs*2))
				}
				var wg sync.WaitGroup
				for j := 0; j < 100; j++ {
					wg.Add(1)
					go h.live(rand.New(rand.NewSource(rng.Int63())), fmt.Sprintf("%d.%d", i, j), &wg, 3)
				}
				wg.Wait()
			}
			runtime.GOMAXPROCS(procs)
			last := h.crowd("short-lived", t.N(150000, 4000000))
			// as in a process that runs for long
			for _, skip := range []uint64{1 << 31, 1 << 32, 1 << 40, 1 << 52} {
				if !skipIDs(skip, last) {
					t.Count("id_space_not_reached", 1)
					break
				}
				last = h.crowd(fmt.Sprintf("after %d ids", skip), 2000)
				t.CountMax("highest_id", int(last))
				for j := 0; j < 4 && !t.Violated(); j++ {
					var wg sync.WaitGroup
					wg.Add(1)
					go h.live(rand.New(rand.NewSource(rng.Int63())), fmt.Sprintf("after %d ids %d", skip, j), &wg, 3)
					wg.Wait()
				}
			}
			h.mutex.Lock()
			n := len(h.owner)
			h.mutex.Unlock()
			t.Count("goroutines", n)
		},
	})
}
