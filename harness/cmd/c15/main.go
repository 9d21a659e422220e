package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/gls"
)

// deep knows how to copy itself
type deep struct {
	n     int
	inner map[string]int
}

func (d *deep) Copy() interface{} {
	inner := map[string]int{}
	for k, v := range d.inner {
		inner[k] = v
	}
	return &deep{d.n, inner}
}

// shallow does not
type shallow struct{ id int64 }

// expected is the value a goroutine should see
type expected struct {
	plain interface{} // compared with ==
	deep  *deep       // own copy of the content
	// ptr is the very pointer the goroutine stored, nil if it was inherited
	ptr *deep
	// from is the pointer of the one it was inherited from
	from *deep
}

type structKey struct{ a, b int }

func key(i int) interface{} {
	switch i % 4 {
	case 0:
		return i
	case 1:
		return fmt.Sprint("key", i)
	case 2:
		return structKey{i, -i}
	default:
		return [2]string{"k", fmt.Sprint(i)}
	}
}

const keys = 10

type world struct {
	t      *vk.T
	seed   int64
	unique int64
	// goroutines that are not yet ended
	wg     sync.WaitGroup
	mutex  sync.Mutex
	nodes  int64
	gets   int64
	panics int64
	shape  uint64
}

func (w *world) fail(sig, format string, args ...interface{}) {
	w.t.ViolateAsync(sig, "seed %d: %s", w.seed, fmt.Sprintf(format, args...))
}

func (w *world) pause(rng *rand.Rand) {
	switch rng.Intn(12) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
	case 2:
		growStack(rng.Intn(200))
	}
}

func growStack(n int) int {
	var pad [64]int
	pad[n%64] = n
	if n == 0 {
		return pad[0]
	}
	return growStack(n-1) + pad[n%64]
}

// snapshot is what a child inherits
func snapshot(model map[interface{}]*expected) map[interface{}]*expected {
	out := map[interface{}]*expected{}
	for k, v := range model {
		c := &expected{plain: v.plain}
		if v.deep != nil {
			c.deep = v.deep.Copy().(*deep)
			c.from = v.ptr
			if c.from == nil {
				c.from = v.from
			}
		}
		out[k] = c
	}
	return out
}

func (w *world) verify(model map[interface{}]*expected, enabled bool, where string) {
	id := gls.GoID()
	if got := gls.IsGlsEnabled(id); got != enabled {
		w.fail("enabled", "%s: storage of goroutine enabled: %v, expected %v", where, got, enabled)
	}
	for i := 0; i < keys; i++ {
		k := key(i)
		got := gls.Get(k)
		atomic.AddInt64(&w.gets, 1)
		want := model[k]
		if want == nil {
			if got != nil {
				w.fail("foreign", "%s: %v is %v, the goroutine neither stored nor inherited it", where, k, got)
			}
			continue
		}
		if want.deep == nil {
			if got != want.plain {
				w.fail("value", "%s: %v is %v instead of %v", where, k, got, want.plain)
			}
			continue
		}
		d, ok := got.(*deep)
		if !ok {
			w.fail("value", "%s: %v is %v instead of a copied value", where, k, got)
			continue
		}
		if want.ptr != nil && d != want.ptr {
			w.fail("identity", "%s: %v is not the value the goroutine stored itself", where, k)
			continue
		}
		if want.ptr == nil && d == want.from {
			w.fail("shared", "%s: %v is the value of the parent instead of a copy of it", where, k)
			continue
		}
		if d.n != want.deep.n || fmt.Sprint(d.inner) != fmt.Sprint(want.deep.inner) {
			w.fail("snapshot", "%s: %v is %v %v instead of %v %v", where, k, d.n, d.inner, want.deep.n, want.deep.inner)
		}
	}
}

// program is what a goroutine with local storage does
func (w *world) program(rng *rand.Rand, model map[interface{}]*expected, depth int, where string) {
	atomic.AddInt64(&w.nodes, 1)
	w.verify(model, true, where+" at start")
	steps := 3 + rng.Intn(10)
	var pending []func()
	for i := 0; i < steps; i++ {
		w.pause(rng)
		switch op := rng.Intn(10); op {
		case 0, 1:
			k := key(rng.Intn(keys))
			n := atomic.AddInt64(&w.unique, 1)
			var v interface{}
			switch rng.Intn(4) {
			case 0:
				v = n
			case 1:
				v = &shallow{n}
			case 2:
				v = fmt.Sprint("v", n)
			}
			gls.Set(k, v)
			model[k] = &expected{plain: v}
		case 2:
			k := key(rng.Intn(keys))
			n := int(atomic.AddInt64(&w.unique, 1))
			d := &deep{n, map[string]int{"n": n}}
			gls.Set(k, d)
			model[k] = &expected{deep: d.Copy().(*deep), ptr: d}
		case 3:
			// change a copied value in place, no one else may see it
			for _, v := range model {
				if v.deep == nil {
					continue
				}
				n := int(atomic.AddInt64(&w.unique, 1))
				for k, other := range model {
					if other == v {
						d, ok := gls.Get(k).(*deep)
						if !ok {
							w.fail("value", "%s: %v lost", where, k)
							return
						}
						d.n = n
						d.inner["changed"] = n
					}
				}
				v.deep.n = n
				v.deep.inner["changed"] = n
				break
			}
		case 4, 5, 6:
			if depth == 0 || atomic.LoadInt64(&w.nodes) > 400 {
				continue
			}
			start := w.child(rng, model, depth, where)
			if rng.Intn(2) == 0 {
				pending = append(pending, start)
			} else {
				start()
			}
		case 7:
			if len(pending) > 0 {
				pending[0]()
				pending = pending[1:]
			}
		default:
			w.verify(model, true, where)
		}
	}
	for _, start := range pending {
		start()
	}
	w.verify(model, true, where+" at end")
}

// child wraps a function now, the returned function starts it
func (w *world) child(rng *rand.Rand, model map[interface{}]*expected, depth int, where string) func() {
	inherit := rng.Intn(3) != 0
	ending := rng.Intn(5) // 0: panic, 1: goexit
	name := fmt.Sprintf("%s/%d", where, rng.Intn(1000))
	childSeed := rng.Int63()
	inherited := map[interface{}]*expected{}
	if inherit {
		inherited = snapshot(model)
	}
	var runs int64
	body := func() {
		own := rand.New(rand.NewSource(childSeed + atomic.AddInt64(&runs, 1)))
		start := snapshot(inherited)
		w.program(own, start, depth-1, name)
		if ending == 0 {
			atomic.AddInt64(&w.panics, 1)
			panic("end of " + name)
		}
		if ending == 1 {
			runtime.Goexit()
		}
	}
	var wrapped func()
	if inherit {
		wrapped = gls.WithGls(body)
	} else {
		wrapped = gls.WithEmptyGls(body)
	}
	inline := rng.Intn(4) == 0 && ending != 1
	copies := 1 + rng.Intn(3)
	w.mutex.Lock()
	w.shape = vk.Hash(w.shape, inherit, ending, inline, copies, len(model), depth)
	w.mutex.Unlock()
	if inline {
		return func() {
			before := atomic.LoadInt64(&runs)
			func() {
				defer func() { recover() }()
				wrapped()
			}()
			if ran := atomic.LoadInt64(&runs) - before; ran != 1 {
				w.fail("ran", "%s: wrapped function ran %d times instead of once", name, ran)
			}
			w.verify(model, true, where+" after nested call")
		}
	}
	return func() {
		var left int64 = int64(copies)
		for i := 0; i < copies; i++ {
			w.wg.Add(1)
			done := make(chan int64, 1)
			go func() {
				id := gls.GoID()
				defer func() { done <- id }()
				defer func() {
					recover()
					// also in the goroutine itself
					w.verify(nil, false, name+" afterwards")
				}()
				w.verify(nil, false, name+" before")
				wrapped()
			}()
			go func() {
				defer w.wg.Done()
				id := <-done
				if atomic.AddInt64(&left, -1) == 0 && atomic.LoadInt64(&runs) != int64(copies) {
					w.fail("ran", "%s: function called by %d goroutines ran %d times", name, copies, atomic.LoadInt64(&runs))
				}
				if gls.IsGlsEnabled(id) {
					w.fail("leak", "%s: storage of ended goroutine is left", name)
				}
			}()
		}
	}
}

func tree(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	w := &world{t: t, seed: seed}
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		model := map[interface{}]*expected{}
		ran := 0
		root := func() {
			ran++
			w.program(rng, model, 4, "root")
		}
		if rng.Intn(2) == 0 {
			gls.WithGls(root)()
		} else {
			gls.WithEmptyGls(root)()
		}
		if ran != 1 {
			w.fail("ran", "wrapped function of the root ran %d times", ran)
		}
		w.verify(nil, false, "root afterwards")
	}()
	w.wg.Wait()
	w.mutex.Lock()
	shape := w.shape
	w.mutex.Unlock()
	k := ""
	if w.nodes > 1 {
		k = fmt.Sprint(shape)
	}
	t.Eval(k)
	t.Count("functions_run", int(w.nodes))
	t.CountMax("functions_in_one_tree", int(w.nodes))
	t.Count("reads_compared", int(w.gets))
	t.Count("ended_by_panic", int(w.panics))
	t.Sample("tree", map[string]interface{}{"seed": seed, "functions": w.nodes, "reads": w.gets})
}

// generations lets many goroutines with storage come and go, the memory must not grow with their number
func generations(t *vk.T, count int) {
	heap := func() int64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	round := func() {
		for i := 0; i < count; i += 500 {
			t.Tick()
			var wg sync.WaitGroup
			for j := 0; j < 500; j++ {
				j := j
				var f func()
				body := func() {
					gls.Set("k", j)
					if j%10 == 0 {
						panic("end")
					}
				}
				if j%2 == 0 {
					f = gls.WithEmptyGls(body)
				} else {
					f = gls.WithGls(body)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() { recover() }()
					f()
				}()
			}
			wg.Wait()
		}
	}
	round()
	before := heap()
	for i := 0; i < 4; i++ {
		round()
		t.Eval(fmt.Sprint("generation", i))
	}
	grown := heap() - before
	t.Count("short_lived_goroutines", 5*count)
	t.CountMax("heap_growth_bytes_per_100k_goroutines", int(grown*100000/int64(4*count)))
	// one entry of a map takes more than 16 bytes
	if grown > int64(4*count)*10 {
		t.Violate("memory", "%d goroutines with storage that have ended leave %d bytes behind", 4*count, grown)
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C15",
		Rule:          "seeded trees of goroutines up to four levels deep that store, read, change stored values in place, wrap children (inheriting or empty) and start them later, several times or in the same goroutine, and end normally, by panic or by Goexit. Oracle: model map per goroutine compared on every read, storage of ended goroutines gone, race detector. Then five generations of 100000 short lived goroutines, after each the heap is measured: it does not grow with their number. Non trivial: distinct shapes of trees with more than one wrapped function.",
		Assumptions:   []string{},
		MinNontrivial: 100,
		Run: func(t *vk.T) {
			rng := t.Rng("trees")
			n := t.N(960, 60000)
			for i := 0; i < n && !t.Violated(); i += 8 {
				t.Begin(func() string { return fmt.Sprintf("tree %d", i) })
				var wg sync.WaitGroup
				for j := 0; j < 8; j++ {
					seed := rng.Int63n(1e12)
					wg.Add(1)
					go func() {
						defer wg.Done()
						tree(t, seed)
					}()
				}
				wg.Wait()
			}
			if !t.Violated() {
				t.Begin(func() string { return "generations" })
				generations(t, t.N(100000, 1000000))
			}
		},
	})
}
