package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/hrf"
)

type resource struct {
	id     int
	err    error
	closed *[]int // ids in the order of closing
}

func (r *resource) Close() error {
	*r.closed = append(*r.closed, r.id)
	return r.err
}

type pointerError struct{ text string }

func (e *pointerError) Error() string {
	if e == nil {
		return "typed nil"
	}
	return e.text
}

type listError []string

func (e listError) Error() string { return strings.Join(e, "+") }

func genErr(rng *rand.Rand, id string) error {
	switch rng.Intn(8) {
	case 0:
		return io.EOF
	case 1:
		return &pointerError{"pointer " + id}
	case 2:
		return (*pointerError)(nil)
	case 3:
		return plz.MultiError{errors.New("inner " + id), io.EOF}
	case 4:
		return fmt.Errorf("wrapped %s: %w", id, io.ErrUnexpectedEOF)
	case 5:
		return listError{"list", id}
	}
	return errors.New("failed " + id)
}

// sameErr compares by identity, also errors that can not be compared by ==
func sameErr(a, b error) bool {
	return hx.Same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

func checkMerged(t *vk.T, what string, got error, want []error) {
	if len(want) == 0 {
		if got != nil {
			t.ViolateAsync("spurious", "%s returns %v although nothing failed", what, got)
		}
		return
	}
	if got == nil {
		t.ViolateAsync("lost", "%s returns nil although %d failed: %v", what, len(want), want)
		return
	}
	if got.Error() == "" {
		t.ViolateAsync("text", "%s returns an error without text", what)
	}
	multi, isMulti := got.(plz.MultiError)
	if !isMulti {
		t.ViolateAsync("type", "%s returns %T instead of a MultiError", what, got)
		return
	}
	if len(multi) != len(want) {
		t.ViolateAsync("lost", "%s returns %d errors %q instead of %d %q", what, len(multi), texts(multi), len(want), texts(want))
		return
	}
	for i := range want {
		if !sameErr(multi[i], want[i]) {
			t.ViolateAsync("order", "%s returns %q instead of %q", what, texts(multi), texts(want))
			return
		}
	}
}

func texts(errs []error) []string {
	var out []string
	for _, err := range errs {
		out = append(out, fmt.Sprint(err))
	}
	return out
}

// owned makes the properties of the caller: a part of a larger list
func owned(rng *rand.Rand, id string) (all []interface{}, n int) {
	for i := rng.Intn(4); i > 0; i-- {
		all = append(all, fmt.Sprintf("k%d", i), fmt.Sprintf("v%d-%s", i, id))
	}
	n = len(all)
	return append(all, "behind", id, "the", "list"), n
}

func checkOwned(t *vk.T, what string, before, after []interface{}) {
	for i := range before {
		if before[i] != after[i] {
			t.ViolateAsync("caller", "%s overwrites element %d of the list of the caller: %v instead of %v", what, i, after[i], before[i])
			return
		}
	}
}

type logLine struct {
	err   error
	props []interface{}
	// where the closing was called
	at string
}

// lineBefore is the place of the line before
func lineBefore() string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", file, line-1)
}

func closeAllCase(t *vk.T, rng *rand.Rand, id string, async bool) []logLine {
	var order, want []int
	var failed []error
	var resources []io.Closer
	var logged []logLine
	all, n := owned(rng, id)
	before := append([]interface{}(nil), all...)
	size := rng.Intn(9)
	if rng.Intn(25) == 0 {
		size = 150
	}
	failing := rng.Intn(4)
	pattern := ""
	var shared *resource
	for i := 0; i < size; i++ {
		r := &resource{id: i, closed: &order}
		if rng.Intn(4) < failing {
			r.err = genErr(rng, fmt.Sprintf("%s/%d", id, i))
			pattern += "x"
		} else {
			pattern += "."
		}
		switch rng.Intn(6) {
		case 0:
			resources = append(resources, plz.WrapCloser(r.Close))
		case 1:
			// the same resource is listed more than once
			if shared != nil {
				r = shared
			}
			shared = r
			resources = append(resources, r)
		default:
			resources = append(resources, r)
		}
		want = append(want, r.id)
		if r.err != nil {
			failed = append(failed, r.err)
			logged = append(logged, logLine{err: r.err, props: all[:n]})
		}
	}
	what := fmt.Sprintf("CloseAll of %q with %d properties", pattern, n)
	if !async {
		t.Begin(func() string { return what })
	}
	given := append([]io.Closer(nil), resources...)
	got := plz.CloseAll(resources, all[:n]...)
	at := lineBefore()
	for i := range logged {
		logged[i].at = at
	}
	if fmt.Sprint(order) != fmt.Sprint(want) {
		t.ViolateAsync("closed", "%s closes resources %v instead of %v", what, order, want)
	}
	checkMerged(t, what, got, failed)
	checkOwned(t, what, before, all)
	for i := range given {
		if given[i] != resources[i] {
			t.ViolateAsync("caller", "%s changes the list of resources", what)
		}
	}
	t.Count("resources_closed", len(want))
	t.Count("failures", len(failed))
	t.Eval(fmt.Sprint("all ", pattern, n, vk.Hash(texts(failed))))
	if len(pattern) < 8 {
		t.Sample("close_all", map[string]interface{}{"resources": pattern, "errors": texts(failed)})
	}
	return logged
}

func closeCase(t *vk.T, rng *rand.Rand, id string) []logLine {
	var order []int
	r := &resource{id: 7, closed: &order}
	all, n := owned(rng, id)
	before := append([]interface{}(nil), all...)
	if rng.Intn(3) > 0 {
		r.err = genErr(rng, id)
	}
	closer := io.Closer(r)
	if rng.Intn(2) == 0 {
		closer = plz.WrapCloser(r.Close)
	}
	got := plz.Close(closer, all[:n]...)
	at := lineBefore()
	what := fmt.Sprintf("Close failing with %T", r.err)
	if !sameErr(got, r.err) {
		t.ViolateAsync("error", "%s returns %v instead of %v", what, got, r.err)
	}
	if len(order) != 1 {
		t.ViolateAsync("closed", "%s closes %d times", what, len(order))
	}
	checkOwned(t, what, before, all)
	t.Eval(fmt.Sprint("one ", what, n))
	if r.err == nil {
		return nil
	}
	return []logLine{{r.err, all[:n], at}}
}

func mergeCase(t *vk.T, rng *rand.Rand, id string) {
	var errs, want []error
	pattern := ""
	for i := rng.Intn(12); i > 0; i-- {
		if rng.Intn(2) == 0 {
			errs = append(errs, nil)
			pattern += "."
			continue
		}
		err := genErr(rng, fmt.Sprint(id, i))
		errs = append(errs, err)
		want = append(want, err)
		pattern += "x"
	}
	given := append([]error(nil), errs...)
	got := plz.MergeErrors(errs...)
	checkMerged(t, fmt.Sprintf("MergeErrors of %q", pattern), got, want)
	for i := range given {
		if !sameErr(given[i], errs[i]) {
			t.ViolateAsync("caller", "MergeErrors changes the list of the caller")
		}
	}
	// the result is not changed by what the caller does with its list later
	for i := range errs {
		errs[i] = io.ErrClosedPipe
	}
	checkMerged(t, fmt.Sprintf("MergeErrors of %q, after the list is reused,", pattern), got, want)
	t.Eval("merge " + pattern)
}

// checkLog looks for one line for each failure, in order
func checkLog(t *vk.T, lines []string, want []logLine) {
	var failures []string
	for _, line := range lines {
		if strings.Contains(line, "[ERROR]") {
			failures = append(failures, line)
		}
	}
	if len(failures) != len(want) {
		t.ViolateAsync("log", "%d failures are logged instead of %d: %q", len(failures), len(want), failures)
		return
	}
	for i, line := range failures {
		text := want[i].err.Error()
		if _, isPlain := want[i].err.(*pointerError); isPlain && strings.HasPrefix(text, "typed nil") {
			continue
		}
		if !strings.Contains(line, "err:") || !strings.Contains(line, text) {
			t.ViolateAsync("log", "failure %q is logged as %q", text, line)
			return
		}
		for k := 0; k < len(want[i].props); k += 2 {
			if !strings.Contains(line, want[i].props[k].(string)+": "+want[i].props[k+1].(string)) {
				t.ViolateAsync("log", "failure %q is logged without property %v: %q", text, want[i].props[k], line)
				return
			}
		}
		if !strings.Contains(line, want[i].at) {
			t.ViolateAsync("log", "failure %q of the call at %s is logged as %q", text, want[i].at, line)
			return
		}
		// no error of another resource
		for k := range want {
			other := want[k].err.Error()
			if k != i && other != text && !strings.Contains(text, other) && strings.Contains(line, other) {
				t.ViolateAsync("log", "failure %q is logged together with %q: %q", text, other, line)
				return
			}
		}
	}
	t.Count("failures_logged", len(want))
}

func main() {
	vk.Main(vk.Check{
		ID:            "C32",
		Rule:          "seeded lists of up to 150 resources with all failure patterns and errors of 7 kinds (plain, wrapped, nested multiple, typed nil, not comparable), resources listed twice, wrapped functions, properties that are part of a larger list of the caller; closed one by one and all together, from one goroutine and from 8. Observed: order and number of Close calls of every resource, the returned error by identity, the lines logged, the lists of the caller. Non trivial: distinct failure patterns with their errors.",
		MinNontrivial: 500,
		Run: func(t *vk.T) {
			lines := &hx.Lines{}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &hrf.Format{}, Writer: lines})
			rng := t.Rng("close")
			for i := 0; i < t.N(6000, 300000) && !t.Violated(); i++ {
				id := fmt.Sprintf("n%dn", i)
				t.Begin(func() string { return "case " + id })
				lines.Take()
				switch rng.Intn(4) {
				case 0:
					want := closeCase(t, rng, id)
					checkLog(t, lines.Take(), want)
				case 1:
					mergeCase(t, rng, id)
				default:
					want := closeAllCase(t, rng, id, false)
					checkLog(t, lines.Take(), want)
				}
			}
			for round := 0; round < t.N(60, 3000) && !t.Violated(); round++ {
				t.Begin(func() string { return fmt.Sprint("concurrent round ", round) })
				var wg sync.WaitGroup
				for w := 0; w < 8; w++ {
					own := rand.New(rand.NewSource(rng.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < 6; k++ {
							id := fmt.Sprintf("c%dc%dc", round, k)
							closeAllCase(t, own, id, true)
							closeCase(t, own, id)
							mergeCase(t, own, id)
						}
					}()
				}
				wg.Wait()
				t.Count("concurrent_rounds", 1)
				lines.Take()
			}
		},
	})
}
