package main

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/gls"
	"github.com/v2pro/plz/test"
	"github.com/v2pro/plz/test/must"
	"github.com/v2pro/plz/test/should"
)

// output is what the test framework prints
type capture struct {
	file *os.File
	pos  int64
}

// take returns what was printed since the last take
func (c *capture) take() string {
	size, err := c.file.Seek(0, io.SeekCurrent)
	if err != nil || size < c.pos {
		panic(fmt.Sprint("can not capture the output: ", err))
	}
	buf := make([]byte, size-c.pos)
	if _, err := c.file.ReadAt(buf, c.pos); err != nil && err != io.EOF {
		panic(err)
	}
	c.pos = size
	return string(buf)
}

// broken tells which of the listed findings the tree has; the inputs they concern are left out then
var broken struct {
	helper, mustVariadic, shouldNil, set bool
}

const helperSite = "github.com/v2pro/plz/test.Helper"

// probe tries the listed findings
func probe(t *vk.T, root *testing.T) {
	try := func(sig, what string, site string, do func()) (isBroken bool) {
		root.Run("probe", test.Case(func(ctx *countlog.Context) {
			recovered, stack := vk.Protect(do)
			if recovered != nil && strings.HasPrefix(hx.PanicSite(stack), site) {
				isBroken = true
				t.ViolateAsync(sig, "%s: panic %v", what, recovered)
			}
		}))
		t.Tick()
		return
	}
	broken.helper = try("helper", "a failing assertion panics in test.Helper", helperSite, func() { should.Pass(false) })
	broken.mustVariadic = try("must-call-variadic-nil", "must.Call with nil as second variadic argument", "github.com/v2pro/plz/test/must.Call", func() {
		must.Call(func(a ...interface{}) {}, nil, nil)
	})
	broken.shouldNil = try("should-call-nil", "should.Call with nil as argument", "github.com/v2pro/plz/test/should.Call", func() {
		should.Call(func(a error) {}, nil)
	})
	for i, ret := range []interface{ Set(...interface{}) }{must.ReturnValue{nil}, should.ReturnValue{nil}} {
		ret := ret
		broken.set = try([]string{"must-set-nil", "should-set-nil"}[i], "Set with a nil result", "github.com/v2pro/plz/test/", func() {
			var err error
			ret.Set(&err)
		}) || broken.set
	}
}

// op is one assertion with the outcome it must have
type op struct {
	name string
	do   func()
	pass bool
	// stops tells that a failure ends the test
	stops bool
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
		return rv.IsNil()
	}
	return false
}

// equal is the oracle of Equal
func equal(a, b interface{}) bool {
	for _, v := range []interface{}{a, b} {
		if v != nil && reflect.TypeOf(v).Kind() == reflect.Func {
			return false
		}
	}
	x, isBytes := a.([]byte)
	y, areBytes := b.([]byte)
	if isBytes && areBytes {
		return (x == nil) == (y == nil) && string(x) == string(y)
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return reflect.DeepEqual(a, b)
}

// simple tells whether the difference of the values can be printed with little effort
func pairOf(rng *rand.Rand) (interface{}, interface{}) {
	if rng.Intn(4) == 0 {
		scalars := []interface{}{nil, 0, int64(0), int8(1), uint(1), 1, 1.0, float32(1), "1", "", 'a', "a", true, false,
			[]byte(nil), []byte{}, []byte("a"), []byte("ab"), []int(nil), []int{}, []int{1}, [1]int{1}, []int64{1}, []interface{}{1}, []interface{}{nil}, (*int)(nil), (*string)(nil),
			map[string]int(nil), map[string]int{}, map[string]int{"a": 1}, map[string]int{"a": 0}, map[string]interface{}{"a": 1},
			errors.New("a"), io.EOF, error(hx.Coded{Code: 1}), hx.Coded{Code: 1, Text: "x"}, struct{}{}, struct{ A int }{}, struct{ A int }{1}, hx.Named("a"), hx.Named(""), hx.Celsius(1), func() {}, (func())(nil), (chan int)(nil), make(chan int), uintptr(0), complex(1, 2), new(int), &[]int{1}, new(interface{})}
		return scalars[rng.Intn(len(scalars))], scalars[rng.Intn(len(scalars))]
	}
	typ := hx.GenType(rng, 2)
	seed := rng.Int63()
	make := func(seed int64) interface{} {
		return hx.GenOf(rand.New(rand.NewSource(seed)), typ, 2).Interface()
	}
	a := make(seed)
	if rng.Intn(2) == 0 {
		return a, make(seed)
	}
	return a, make(rng.Int63())
}

var notThere = errors.New("no value")

func short(v interface{}) string {
	return hx.Clip(fmt.Sprintf("%T %#v", v, v), 300)
}

// genOp makes one assertion, must or should
func genOp(rng *rand.Rand, t *vk.T) op {
	isMust := rng.Intn(2) == 0
	pick := func(m, s func()) func() {
		if isMust {
			return m
		}
		return s
	}
	pkg := "should"
	if isMust {
		pkg = "must"
	}
	o := op{stops: isMust}
	k := rng.Intn(9)
	for k == 7 && broken.helper { // calls Helper even when it passes
		k = rng.Intn(9)
	}
	switch k {
	case 0, 1, 2:
		a, b := pairOf(rng)
		o.pass = equal(a, b)
		if k == 0 {
			o.name = pkg + ".AssertEqual"
			o.do = pick(func() { must.AssertEqual(a, b) }, func() { should.AssertEqual(a, b) })
		} else {
			o.name = pkg + ".Equal"
			o.do = pick(func() { must.Equal(a, b) }, func() { should.Equal(a, b) })
		}
		o.name += "(" + short(a) + ", " + short(b) + ")"
	case 3, 4:
		a, _ := pairOf(rng)
		if rng.Intn(3) == 0 {
			a = nil
		}
		nilWanted := k == 3
		o.pass = isNil(a) == nilWanted
		alias := rng.Intn(2) == 0
		switch {
		case nilWanted && alias:
			o.name = pkg + ".AssertNil"
			o.do = pick(func() { must.AssertNil(a) }, func() { should.AssertNil(a) })
		case nilWanted:
			o.name = pkg + ".Nil"
			o.do = pick(func() { must.Nil(a) }, func() { should.Nil(a) })
		case alias:
			o.name = pkg + ".AssertNotNil"
			o.do = pick(func() { must.AssertNotNil(a) }, func() { should.AssertNotNil(a) })
		default:
			o.name = pkg + ".NotNil"
			o.do = pick(func() { must.NotNil(a) }, func() { should.NotNil(a) })
		}
		o.name += "(" + short(a) + ")"
	case 5, 6:
		o.pass = rng.Intn(2) == 0
		var kv []interface{}
		for i := rng.Intn(3); i > 0; i-- {
			a, b := pairOf(rng)
			_ = b
			kv = append(kv, hx.GenID(rng), a)
		}
		if k == 5 {
			o.name = pkg + ".Assert"
			o.do = pick(func() { must.Assert(o.pass, kv...) }, func() { should.Assert(o.pass, kv...) })
		} else {
			o.name = pkg + ".Pass"
			o.do = pick(func() { must.Pass(o.pass, kv...) }, func() { should.Pass(o.pass, kv...) })
		}
		pass := o.pass
		o.name += fmt.Sprintf("(%v, %s)", pass, short(kv))
	case 7:
		a, _ := pairOf(rng)
		if isNil(a) {
			a = "a panic"
		}
		o.pass = rng.Intn(2) == 0
		pass := o.pass
		f := func() {
			if pass {
				panic(a)
			}
		}
		o.name = pkg + ".Panic(" + short(a) + ")"
		check := func(recovered interface{}) {
			if pass && !hx.Same(reflect.ValueOf(&recovered).Elem(), reflect.ValueOf(&a).Elem()) {
				t.ViolateAsync("recovered", "%s returns %s", o.name, short(recovered))
			}
		}
		o.do = pick(func() { check(must.Panic(f)) }, func() { check(should.Panic(f)) })
	case 8:
		name, f, args, rets, pass := genCall(rng)
		for hasNil(args) && (isMust && broken.mustVariadic && reflect.TypeOf(f).IsVariadic() || !isMust && broken.shouldNil) {
			name, f, args, rets, pass = genCall(rng)
		}
		o.pass = pass
		o.name = pkg + ".Call(" + name + ", " + short(args) + ")"
		check := func(got []interface{}, set func(...interface{})) {
			if len(got) != len(rets) {
				t.ViolateAsync("returned", "%s returns %d values instead of %d", o.name, len(got), len(rets))
				return
			}
			for i := range rets {
				if !equal(got[i], rets[i]) {
					t.ViolateAsync("returned", "%s returns %s as value %d instead of %s", o.name, short(got[i]), i, short(rets[i]))
				}
			}
			// the values can be put into variables of their types
			if broken.set && hasNil(rets) {
				return
			}
			typ := reflect.TypeOf(f)
			vars := make([]interface{}, len(rets))
			for i := range vars {
				v := reflect.New(typ.Out(i))
				if typ.Out(i).Kind() == reflect.Int {
					v.Elem().SetInt(-77)
				}
				if typ.Out(i).Kind() == reflect.Interface && typ.Out(i).Implements(reflect.TypeOf((*error)(nil)).Elem()) {
					v.Elem().Set(reflect.ValueOf(&notThere).Elem())
				}
				vars[i] = v.Interface()
			}
			set(vars...)
			for i := range rets {
				if now := reflect.ValueOf(vars[i]).Elem().Interface(); !equal(now, rets[i]) {
					t.ViolateAsync("set", "%s: Set puts %s into variable %d instead of %s", o.name, short(now), i, short(rets[i]))
				}
			}
		}
		o.do = pick(func() {
			ret := must.Call(f, args...)
			check(ret, ret.Set)
		}, func() {
			ret := should.Call(f, args...)
			check(ret, ret.Set)
		})
	}
	return o
}

func hasNil(list []interface{}) bool {
	for _, v := range list {
		if v == nil {
			return true
		}
	}
	return false
}

// genCall makes a function with arguments and the results it must give
func genCall(rng *rand.Rand) (name string, f interface{}, args []interface{}, rets []interface{}, pass bool) {
	err := []error{nil, nil, io.EOF, errors.New("failed"), hx.Coded{Code: 3}}[rng.Intn(5)]
	n := rng.Intn(100)
	s := hx.GenString(rng, 10)
	pass = true
	switch rng.Intn(9) {
	case 0:
		return "func()", func() {}, nil, nil, true
	case 1:
		return "func(int) int", func(a int) int { return a + 1 }, []interface{}{n}, []interface{}{n + 1}, true
	case 2:
		return "func(int, string) (string, int, error)", func(a int, b string) (string, int, error) { return b, a, err },
			[]interface{}{n, s}, []interface{}{s, n, err}, err == nil
	case 3:
		return "func() error", func() error { return err }, nil, []interface{}{err}, err == nil
	case 4:
		// nil as argument
		return "func(error, []int, *int, map[string]int, interface{}) (bool, error)", func(a error, b []int, c *int, d map[string]int, e interface{}) (bool, error) {
			return a == nil && b == nil && c == nil && d == nil && e == nil, err
		}, []interface{}{nil, nil, nil, nil, nil}, []interface{}{true, err}, err == nil
	case 5:
		list := []interface{}{}
		for i := rng.Intn(4); i > 0; i-- {
			if rng.Intn(2) == 0 {
				list = append(list, nil)
			} else {
				list = append(list, i)
			}
		}
		return "func(string, ...interface{}) (int, []interface{}, error)", func(a string, b ...interface{}) (int, []interface{}, error) {
			return len(b), append([]interface{}{a}, b...), err
		}, append([]interface{}{s}, list...), []interface{}{len(list), append([]interface{}{s}, list...), err}, err == nil
	case 6:
		// an error that is not the last result
		return "func() (error, int)", func() (error, int) { return err, n }, nil, []interface{}{err, n}, true
	case 7:
		return "func(error) (interface{}, error)", func(a error) (interface{}, error) { return nil, a }, []interface{}{err}, []interface{}{nil, err}, err == nil
	}
	return "method", bytes.NewBufferString(s).ReadString, []interface{}{byte(0xff)}, nil2(s), false
}

func nil2(s string) []interface{} { return []interface{}{s, io.EOF} }

// outcome is what happened in one test
type outcome struct {
	done      int // assertions that returned
	recovered interface{}
	stack     string
	otherT    bool
	failed    bool // by the panic of the listed finding
}

func runOps(tt *testing.T, ops []op, out *outcome) {
	defer func() {
		out.recovered = recover()
		if out.recovered != nil {
			buf := make([]byte, 4096)
			out.stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	for _, o := range ops {
		if test.CurrentT() != tt {
			out.otherT = true
		}
		if broken.helper {
			if protected(o.do) {
				out.failed = true
				if o.stops {
					return
				}
			}
		} else {
			o.do()
		}
		out.done++
	}
}

// protected runs an assertion that reports its failure by the listed panic
func protected(do func()) (failed bool) {
	defer func() {
		if recovered := recover(); recovered != nil {
			buf := make([]byte, 4096)
			if hx.PanicSite(string(buf[:runtime.Stack(buf, false)])) != helperSite {
				panic(recovered)
			}
			failed = true
		}
	}()
	do()
	return false
}

// expect tells how many assertions return and whether the test fails
func expect(ops []op) (done int, failed bool) {
	for _, o := range ops {
		if !o.pass {
			failed = true
			if o.stops {
				return done, true
			}
		}
		done++
	}
	return done, failed
}

func describe(ops []op) string {
	var names []string
	for _, o := range ops {
		names = append(names, fmt.Sprintf("%s pass=%v", o.name, o.pass))
	}
	return strings.Join(names, "; ")
}

func judge(t *vk.T, where string, ops []op, out *outcome, failed bool, mustEnd bool) {
	done, wantFailed := expect(ops)
	failed = failed || out.failed
	switch {
	case out.recovered != nil:
		t.ViolateAsync("panic", "%s: panic %v in %s\n%s", where, out.recovered, describe(ops), out.stack)
	case failed != wantFailed:
		t.ViolateAsync("verdict", "%s: failed is %v instead of %v for %s", where, failed, wantFailed, describe(ops))
	case out.done != done:
		t.ViolateAsync("continue", "%s: %d assertions returned instead of %d for %s", where, out.done, done, describe(ops))
	case out.otherT:
		t.ViolateAsync("current", "%s: the current test is another one", where)
	}
	t.Eval(fmt.Sprint(where, failed, done))
	for _, o := range ops[:out.done] {
		t.Count("assertions "+strings.SplitN(o.name, "(", 2)[0], 1)
	}
	if wantFailed {
		t.Count("failed tests", 1)
	} else {
		t.Count("passed tests", 1)
	}
}

func run(t *vk.T) {
	file, err := os.Create(t.Scratch("out") + "/stdout")
	if err != nil {
		t.Fatal(err.Error())
	}
	os.Stdout = file
	printed := &capture{file: file}
	testing.Init()
	os.Args = os.Args[:1]
	flag.Set("test.v", "true")
	flag.Set("test.parallel", "8")
	done := make(chan bool)
	go testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "root", F: func(root *testing.T) {
		defer close(done)
		probe(t, root)
		single(t, root)
		if !broken.helper {
			sources(t, root, printed)
		}
		parallel(t, root)
		inherited(t, root)
		outside(t, root)
		skipped(t, root)
		select {
		case done <- true:
			select {} // the results are not for the test framework
		}
	}}}, nil, nil)
	<-done
}

// single checks lists of assertions, one test after the other
func single(t *vk.T, root *testing.T) {
	rng := t.Rng("single")
	for i := 0; i < t.N(6000, 200000); i++ {
		ops := make([]op, rng.Intn(4)+1)
		for j := range ops {
			ops[j] = genOp(rng, t)
		}
		t.Begin(func() string { return describe(ops) })
		out := &outcome{}
		var inner *testing.T
		passed := root.Run("s", func(tt *testing.T) {
			inner = tt
			test.Case(func(ctx *countlog.Context) {
				if ctx == nil || ctx.Err() != nil {
					t.ViolateAsync("context", "the test case has no working context")
				}
				runOps(tt, ops, out)
			})(tt)
		})
		if !passed != inner.Failed() {
			t.Fatal("the result of the test is not clear")
		}
		judge(t, "single", ops, out, !passed, true)
		if i < 3 {
			t.Sample("test", describe(ops))
		}
	}
}

// parallel checks that tests running at the same time do not disturb each other
func parallel(t *vk.T, root *testing.T) {
	rng := t.Rng("parallel")
	for round := 0; round < t.N(30, 600); round++ {
		n := 32
		all := make([][]op, n)
		outs := make([]*outcome, n)
		inner := make([]*testing.T, n)
		for i := range all {
			all[i] = make([]op, rng.Intn(6)+1)
			for j := range all[i] {
				all[i][j] = genOp(rng, t)
			}
			outs[i] = &outcome{}
		}
		t.Tick()
		root.Run("p", func(group *testing.T) {
			for i := range all {
				i := i
				group.Run(fmt.Sprint(i), func(tt *testing.T) {
					tt.Parallel()
					inner[i] = tt
					test.Case(func(ctx *countlog.Context) {
						runOps(tt, all[i], outs[i])
					})(tt)
				})
			}
		})
		for i := range all {
			judge(t, "parallel", all[i], outs[i], inner[i].Failed(), true)
		}
	}
}

// inherited checks assertions in goroutines started with the storage of the test
func inherited(t *vk.T, root *testing.T) {
	rng := t.Rng("inherited")
	for round := 0; round < t.N(300, 6000); round++ {
		n := rng.Intn(4) + 1
		all := make([][]op, n)
		wantFailed := false
		for i := range all {
			all[i] = make([]op, rng.Intn(3)+1)
			for j := range all[i] {
				o := genOp(rng, t)
				for o.stops {
					o = genOp(rng, t)
				}
				all[i][j] = o
				wantFailed = wantFailed || !o.pass
			}
		}
		outs := make([]*outcome, n)
		t.Tick()
		passed := root.Run("i", func(tt *testing.T) {
			test.Case(func(ctx *countlog.Context) {
				var wg sync.WaitGroup
				for i := range all {
					i := i
					outs[i] = &outcome{}
					wg.Add(1)
					go gls.WithGls(func() {
						defer wg.Done()
						runOps(tt, all[i], outs[i])
					})()
				}
				wg.Wait()
			})(tt)
		})
		for i := range outs {
			passed = passed && !outs[i].failed
		}
		if passed == wantFailed {
			t.ViolateAsync("verdict-child", "failed is %v instead of %v for assertions in %d goroutines", !passed, wantFailed, n)
		}
		for i := range all {
			if outs[i].recovered != nil || outs[i].otherT || outs[i].done != len(all[i]) {
				t.ViolateAsync("child", "assertions in a goroutine of the test: %+v for %s", outs[i], describe(all[i]))
			}
		}
		t.Eval(fmt.Sprint("inherited", n, wantFailed))
		t.Count("tests with goroutines", 1)
	}
}

// outside checks that there is no current test outside of a test case, also after one that failed
func outside(t *vk.T, root *testing.T) {
	rng := t.Rng("outside")
	current := func() bool {
		recovered, _ := vk.Protect(func() { test.CurrentT() })
		return recovered == nil
	}
	if current() {
		t.ViolateAsync("outside", "there is a current test before the case")
	}
	for i := 0; i < t.N(200, 2000); i++ {
		how := rng.Intn(5)
		t.Tick()
		var after, before, body int32
		root.Run("o", func(tt *testing.T) {
			if current() {
				atomic.StoreInt32(&before, 1)
			}
			defer func() {
				recover()
				if current() || gls.IsGlsEnabled(gls.GoID()) {
					atomic.StoreInt32(&after, 1)
				}
			}()
			test.Case(func(ctx *countlog.Context) {
				if current() {
					atomic.StoreInt32(&body, 1)
				}
				switch how {
				case 0:
					must.Equal(1, 2)
				case 1:
					panic("the test panics")
				case 2:
					should.Equal(1, 2)
				case 3:
					test.Skip("not now")
				}
			})(tt)
		})
		if before != 0 || after != 0 || body != 1 {
			t.ViolateAsync("outside", "current test before=%d in=%d after=%d the case of kind %d", before, body, after, how)
		}
		t.Eval(fmt.Sprint("outside", how))
	}
}

// skipped checks that skipping ends the test without failing it
func skipped(t *vk.T, root *testing.T) {
	rng := t.Rng("skipped")
	for i := 0; i < t.N(200, 2000); i++ {
		formatted, failBefore := rng.Intn(2) == 0, rng.Intn(3) == 0 && !broken.helper
		continued := false
		var inner *testing.T
		passed := root.Run("k", test.Case(func(ctx *countlog.Context) {
			inner = test.CurrentT()
			if failBefore {
				should.Nil(1)
			}
			if formatted {
				test.Skipf("skip %d", i)
			} else {
				test.Skip("skip", i)
			}
			continued = true
		}))
		if continued || passed == failBefore || !inner.Skipped() {
			t.ViolateAsync("skip", "skipping: continued %v passed %v skipped %v, failed before %v", continued, passed, inner.Skipped(), failBefore)
		}
		t.Eval(fmt.Sprint("skip", formatted, failBefore))
	}
}

// ---------------------------------------------------------------- what is reported

// statement is a failing assertion with its source
type statement struct {
	source string
	do     func()
}

func statements() []statement {
	one, two, three := 1, 2, 3
	var list []statement
	add := func(source string, do func()) { list = append(list, statement{source, do}) }
	add(`should.Equal(one, two)`, func() {
		should.Equal(one, two)
	})
	add(`should.AssertEqual(two, one)`, func() {
		should.AssertEqual(two, one)
	})
	add(`should.Equal([]int{one,two,},[]int{})`, func() {
		should.Equal([]int{
			one,
			two,
		},
			[]int{})
	})
	add(`should.Nil(two)`, func() {
		should.Nil(two)
	})
	add(`should.AssertNil("text")`, func() {
		should.AssertNil("text")
	})
	add(`should.NotNil(nil)`, func() {
		should.NotNil(nil)
	})
	add(`should.AssertNotNil(error(nil))`, func() {
		should.AssertNotNil(error(nil))
	})
	add(`should.Pass(one == two,"one", one)`, func() {
		should.Pass(one == two,
			"one", one)
	})
	add(`should.Assert(one > two)`, func() {
		should.Assert(one > two)
	})
	add(`should.Panic(func() {three++})`, func() {
		should.Panic(func() {
			three++
		})
	})
	add(`should.Call(func(err error) error { return err }, io.EOF)`, func() {
		should.Call(func(err error) error { return err }, io.EOF)
	})
	add(`must.Equal(one, two)`, func() {
		must.Equal(one, two)
	})
	add(`must.AssertEqual(one, two)`, func() {
		must.AssertEqual(one, two)
	})
	add(`must.Nil(two)`, func() {
		must.Nil(two)
	})
	add(`must.AssertNil(two)`, func() {
		must.AssertNil(two)
	})
	add(`must.NotNil((*int)(nil))`, func() {
		must.NotNil((*int)(nil))
	})
	add(`must.AssertNotNil(nil)`, func() {
		must.AssertNotNil(nil)
	})
	add(`must.Pass(one == two)`, func() {
		must.Pass(one == two)
	})
	add(`must.Assert(one == two)`, func() {
		must.Assert(one == two)
	})
	add(`must.Panic(func() {})`, func() {
		must.Panic(func() {})
	})
	add(`must.Call(fail, one, "two", nil)`, func() {
		must.Call(fail, one, "two", nil)
	})
	_ = three
	return list
}

func fail(a int, b string, c interface{}) error { return errors.New("it failed") }

// sources checks that a failure is reported with the source of the failing statement
func sources(t *vk.T, root *testing.T, printed *capture) {
	rng := t.Rng("sources")
	all := statements()
	for i := 0; i < t.N(400, 4000); i++ {
		var chosen []statement
		for j := rng.Intn(3) + 1; j > 0; j-- {
			chosen = append(chosen, all[rng.Intn(len(all))])
		}
		t.Tick()
		printed.take()
		root.Run("r", test.Case(func(ctx *countlog.Context) {
			for _, s := range chosen {
				s.do()
			}
		}))
		text := printed.take()
		for _, s := range chosen {
			want := ": failed: " + s.source + "\n"
			if !strings.Contains(text, want) {
				t.ViolateAsync("source", "the report of %s does not contain %q: %s", s.source, want, text)
			}
			t.Eval("source " + s.source)
			t.Count("reports compared with the source", 1)
			if strings.HasPrefix(s.source, "must") {
				break
			}
		}
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C34",
		Rule:          "Tests made of random lists of must and should assertions (equality of equal copies, of different and of differently typed values of generated types, nil tests, conditions, expected panics, calls with nil and variadic arguments) run inside the test framework, one by one, in parallel and in goroutines that inherit the test. Each verdict, the place where the test stopped, recovered and returned values and the test seen by the assertions are compared with an independent oracle; the output of failing statements is compared with the source text of this program.",
		Assumptions:   []string{"the test framework reports a test as failed exactly when it was told so"},
		MinNontrivial: 10,
		Run:           run,
	})
}
