package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/reflect2"
)

func ptrOf(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

type bigKey [20]int64

var moreKeys = []reflect.Type{
	reflect.TypeOf(float32(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf((*int)(nil)), reflect.TypeOf((chan int)(nil)), reflect.TypeOf(bigKey{}),
	reflect.TypeOf([0]int{}), reflect.TypeOf(struct{ P *int }{}), reflect.TypeOf([1]*string{}), reflect.TypeOf(struct {
		A interface{}
		B string
	}{}), reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(uint8(0)),
}

func keyType(rng *rand.Rand) reflect.Type {
	if rng.Intn(3) == 0 {
		return moreKeys[rng.Intn(len(moreKeys))]
	}
	return hx.GenKeyType(rng)
}

// genKeys makes the keys used in one case
func genKeys(rng *rand.Rand, typ reflect.Type, n int) []reflect.Value {
	var keys []reflect.Value
	sample := reflect.MapOf(typ, reflect.TypeOf(0))
	for len(keys) < n {
		if typ.Kind() == reflect.Interface {
			// reuse the generator of map values
			m := hx.GenOf(rng, sample, 2)
			for _, key := range m.MapKeys() {
				keys = append(keys, ptrOf(key).Elem())
			}
			if m.Len() == 0 {
				keys = append(keys, reflect.New(typ).Elem())
			}
			continue
		}
		v := hx.AnyOf(rng, typ)
		if v.Kind() == reflect.Float64 || v.Kind() == reflect.Float32 {
			switch rng.Intn(12) {
			case 0:
				v.SetFloat(math.Copysign(0, -1))
			case 1:
				v.SetFloat(0)
			}
		}
		if typ.Kind() == reflect.Ptr && rng.Intn(3) > 0 {
			v.Set(reflect.New(typ.Elem()))
		}
		if typ.Kind() == reflect.Struct && typ.NumField() == 2 && typ.Field(0).Type.Kind() == reflect.Interface {
			v.Field(0).Set(reflect.ValueOf([]interface{}{rng.Intn(5), "s", int8(rng.Intn(3)), math.NaN(), hx.Pair{A: 1}}[rng.Intn(5)]))
		}
		keys = append(keys, v)
	}
	return keys
}

func isNaN(key reflect.Value) bool { return key.Comparable() && !key.Equal(key) }

type table struct {
	t     *vk.T
	rng   *rand.Rand
	typ   reflect.Type
	type2 reflect2.MapType
	obj   interface{}
	model reflect.Value
	keys  []reflect.Value
	log   []string
	what  string
}

func (m *table) ptr() unsafe.Pointer { return unsafe.Pointer(reflect.ValueOf(m.obj).Pointer()) }
func (m *table) val() reflect.Value  { return reflect.ValueOf(m.obj).Elem() }

func (m *table) violate(sig, format string, args ...interface{}) {
	from := 0
	if len(m.log) > 25 {
		from = len(m.log) - 25
	}
	m.t.Violate(sig, "%s: %s\nsteps: %v", m.typ, fmt.Sprintf(format, args...), m.log[from:])
}

// entries counts what has been visited
type entries map[string]int

func entryText(key, elem reflect.Value) string { return hx.Digest(key) + " => " + hx.Digest(elem) }

func (m *table) compare() {
	v := m.val()
	if v.IsNil() != m.model.IsNil() || v.Len() != m.model.Len() {
		m.violate("len", "nil %v with %d entries instead of nil %v with %d entries", v.IsNil(), v.Len(), m.model.IsNil(), m.model.Len())
		return
	}
	iter := m.model.MapRange()
	for iter.Next() {
		if isNaN(iter.Key()) {
			continue
		}
		if got := v.MapIndex(iter.Key()); !got.IsValid() || !hx.Same(got, iter.Value()) {
			m.violate("entry", "entry %s is %.300s instead of %.300s", hx.Digest(iter.Key()), hx.Digest(got), hx.Digest(iter.Value()))
			return
		}
	}
}

func (m *table) lookup(key reflect.Value) {
	kp := ptrOf(key)
	want := m.model.MapIndex(key)
	wantPtr := reflect.PtrTo(m.typ.Elem())
	check := func(name string, got reflect.Value, found bool) {
		if found != want.IsValid() {
			m.violate("lookup", "%s of %s finds %v instead of %v", name, hx.Digest(key), found, want.IsValid())
			return
		}
		if found && (got.Type() != wantPtr || !hx.Same(got.Elem(), want)) {
			m.violate("lookup", "%s of %s returns %s %.300s instead of %.300s", name, hx.Digest(key), got.Type(), hx.Digest(got), hx.Digest(want))
		}
	}
	switch m.rng.Intn(3) {
	case 0:
		m.log = append(m.log, "TryGetIndex")
		got, found := m.type2.TryGetIndex(m.obj, kp.Interface())
		check("TryGetIndex", reflect.ValueOf(got), found)
		if !found && got != nil {
			m.violate("lookup", "TryGetIndex of absent %s returns %v", hx.Digest(key), got)
		}
	case 1:
		m.log = append(m.log, "GetIndex")
		got := m.type2.GetIndex(m.obj, kp.Interface())
		gv := reflect.ValueOf(got)
		check("GetIndex", gv, gv.IsValid() && !gv.IsNil())
	case 2:
		m.log = append(m.log, "UnsafeGetIndex")
		got := m.type2.UnsafeGetIndex(m.ptr(), reflect2.PtrOf(kp.Interface()))
		check("UnsafeGetIndex", reflect.NewAt(m.typ.Elem(), got), got != nil)
	}
	if m.rng.Intn(3) == 0 && !hx.Same(kp.Elem(), key) {
		m.violate("key", "looking up %s changes the key", hx.Digest(key))
	}
	m.t.Count("lookups", 1)
	if !want.IsValid() {
		m.t.Count("absent_lookups", 1)
	}
}

func (m *table) iterate() {
	unsafely := m.rng.Intn(2) == 0
	m.log = append(m.log, fmt.Sprintf("Iterate unsafe=%v", unsafely))
	want := entries{}
	iter := m.model.MapRange()
	for iter.Next() {
		want[entryText(iter.Key(), iter.Value())]++
	}
	var it reflect2.MapIterator
	if unsafely {
		it = m.type2.UnsafeIterate(m.ptr())
	} else {
		it = m.type2.Iterate(m.obj)
	}
	churnAt := -1
	if m.rng.Intn(25) == 0 {
		churnAt = m.rng.Intn(m.model.Len() + 1)
	}
	n := 0
	type pair struct{ key, elem reflect.Value }
	var visited []pair
	for it.HasNext() {
		if m.rng.Intn(2) == 0 && !it.HasNext() {
			m.violate("iterate", "HasNext is not stable")
		}
		var p pair
		if m.rng.Intn(2) == 0 {
			key, elem := it.Next()
			p = pair{reflect.ValueOf(key), reflect.ValueOf(elem)}
			if p.key.Type() != reflect.PtrTo(m.typ.Key()) || p.elem.Type() != reflect.PtrTo(m.typ.Elem()) {
				m.violate("type", "Next returns %T and %T", key, elem)
				return
			}
		} else {
			key, elem := it.UnsafeNext()
			p = pair{reflect.NewAt(m.typ.Key(), key), reflect.NewAt(m.typ.Elem(), elem)}
		}
		visited = append(visited, p)
		if n++; n > m.model.Len() {
			m.violate("iterate", "iterating visits more than %d entries", m.model.Len())
			return
		}
		if n == churnAt {
			hx.Churn(m.rng)
			m.t.Count("collections", 1)
		}
	}
	if n != m.model.Len() {
		m.violate("iterate", "iterating visits %d of %d entries", n, m.model.Len())
		return
	}
	for _, p := range visited {
		text := entryText(p.key.Elem(), p.elem.Elem())
		if want[text]--; want[text] < 0 {
			m.violate("iterate", "iterating visits %.300s, which is not there or was visited before", text)
			return
		}
	}
	m.t.Count("iterations", 1)
	m.t.Count("entries_visited", n)
}

func (m *table) step() {
	rng := m.rng
	key := m.keys[rng.Intn(len(m.keys))]
	switch op := rng.Intn(12); {
	case op <= 4:
		if m.model.IsNil() {
			// must fail, and not crash
			recovered, _ := vk.Protect(func() {
				m.type2.SetIndex(m.obj, ptrOf(key).Interface(), ptrOf(hx.AnyOf(rng, m.typ.Elem())).Interface())
			})
			if recovered == nil {
				m.violate("nil", "setting an entry of a nil map is accepted")
			}
			m.log = append(m.log, "SetIndex of nil map")
			return
		}
		elem := ptrOf(hx.AnyOf(rng, m.typ.Elem()))
		kp := ptrOf(key)
		if rng.Intn(2) == 0 {
			m.log = append(m.log, "SetIndex")
			m.type2.SetIndex(m.obj, kp.Interface(), elem.Interface())
		} else {
			m.log = append(m.log, "UnsafeSetIndex")
			m.type2.UnsafeSetIndex(m.ptr(), reflect2.PtrOf(kp.Interface()), reflect2.PtrOf(elem.Interface()))
		}
		m.model.SetMapIndex(key, elem.Elem())
		// the arguments belong to the caller
		if rng.Intn(2) == 0 {
			kp.Elem().Set(reflect.Zero(key.Type()))
			elem.Elem().Set(reflect.Zero(elem.Elem().Type()))
		}
	case op <= 8:
		if rng.Intn(3) == 0 {
			key = genKeys(rng, m.typ.Key(), 1)[0]
		}
		m.lookup(key)
	case op == 9:
		m.iterate()
	case op == 10:
		m.log = append(m.log, "IsNil Indirect")
		isNil := m.type2.IsNil(m.obj)
		got := reflect.ValueOf(m.type2.Indirect(m.obj))
		if rng.Intn(2) == 0 {
			isNil = m.type2.UnsafeIsNil(m.ptr())
			got = reflect.ValueOf(m.type2.UnsafeIndirect(m.ptr()))
		}
		if isNil != m.model.IsNil() {
			m.violate("nil", "IsNil is %v", isNil)
		}
		if !hx.Same(got, m.val()) {
			m.violate("indirect", "Indirect returns another map")
		}
	case op == 11 && rng.Intn(16) == 0:
		var made interface{}
		size := rng.Intn(40)
		if rng.Intn(2) == 0 {
			m.log = append(m.log, fmt.Sprintf("MakeMap(%d)", size))
			made = m.type2.MakeMap(size)
			m.type2.Set(m.obj, made)
		} else {
			m.log = append(m.log, fmt.Sprintf("UnsafeMakeMap(%d)", size))
			made = reflect.NewAt(m.typ, m.type2.UnsafeMakeMap(size)).Interface()
			m.type2.UnsafeSet(m.ptr(), reflect2.PtrOf(made))
		}
		m.model = reflect.MakeMap(m.typ)
	}
}

func mapCase(t *vk.T, rng *rand.Rand, i int) {
	m := &table{t: t, rng: rng}
	m.typ = reflect.MapOf(keyType(rng), hx.AnyType(rng, 2))
	t.Begin(func() string { return fmt.Sprintf("case %d %s", i, m.typ) })
	m.type2 = reflect2.Type2(m.typ).(reflect2.MapType)
	if m.type2.Key().Type1() != m.typ.Key() || m.type2.Elem().Type1() != m.typ.Elem() {
		m.violate("type", "key %s elem %s", m.type2.Key(), m.type2.Elem())
	}
	switch rng.Intn(6) {
	case 0:
		m.obj = m.type2.New()
		m.model = reflect.Zero(m.typ)
	case 1:
		m.obj = reflect.NewAt(m.typ, m.type2.UnsafeMakeMap(rng.Intn(20))).Interface()
		m.model = reflect.MakeMap(m.typ)
	default:
		m.obj = m.type2.MakeMap(rng.Intn(20))
		m.model = reflect.MakeMap(m.typ)
	}
	steps := 3 + rng.Intn(45)
	nKeys := 1 + rng.Intn(12)
	if rng.Intn(20) == 0 {
		nKeys = 150
		steps = 500
	}
	m.keys = genKeys(rng, m.typ.Key(), nKeys)
	for s := 0; s < steps; s++ {
		m.step()
		if s%5 == 0 || steps < 100 {
			m.compare()
		}
		if rng.Intn(120) == 0 {
			before := hx.Digest(m.val())
			hx.Churn(rng)
			if after := hx.Digest(m.val()); after != before {
				m.violate("gc", "content changes by garbage collection from %.300s to %.300s", before, after)
			}
			t.Count("collections", 1)
		}
	}
	m.compare()
	m.iterate()
	t.CountMax("largest_map", m.model.Len())
	t.Count("steps", steps)
	t.Eval(fmt.Sprint(m.typ, vk.Hash(m.log)))
	if len(m.log) < 8 {
		t.Sample("map", map[string]interface{}{"type": m.typ.String(), "steps": m.log, "entries": m.model.Len()})
	}
}

// ---------------------------------------------------------------- maps on the stack of the caller

type box struct{ a, b int }

var sink interface{}

func stackIterate(t *vk.T, mt *reflect2.UnsafeMapType, n int) {
	m := map[int]*box{1: {n, 1}, 2: {n, 2}, 3: {n, 3}}
	it := mt.UnsafeIterate(unsafe.Pointer(&m))
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	m[1], m[2], m[3] = &box{n, 10}, &box{n, 20}, &box{n, 30}
	seen := 0
	for it.HasNext() && seen < 10 {
		key, elem := it.UnsafeNext()
		if b := **(**box)(elem); b != (box{n, 10 * *(*int)(key)}) {
			t.ViolateAsync("stack", "iterating a map on the stack visits %d => %v", *(*int)(key), b)
		}
		seen++
	}
	if seen != 3 {
		t.ViolateAsync("stack", "iterating a map on the stack visits %d of 3 entries", seen)
	}
}

func stackGet(t *vk.T, mt *reflect2.UnsafeMapType, n int) {
	m := map[int]*box{1: {n, 1}, 2: {n, 2}, 3: {n, 3}}
	key := 2
	sink = (**box)(mt.UnsafeGetIndex(unsafe.Pointer(&m), unsafe.Pointer(&key)))
	local := (**box)(mt.UnsafeGetIndex(unsafe.Pointer(&m), unsafe.Pointer(&key)))
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	if b := **(sink.(**box)); b != (box{n, 2}) || **local != b {
		t.ViolateAsync("stack", "element got from a map on the stack is %v, %v", b, **local)
	}
	m[2] = &box{n, 4}
	if b := **(sink.(**box)); b != (box{n, 4}) {
		t.ViolateAsync("stack", "element got from a map on the stack is %v after it is set", b)
	}
}

func stackSet(t *vk.T, mt *reflect2.UnsafeMapType, st *reflect2.UnsafeMapType, n int) {
	m := map[int]*box{}
	heap := mt.UnsafeMakeMap(0)
	sink = (*map[int]*box)(heap)
	texts := st.UnsafeMakeMap(3)
	for i := 0; i < 20; i++ {
		key := i
		e := &box{n, i}
		mt.UnsafeSetIndex(unsafe.Pointer(&m), unsafe.Pointer(&key), unsafe.Pointer(&e))
		f := &box{i, n}
		mt.UnsafeSetIndex(heap, unsafe.Pointer(&key), unsafe.Pointer(&f))
		var buf [12]byte
		text := string(append(buf[:0], "key"+string(rune('a'+i))...))
		st.UnsafeSetIndex(texts, unsafe.Pointer(&text), unsafe.Pointer(&text))
	}
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	for i := 0; i < 20; i++ {
		if *m[i] != (box{n, i}) || *(*sink.(*map[int]*box))[i] != (box{i, n}) {
			t.ViolateAsync("stack", "element %d set is %v and %v", i, *m[i], *(*sink.(*map[int]*box))[i])
		}
		if want := "key" + string(rune('a'+i)); (*(*map[string]string)(texts))[want] != want {
			t.ViolateAsync("stack", "element %q set is %q", want, (*(*map[string]string)(texts))[want])
		}
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C29",
		Rule:          "seeded map types (keys of 29 types incl. floats with NaN and zeros, interfaces, pointers, channels, large and zero size; elements of all kinds and layouts) and seeded sequences of up to 500 operations through interfaces and through unsafe pointers (make, set, look up present and absent, iterate, nil maps, take over); model: the same operations by package reflect, all entries compared; iteration compared as multiset, with garbage collection in between; freed memory is clobbered; maps on stacks that move. Non trivial: distinct sequences.",
		MinNontrivial: 1000,
		Env:           []string{"GODEBUG=clobberfree=1"},
		Run: func(t *vk.T) {
			rng := t.Rng("maps")
			n := t.N(2200, 150000)
			for i := 0; i < n && !t.Violated(); i++ {
				mapCase(t, rng, i)
			}
			mt := reflect2.TypeOf(map[int]*box{}).(*reflect2.UnsafeMapType)
			st := reflect2.TypeOf(map[string]string{}).(*reflect2.UnsafeMapType)
			for i := 0; i < t.N(60, 2000) && !t.Violated(); i++ {
				t.Begin(func() string { return fmt.Sprint("stack case ", i) })
				for name, f := range map[string]func(){
					"iterate": func() { stackIterate(t, mt, i) }, "get": func() { stackGet(t, mt, i) }, "set": func() { stackSet(t, mt, st, i) },
				} {
					if recovered := hx.OnSmallStack(f); recovered != nil {
						t.Violate("stack", "%s on stack panics: %v", name, recovered)
					}
					t.Count("stack_cases", 1)
				}
			}
		},
	})
}
