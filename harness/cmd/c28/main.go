package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/reflect2"
)

// list is one slice used through the layer, and its model used through reflect
type list struct {
	t     *vk.T
	rng   *rand.Rand
	typ   reflect.Type
	type2 reflect2.SliceType
	// the object is a window of a larger array, so is the model
	backing, modelBacking reflect.Value
	obj                   interface{} // *[]E
	model                 reflect.Value
	mode                  string // safe interface or unsafe pointers
	log                   []string
	held                  []held
}

// held is a pointer obtained from the layer
type held struct {
	ptr    interface{}
	digest string
}

func ptrOf(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func (l *list) val() reflect.Value { return reflect.ValueOf(l.obj).Elem() }

func (l *list) ptr() unsafe.Pointer { return unsafe.Pointer(reflect.ValueOf(l.obj).Pointer()) }

func (l *list) violate(sig, format string, args ...interface{}) {
	from := 0
	if len(l.log) > 30 {
		from = len(l.log) - 30
	}
	l.t.Violate(sig, "%s of %s: %s\nsteps: %v", l.mode, l.typ, fmt.Sprintf(format, args...), l.log[from:])
}

func (l *list) compare() {
	v := l.val()
	if v.Type() != l.model.Type() {
		l.violate("type", "type is %s", v.Type())
		return
	}
	if v.IsNil() != l.model.IsNil() {
		l.violate("nil", "nil is %v instead of %v", v.IsNil(), l.model.IsNil())
	}
	if v.Len() != l.model.Len() || v.Cap() != l.model.Cap() {
		l.violate("len", "len %d cap %d instead of len %d cap %d", v.Len(), v.Cap(), l.model.Len(), l.model.Cap())
		return
	}
	all, modelAll := v, l.model
	if !v.IsNil() {
		all, modelAll = v.Slice(0, v.Cap()), l.model.Slice(0, v.Cap())
	}
	for i := 0; i < all.Len(); i++ {
		if !hx.Same(all.Index(i), modelAll.Index(i)) {
			l.violate("elem", "element %d is %.200s instead of %.200s", i, hx.Digest(all.Index(i)), hx.Digest(modelAll.Index(i)))
			return
		}
	}
	if l.backing.IsValid() {
		for i := 0; i < l.backing.Len(); i++ {
			if !hx.Same(l.backing.Index(i), l.modelBacking.Index(i)) {
				l.violate("neighbour", "element %d of the array behind the slice is %.200s instead of %.200s", i, hx.Digest(l.backing.Index(i)), hx.Digest(l.modelBacking.Index(i)))
				return
			}
		}
	}
}

// renew forgets the arrays, when the slice got memory of its own
func (l *list) detach(cap int) {
	model := reflect.MakeSlice(l.typ, l.model.Len(), cap)
	reflect.Copy(model, l.model)
	l.model = model
}

func (l *list) elem() (reflect.Value, interface{}) {
	v := hx.AnyOf(l.rng, l.typ.Elem())
	if l.rng.Intn(6) == 0 && l.model.Len() > 0 {
		// one of its own elements
		v = l.model.Index(l.rng.Intn(l.model.Len()))
	}
	p := ptrOf(v)
	return p.Elem(), p.Interface()
}

func (l *list) step() {
	rng := l.rng
	unsafely := rng.Intn(2) == 0
	n := l.model.Len()
	op := rng.Intn(14)
	note := func(format string, args ...interface{}) {
		text := fmt.Sprintf(format, args...)
		if unsafely {
			text = "Unsafe" + text
		}
		l.log = append(l.log, text)
	}
	switch {
	case op <= 2 && n > 0:
		i := rng.Intn(n)
		value, elem := l.elem()
		note("SetIndex(%d)", i)
		if unsafely {
			l.type2.UnsafeSetIndex(l.ptr(), i, reflect2.PtrOf(elem))
		} else {
			l.type2.SetIndex(l.obj, i, elem)
		}
		l.model.Index(i).Set(value)
	case op <= 4 && n > 0:
		i := rng.Intn(n)
		note("GetIndex(%d)", i)
		var got interface{}
		if unsafely {
			got = reflect.NewAt(l.typ.Elem(), l.type2.UnsafeGetIndex(l.ptr(), i)).Interface()
		} else {
			got = l.type2.GetIndex(l.obj, i)
		}
		gv := reflect.ValueOf(got)
		if gv.Type() != reflect.PtrTo(l.typ.Elem()) {
			l.violate("type", "GetIndex returns %s", gv.Type())
			return
		}
		if !hx.Same(gv.Elem(), l.model.Index(i)) {
			l.violate("get", "GetIndex(%d) returns %.200s instead of %.200s", i, hx.Digest(gv.Elem()), hx.Digest(l.model.Index(i)))
		}
		if len(l.held) < 4 {
			l.held = append(l.held, held{got, ""})
		}
	case op <= 8:
		value, elem := l.elem()
		note("Append")
		grows := n == l.model.Cap()
		if unsafely {
			l.type2.UnsafeAppend(l.ptr(), reflect2.PtrOf(elem))
		} else {
			l.type2.Append(l.obj, elem)
		}
		l.t.Count("appends", 1)
		if grows {
			l.t.Count("appends_beyond_capacity", 1)
			if l.val().Cap() < n+1 {
				l.violate("cap", "capacity is %d after appending to %d elements", l.val().Cap(), n)
				return
			}
			l.detach(l.val().Cap())
		}
		l.model = l.model.Slice(0, n+1)
		l.model.Index(n).Set(value)
	case op <= 10:
		length := rng.Intn(2*n + 3)
		if rng.Intn(200) == 0 {
			length = 900 + rng.Intn(900)
		}
		if l.typ.Elem().Size() > 256 && length > 12 {
			length = n
		}
		note("Grow(%d)", length)
		grows := length > l.model.Cap()
		if unsafely {
			l.type2.UnsafeGrow(l.ptr(), length)
		} else {
			l.type2.Grow(l.obj, length)
		}
		if grows {
			l.t.Count("grows_beyond_capacity", 1)
			if l.val().Cap() < length {
				l.violate("cap", "capacity is %d after growing to %d", l.val().Cap(), length)
				return
			}
			l.detach(l.val().Cap())
		}
		if !l.model.IsNil() || length > 0 {
			l.model = l.model.Slice(0, length)
		}
	case op == 11:
		length, cap := l.type2.LengthOf(l.obj), l.type2.Cap(l.obj)
		isNil := l.type2.IsNil(l.obj)
		if unsafely {
			length, cap = l.type2.UnsafeLengthOf(l.ptr()), l.type2.UnsafeCap(l.ptr())
			isNil = l.type2.UnsafeIsNil(l.ptr())
		}
		note("LengthOf Cap IsNil")
		if length != n || cap != l.model.Cap() || isNil != l.model.IsNil() {
			l.violate("len", "length %d capacity %d nil %v instead of %d %d %v", length, cap, isNil, n, l.model.Cap(), l.model.IsNil())
		}
	case op == 12 && rng.Intn(4) == 0:
		note("SetNil")
		if unsafely {
			l.type2.UnsafeSetNil(l.ptr())
		} else {
			l.type2.SetNil(l.obj)
		}
		l.model = reflect.Zero(l.typ)
	case op == 12 && rng.Intn(3) == 0:
		// another one is created and taken over
		cap := rng.Intn(12)
		length := rng.Intn(cap + 1)
		note("Set(MakeSlice(%d, %d))", length, cap)
		var made interface{}
		if unsafely {
			made = reflect.NewAt(l.typ, l.type2.UnsafeMakeSlice(length, cap)).Interface()
			l.type2.UnsafeSet(l.ptr(), reflect2.PtrOf(made))
		} else {
			made = l.type2.MakeSlice(length, cap)
			if reflect.TypeOf(made) != reflect.PtrTo(l.typ) {
				l.violate("type", "MakeSlice returns %T", made)
				return
			}
			l.type2.Set(l.obj, made)
		}
		l.model = reflect.MakeSlice(l.typ, length, cap)
	case op == 13:
		note("Indirect")
		got := reflect.ValueOf(l.type2.Indirect(l.obj))
		if unsafely {
			got = reflect.ValueOf(l.type2.UnsafeIndirect(l.ptr()))
		}
		if !hx.Same(got, l.val()) {
			l.violate("indirect", "Indirect returns %.300s instead of %.300s", hx.Digest(got), hx.Digest(l.val()))
		}
	default:
		return
	}
	l.compare()
}

func (l *list) collect() {
	// what is held was obtained before, and nothing is modified meanwhile
	for i := range l.held {
		l.held[i].digest = hx.Digest(reflect.ValueOf(l.held[i].ptr).Elem())
	}
	before := hx.Digest(l.val())
	modelDigest := hx.Digest(l.model)
	hx.Churn(l.rng)
	hx.Deepen(50)
	if after := hx.Digest(l.val()); after != before || after != modelDigest {
		l.violate("gc", "content is %.300s after garbage collection, was %.300s, should be %.300s", after, before, modelDigest)
	}
	for _, h := range l.held {
		if after := hx.Digest(reflect.ValueOf(h.ptr).Elem()); after != h.digest {
			l.violate("gc", "element held is %.300s after garbage collection, was %.300s", after, h.digest)
		}
	}
	l.held = nil
	l.t.Count("collections", 1)
}

func sliceCase(t *vk.T, rng *rand.Rand, i int) {
	l := &list{t: t, rng: rng, mode: "slice"}
	l.typ = reflect.SliceOf(hx.AnyType(rng, 2))
	t.Begin(func() string { return fmt.Sprintf("case %d %s", i, l.typ) })
	l.type2 = reflect2.Type2(l.typ).(reflect2.SliceType)
	if rng.Intn(3) > 0 {
		size := 1 + rng.Intn(14)
		l.backing = reflect.New(reflect.ArrayOf(size, l.typ.Elem())).Elem()
		for k := 0; k < size; k++ {
			l.backing.Index(k).Set(hx.AnyOf(rng, l.typ.Elem()))
		}
		l.modelBacking = reflect.New(l.backing.Type()).Elem()
		l.modelBacking.Set(l.backing)
		lo := rng.Intn(size)
		hi := lo + rng.Intn(size-lo)
		max := hi + rng.Intn(size-hi+1)
		l.obj = ptrOf(l.backing.Slice3(lo, hi, max).Convert(l.typ)).Interface()
		l.model = l.modelBacking.Slice3(lo, hi, max).Convert(l.typ)
	} else if rng.Intn(2) == 0 {
		l.obj = l.type2.New()
		l.model = reflect.Zero(l.typ)
	} else {
		cap := rng.Intn(12)
		length := rng.Intn(cap + 1)
		l.obj = l.type2.MakeSlice(length, cap)
		l.model = reflect.MakeSlice(l.typ, length, cap)
	}
	l.compare()
	steps := 4 + rng.Intn(50)
	for s := 0; s < steps; s++ {
		l.step()
		if rng.Intn(60) == 0 {
			l.collect()
		}
	}
	l.t.Count("steps", steps)
	t.CountMax("longest_slice", l.model.Len())
	t.Eval(fmt.Sprint(l.typ, vk.Hash(l.log)))
	if len(l.log) < 8 {
		t.Sample("slice", map[string]interface{}{"type": l.typ.String(), "steps": l.log, "result": fmt.Sprintf("%.200s", hx.Digest(l.val()))})
	}
}

func arrayCase(t *vk.T, rng *rand.Rand, i int) {
	elemType := hx.AnyType(rng, 2)
	size := 1 + rng.Intn(6)
	typ := reflect.ArrayOf(size, elemType)
	t.Begin(func() string { return fmt.Sprintf("case %d %s", i, typ) })
	type2 := reflect2.Type2(typ).(reflect2.ArrayType)
	if type2.Len() != size || type2.Elem().Type1() != elemType {
		t.Violate("type", "array type %s has length %d of %s", typ, type2.Len(), type2.Elem())
	}
	// with neighbours on both sides
	around := reflect.New(reflect.ArrayOf(3, typ)).Elem()
	for k := 0; k < 3; k++ {
		for j := 0; j < size; j++ {
			around.Index(k).Index(j).Set(hx.AnyOf(rng, elemType))
		}
	}
	model := reflect.New(around.Type()).Elem()
	model.Set(around)
	obj := around.Index(1).Addr().Interface()
	var log []string
	check := func() bool {
		if !hx.Same(around, model) {
			t.Violate("array", "%s is %.300s instead of %.300s after %v", typ, hx.Digest(around), hx.Digest(model), log)
			return false
		}
		return true
	}
	for s := 3 + rng.Intn(12); s > 0; s-- {
		j := rng.Intn(size)
		unsafely := rng.Intn(2) == 0
		switch rng.Intn(5) {
		case 0, 1:
			p := ptrOf(hx.AnyOf(rng, elemType))
			log = append(log, fmt.Sprintf("SetIndex(%d) unsafe=%v", j, unsafely))
			if unsafely {
				type2.UnsafeSetIndex(reflect2.PtrOf(obj), j, reflect2.PtrOf(p.Interface()))
			} else {
				type2.SetIndex(obj, j, p.Interface())
			}
			model.Index(1).Index(j).Set(p.Elem())
		case 2, 3:
			log = append(log, fmt.Sprintf("GetIndex(%d) unsafe=%v", j, unsafely))
			var got reflect.Value
			if unsafely {
				got = reflect.NewAt(elemType, type2.UnsafeGetIndex(reflect2.PtrOf(obj), j))
			} else {
				got = reflect.ValueOf(type2.GetIndex(obj, j))
			}
			if got.Type() != reflect.PtrTo(elemType) || !hx.Same(got.Elem(), model.Index(1).Index(j)) {
				t.Violate("get", "GetIndex(%d) of %s returns %s %.300s instead of %.300s", j, typ, got.Type(), hx.Digest(got), hx.Digest(model.Index(1).Index(j)))
			}
		case 4:
			log = append(log, "Indirect")
			got := reflect.ValueOf(type2.Indirect(obj))
			if unsafely {
				got = reflect.ValueOf(type2.UnsafeIndirect(reflect2.PtrOf(obj)))
			}
			if !hx.Same(got, model.Index(1)) {
				t.Violate("indirect", "Indirect of %s returns %.300s instead of %.300s", typ, hx.Digest(got), hx.Digest(model.Index(1)))
			}
			if rng.Intn(8) == 0 {
				before := hx.Digest(got)
				hx.Churn(rng)
				if after := hx.Digest(got); after != before {
					t.Violate("gc", "value of %s is %.300s after garbage collection, was %.300s", typ, after, before)
				}
			}
		}
		if !check() {
			return
		}
	}
	t.Eval(fmt.Sprint(typ, vk.Hash(log)))
	t.Count("arrays", 1)
}

// ---------------------------------------------------------------- objects on the stack of the caller

type box struct{ a, b int }

func stackSetIndex(t *vk.T, st *reflect2.UnsafeSliceType, n int) {
	var array [4]*box
	s := array[:]
	keep := make([]*box, 0, 4)
	_ = keep
	escaping := make([]*box, 4)
	heap := &escaping
	for i := range s {
		e := &box{n + i, n - i}
		st.UnsafeSetIndex(unsafe.Pointer(heap), i, unsafe.Pointer(&e))
	}
	for i := range s {
		e := &box{n * i, n}
		st.UnsafeSetIndex(unsafe.Pointer(&s), i, unsafe.Pointer(&e))
	}
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	for i := range s {
		if *(*heap)[i] != (box{n + i, n - i}) || *s[i] != (box{n * i, n}) {
			t.ViolateAsync("stack", "element %d set by UnsafeSetIndex is %v and %v after the stack moved", i, *(*heap)[i], *s[i])
		}
	}
}

var global *[]*box

func stackAppend(t *vk.T, st *reflect2.UnsafeSliceType, n int) {
	s := make([]*box, 0, 1)
	out := new([]*box)
	global = out
	for i := 0; i < 9; i++ {
		e := &box{n, i}
		st.UnsafeAppend(unsafe.Pointer(&s), unsafe.Pointer(&e))
		f := &box{i, n}
		st.UnsafeAppend(unsafe.Pointer(out), unsafe.Pointer(&f))
	}
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	for i := range s {
		if *s[i] != (box{n, i}) || *(*out)[i] != (box{i, n}) {
			t.ViolateAsync("stack", "element %d appended is %v and %v after the stack moved", i, *s[i], *(*out)[i])
		}
	}
}

func stackGrow(t *vk.T, st *reflect2.UnsafeSliceType, n int) {
	e := &box{n, 1}
	f := &box{n, 2}
	s := []*box{e, f}
	st.UnsafeGrow(unsafe.Pointer(&s), 7)
	s2 := []*box{{n, 3}}
	st.UnsafeGrow(unsafe.Pointer(&s2), 2)
	global = new([]*box)
	st.UnsafeSet(unsafe.Pointer(global), unsafe.Pointer(&s2))
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	if *s[0] != (box{n, 1}) || *s[1] != (box{n, 2}) || s[6] != nil || *(*global)[0] != (box{n, 3}) {
		t.ViolateAsync("stack", "grown slice has elements %v %v %v %v after the stack moved", *s[0], *s[1], s[6], *(*global)[0])
	}
}

var globalIface interface{}

func stackGet(t *vk.T, st *reflect2.UnsafeSliceType, at *reflect2.UnsafeArrayType, n int) {
	s := []*box{{n, 0}, {n, 1}, {n, 2}}
	got := (**box)(st.UnsafeGetIndex(unsafe.Pointer(&s), 1))
	a := [3]*box{{n, 3}, {n, 4}, {n, 5}}
	global2 := (**box)(at.UnsafeGetIndex(unsafe.Pointer(&a), 2))
	globalIface = global2
	b := [3]*box{{n, 6}, {n, 7}, {n, 8}}
	e := &box{n, 9}
	at.UnsafeSetIndex(unsafe.Pointer(&b), 0, unsafe.Pointer(&e))
	whole := at.UnsafeIndirect(unsafe.Pointer(&b))
	globalIface = []interface{}{global2, whole}
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	kept := globalIface.([]interface{})
	if **got != (box{n, 1}) || **kept[0].(**box) != (box{n, 5}) || *kept[1].([3]*box)[0] != (box{n, 9}) || *kept[1].([3]*box)[2] != (box{n, 8}) {
		t.ViolateAsync("stack", "elements got are %v %v %v after the stack moved", **got, **kept[0].(**box), kept[1])
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C28",
		Rule:          "seeded slice and array types over element types of all kinds and layouts (pointers, interfaces, functions, channels, zero size, one pointer structs, larger than the small size classes, padding) and seeded sequences of up to 54 operations through interfaces and through unsafe pointers (make, set, get, append, grow and shrink, set nil, take over, indirect) on windows of larger arrays; model: the same operations by package reflect, whole backing array compared after every step; garbage collections with freed memory clobbered between steps; objects on stacks that move. Non trivial: distinct sequences.",
		MinNontrivial: 1000,
		Env:           []string{"GODEBUG=clobberfree=1"},
		Assumptions:   []string{"indices are within the length: the layer does not check them"},
		Run: func(t *vk.T) {
			rng := t.Rng("slices")
			n := t.N(4000, 200000)
			for i := 0; i < n && !t.Violated(); i++ {
				if i%4 == 3 {
					arrayCase(t, rng, i)
				} else {
					sliceCase(t, rng, i)
				}
			}
			st := reflect2.TypeOf([]*box{}).(*reflect2.UnsafeSliceType)
			at := reflect2.TypeOf([3]*box{}).(*reflect2.UnsafeArrayType)
			for i := 0; i < t.N(60, 2000) && !t.Violated(); i++ {
				t.Begin(func() string { return fmt.Sprint("stack case ", i) })
				for name, f := range map[string]func(){
					"set": func() { stackSetIndex(t, st, i) }, "append": func() { stackAppend(t, st, i) }, "grow": func() { stackGrow(t, st, i) }, "get": func() { stackGet(t, st, at, i) },
				} {
					if recovered := hx.OnSmallStack(f); recovered != nil {
						t.Violate("stack", "%s on stack panics: %v", name, recovered)
					}
					t.Count("stack_cases", 1)
				}
			}
		},
	})
}
