package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/reflect2"
)

func ptrOf(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// twin is the same object, handled by each of the implementations
type twin struct {
	t     *vk.T
	rng   *rand.Rand
	typ   reflect.Type
	types [2]reflect2.Type
	objs  [2]interface{}
	log   []string
}

var apis = [2]reflect2.API{reflect2.ConfigSafe, reflect2.ConfigUnsafe}

func (w *twin) violate(sig, format string, args ...interface{}) {
	from := 0
	if len(w.log) > 25 {
		from = len(w.log) - 25
	}
	w.t.Violate(sig, "%s: safe and unsafe differ: %s\nsteps: %v", w.typ, fmt.Sprintf(format, args...), w.log[from:])
}

// both does the same with each implementation and compares what comes out
func (w *twin) both(name string, f func(i int) []interface{}) {
	w.log = append(w.log, name)
	var results [2][]interface{}
	var panics [2]interface{}
	for i := range results {
		panics[i], _ = vk.Protect(func() { results[i] = f(i) })
	}
	w.t.Count("operations", 1)
	if (panics[0] == nil) != (panics[1] == nil) {
		w.violate("panic", "%s panics with %v and %v", name, panics[0], panics[1])
		return
	}
	if panics[0] != nil {
		w.t.Count("both_panic", 1)
	}
	for k := range results[0] {
		a, b := reflect.ValueOf(results[0][k]), reflect.ValueOf(results[1][k])
		if !alike(a, b) {
			w.violate("result", "%s returns %s %.300s and %s %.300s", name, typeText(a), hx.Digest(a), typeText(b), hx.Digest(b))
			return
		}
	}
	w.compare(name)
}

func typeText(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	return v.Type().String()
}

// alike compares results: pointers by what they point to
func alike(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Kind() == reflect.Ptr {
		if a.IsNil() != b.IsNil() {
			return false
		}
		return a.IsNil() || hx.Same(a.Elem(), b.Elem())
	}
	return hx.Same(a, b)
}

// compare compares both objects, whose memory is not shared
func (w *twin) compare(name string) {
	a, b := reflect.ValueOf(w.objs[0]).Elem(), reflect.ValueOf(w.objs[1]).Elem()
	ok := true
	switch w.typ.Kind() {
	case reflect.Slice:
		ok = a.IsNil() == b.IsNil() && a.Len() == b.Len()
		for i := 0; ok && i < a.Len(); i++ {
			ok = hx.Same(a.Index(i), b.Index(i))
		}
	case reflect.Map:
		ok = a.IsNil() == b.IsNil() && a.Len() == b.Len() && hx.Digest(a) == hx.Digest(b)
	default:
		ok = hx.Same(a, b)
	}
	if !ok {
		w.violate("object", "after %s the objects are %.400s and %.400s", name, hx.Digest(a), hx.Digest(b))
	}
}

func (w *twin) begin(t *vk.T, rng *rand.Rand, typ reflect.Type, what string) {
	w.t, w.rng, w.typ = t, rng, typ
	t.Begin(func() string { return what + " " + typ.String() })
	for i := range apis {
		w.types[i] = apis[i].Type2(typ)
	}
}

func (w *twin) end(kind string) {
	w.t.Eval(fmt.Sprint(w.typ, vk.Hash(w.log)))
	w.t.Count(kind, 1)
	if len(w.log) < 8 && len(w.typ.String()) < 80 {
		w.t.Sample(kind, map[string]interface{}{"type": w.typ.String(), "steps": w.log})
	}
}

// any makes a value of the type; both implementations get copies of it
func (w *twin) any(typ reflect.Type) [2]interface{} {
	v := hx.AnyOf(w.rng, typ)
	return [2]interface{}{ptrOf(v).Interface(), ptrOf(v).Interface()}
}

// general are the operations every type has
func (w *twin) general() {
	switch w.rng.Intn(6) {
	case 0:
		vals := w.any(w.typ)
		if w.typ.Kind() == reflect.Slice || w.typ.Kind() == reflect.Map {
			return // would share memory
		}
		w.both("Set", func(i int) []interface{} { w.types[i].Set(w.objs[i], vals[i]); return nil })
	case 1:
		if w.typ.Kind() == reflect.Slice || w.typ.Kind() == reflect.Map {
			w.both("Indirect", func(i int) []interface{} {
				got := reflect.ValueOf(w.types[i].Indirect(w.objs[i]))
				return []interface{}{got.Type() == w.typ, got.Len(), got.IsNil(), hx.Digest(got)}
			})
			return
		}
		w.both("Indirect", func(i int) []interface{} { return []interface{}{w.types[i].Indirect(w.objs[i])} })
	case 2:
		w.both("New", func(i int) []interface{} { return []interface{}{w.types[i].New()} })
	case 3:
		if nullable(w.typ) {
			w.both("IsNil", func(i int) []interface{} { return []interface{}{w.types[i].IsNil(w.objs[i]), w.types[i].IsNil(nil)} })
		}
	case 4:
		iface := reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
		another := hx.AnyType(w.rng, 1)
		w.both("type", func(i int) []interface{} {
			t := w.types[i]
			return []interface{}{t.Kind(), t.String(), t.IsNullable(), t.Type1() == w.typ, t.Implements(apis[i].Type2(iface)), t.AssignableTo(apis[i].Type2(another)), apis[i].TypeOf(w.objs[i]).Type1() == reflect.PtrTo(w.typ)}
		})
	case 5:
		var bad interface{} = new(chan chan chan bool)
		w.both("Set to a wrong type", func(i int) []interface{} {
			if w.typ.Kind() != reflect.Interface {
				w.types[i].Set(w.objs[i], bad)
			}
			return nil
		})
	}
}

func nullable(typ reflect.Type) bool {
	switch typ.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface:
		return true
	}
	return false
}

func (w *twin) list(i int) reflect2.ListType   { return w.types[i].(reflect2.ListType) }
func (w *twin) slice(i int) reflect2.SliceType { return w.types[i].(reflect2.SliceType) }

func (w *twin) element(n int) {
	if n == 0 {
		return
	}
	k := w.rng.Intn(n)
	if w.rng.Intn(2) == 0 {
		vals := w.any(w.typ.Elem())
		w.both(fmt.Sprintf("SetIndex(%d)", k), func(i int) []interface{} { w.list(i).SetIndex(w.objs[i], k, vals[i]); return nil })
	} else {
		w.both(fmt.Sprintf("GetIndex(%d)", k), func(i int) []interface{} { return []interface{}{w.list(i).GetIndex(w.objs[i], k)} })
	}
}

func sliceCase(t *vk.T, rng *rand.Rand) {
	w := &twin{}
	w.begin(t, rng, reflect.SliceOf(hx.AnyType(rng, 2)), "slice")
	length := rng.Intn(6)
	cap := length + rng.Intn(5)
	for i := range w.objs {
		if length == 0 {
			w.objs[i] = w.types[i].New()
		} else {
			w.objs[i] = w.slice(i).MakeSlice(length, cap)
		}
	}
	for s := 3 + rng.Intn(30); s > 0; s-- {
		n := reflect.ValueOf(w.objs[0]).Elem().Len()
		switch rng.Intn(8) {
		case 0, 1:
			w.element(n)
		case 2, 3:
			vals := w.any(w.typ.Elem())
			w.both("Append", func(i int) []interface{} { w.slice(i).Append(w.objs[i], vals[i]); return nil })
		case 4:
			to := rng.Intn(2*n + 3)
			beyond := [2]bool{}
			for i := range w.objs {
				beyond[i] = to > reflect.ValueOf(w.objs[i]).Elem().Cap()
			}
			if beyond[0] != beyond[1] {
				continue // depends on the capacity, which may differ
			}
			w.both(fmt.Sprintf("Grow(%d)", to), func(i int) []interface{} { w.slice(i).Grow(w.objs[i], to); return nil })
		case 5:
			w.both("LengthOf", func(i int) []interface{} {
				return []interface{}{w.slice(i).LengthOf(w.objs[i]), w.slice(i).Cap(w.objs[i]) == reflect.ValueOf(w.objs[i]).Elem().Cap(), w.slice(i).Elem().Type1() == w.typ.Elem()}
			})
		case 6:
			if rng.Intn(5) == 0 {
				w.both("SetNil", func(i int) []interface{} { w.slice(i).SetNil(w.objs[i]); return nil })
			} else if rng.Intn(3) == 0 {
				length := rng.Intn(5)
				cap := length + rng.Intn(4)
				w.both(fmt.Sprintf("MakeSlice(%d, %d)", length, cap), func(i int) []interface{} {
					w.slice(i).Set(w.objs[i], w.slice(i).MakeSlice(length, cap))
					return []interface{}{w.slice(i).Cap(w.objs[i])}
				})
			}
		case 7:
			w.general()
		}
	}
	w.end("slices")
}

func arrayCase(t *vk.T, rng *rand.Rand) {
	w := &twin{}
	w.begin(t, rng, reflect.ArrayOf(1+rng.Intn(5), hx.AnyType(rng, 2)), "array")
	w.objs = w.any(w.typ)
	for s := 3 + rng.Intn(15); s > 0; s-- {
		if rng.Intn(2) == 0 {
			w.element(w.typ.Len())
		} else {
			w.general()
		}
	}
	w.end("arrays")
}

func mapCase(t *vk.T, rng *rand.Rand) {
	w := &twin{}
	elem := hx.AnyType(rng, 2)
	keyType := hx.GenKeyType(rng)
	for keyType.Kind() == reflect.Interface {
		keyType = hx.GenKeyType(rng)
	}
	w.begin(t, rng, reflect.MapOf(keyType, elem), "map")
	mt := func(i int) reflect2.MapType { return w.types[i].(reflect2.MapType) }
	isNil := rng.Intn(6) == 0
	size := rng.Intn(20)
	for i := range w.objs {
		if isNil {
			w.objs[i] = w.types[i].New()
		} else {
			w.objs[i] = mt(i).MakeMap(size)
		}
	}
	var keys []reflect.Value
	for k := 1 + rng.Intn(15); k > 0; k-- {
		keys = append(keys, hx.AnyOf(rng, keyType))
	}
	for s := 3 + rng.Intn(40); s > 0; s-- {
		key := keys[rng.Intn(len(keys))]
		kp := [2]interface{}{ptrOf(key).Interface(), ptrOf(key).Interface()}
		switch rng.Intn(8) {
		case 0, 1, 2:
			vals := w.any(elem)
			w.both("SetIndex", func(i int) []interface{} { mt(i).SetIndex(w.objs[i], kp[i], vals[i]); return nil })
		case 3:
			w.both("GetIndex", func(i int) []interface{} { return []interface{}{mt(i).GetIndex(w.objs[i], kp[i])} })
		case 4:
			w.both("TryGetIndex", func(i int) []interface{} {
				got, found := mt(i).TryGetIndex(w.objs[i], kp[i])
				return []interface{}{got, found}
			})
		case 5:
			w.both("Iterate", func(i int) []interface{} {
				it := mt(i).Iterate(w.objs[i])
				n := 0
				var sum uint64
				for it.HasNext() {
					key, elem := it.Next()
					kv, ev := reflect.ValueOf(key), reflect.ValueOf(elem)
					sum += vk.Hash(kv.Type(), ev.Type(), hx.Digest(kv), hx.Digest(ev))
					if n++; n > 1000 {
						break
					}
				}
				w.t.Count("entries_visited", n)
				return []interface{}{n, sum}
			})
		case 6:
			w.both("Key Elem", func(i int) []interface{} {
				return []interface{}{mt(i).Key().Type1() == keyType, mt(i).Elem().Type1() == elem}
			})
		case 7:
			w.general()
		}
	}
	w.end("maps")
}

var structs = []reflect.Type{
	reflect.TypeOf(hx.Pair{}), reflect.TypeOf(hx.Derived{}), reflect.TypeOf(hx.Padded{}), reflect.TypeOf(hx.Huge{}), reflect.TypeOf(hx.Holes{}), reflect.TypeOf(hx.Inner1{}), reflect.TypeOf(hx.Inner2{}),
	reflect.TypeOf(hx.Inner3{}), reflect.TypeOf(hx.Inner4{}), reflect.TypeOf(hx.Shadow{}), reflect.TypeOf(hx.Tagged{}), reflect.TypeOf(hx.OnePtr{}), reflect.TypeOf(hx.MapWrapper{}), reflect.TypeOf(hx.Closers{}),
}

var names = []string{"Deep0", "DeepP", "Deep1", "Deep2", "Deep3", "A", "B", "C", "P", "Tail", "Inner0", "Inner1", "Inner2", "Inner3", "ID", "Kind", "X", "Y", "Extra", "E", "M", "S", "F1", "F2", "F3"}

func structCase(t *vk.T, rng *rand.Rand) {
	w := &twin{}
	typ := structs[rng.Intn(len(structs))]
	if rng.Intn(2) == 0 {
		for {
			if typ = hx.AnyType(rng, 2); typ.Kind() == reflect.Struct {
				break
			}
		}
	}
	w.begin(t, rng, typ, "struct")
	w.objs = w.any(typ)
	for s := 2 + rng.Intn(20); s > 0; s-- {
		if rng.Intn(5) == 0 {
			w.general()
			continue
		}
		name := names[rng.Intn(len(names))]
		if typ.NumField() > 0 && rng.Intn(2) == 0 {
			name = typ.Field(rng.Intn(typ.NumField())).Name
		}
		want, found := typ.FieldByName(name)
		if !found || want.PkgPath != "" {
			continue
		}
		var fields [2]reflect2.StructField
		w.both(fmt.Sprintf("FieldByName(%s)", name), func(i int) []interface{} {
			f := w.types[i].(interface {
				FieldByName(string) reflect2.StructField
			}).FieldByName(name)
			fields[i] = f
			return []interface{}{f.Name(), f.Offset(), f.PkgPath(), f.Tag(), fmt.Sprint(f.Index()), f.Anonymous()}
		})
		if fields[0] == nil || fields[1] == nil {
			return
		}
		if behindNil(reflect.ValueOf(w.objs[0]).Elem(), want.Index) || behindNil(reflect.ValueOf(w.objs[1]).Elem(), want.Index) {
			t.Count("fields_behind_nil", 1)
		}
		// what is behind an embedded pointer is shared by both, so it is only read
		if rng.Intn(2) == 0 && !throughPtr(typ, want.Index) {
			vals := w.any(want.Type)
			w.both("set "+name, func(i int) []interface{} { fields[i].Set(w.objs[i], vals[i]); return nil })
		} else {
			w.both("get "+name, func(i int) []interface{} { return []interface{}{fields[i].Get(w.objs[i])} })
		}
	}
	w.end("structs")
}

func throughPtr(typ reflect.Type, index []int) bool {
	for _, i := range index[:len(index)-1] {
		typ = typ.Field(i).Type
		if typ.Kind() == reflect.Ptr {
			return true
		}
	}
	return false
}

func behindNil(v reflect.Value, index []int) bool {
	for _, i := range index[:len(index)-1] {
		v = v.Field(i)
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return true
			}
			v = v.Elem()
		}
	}
	return false
}

func valueCase(t *vk.T, rng *rand.Rand) {
	w := &twin{}
	typ := hx.AnyType(rng, 2)
	for typ.Kind() == reflect.Slice || typ.Kind() == reflect.Map {
		typ = hx.AnyType(rng, 2)
	}
	w.begin(t, rng, typ, "value")
	w.objs = w.any(typ)
	for s := 3 + rng.Intn(10); s > 0; s-- {
		w.general()
	}
	w.end("values")
}

func main() {
	vk.Main(vk.Check{
		ID:            "C31",
		Rule:          "seeded types of all kinds (slices, arrays, maps, structs with embedding, pointers, interfaces, functions, channels, numbers) and seeded sequences of up to 43 operations, each done by the safe and by the unsafe implementation on its own copy of the object; results, panics and objects compared after every operation. Non trivial: distinct sequences.",
		MinNontrivial: 1000,
		Assumptions: []string{
			"not compared, as the implementations differ by design: capacities after Append, unexported fields, operations that the safe implementation refuses as unsafe",
		},
		Run: func(t *vk.T) {
			rng := t.Rng("twins")
			n := t.N(6000, 400000)
			for i := 0; i < n && !t.Violated(); i++ {
				switch i % 5 {
				case 0:
					sliceCase(t, rng)
				case 1:
					arrayCase(t, rng)
				case 2:
					mapCase(t, rng)
				case 3:
					structCase(t, rng)
				case 4:
					valueCase(t, rng)
				}
			}
		},
	})
}
