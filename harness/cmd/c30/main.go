package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/reflect2"
)

func ptrOf(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// ---------------------------------------------------------------- structs

// paths finds all the fields that can be reached, by index
func paths(typ reflect.Type, prefix []int, depth int) [][]int {
	var out [][]int
	for i := 0; i < typ.NumField(); i++ {
		path := append(append([]int(nil), prefix...), i)
		out = append(out, path)
		field := typ.Field(i)
		ft := field.Type
		if ft.Kind() == reflect.Ptr && field.Anonymous {
			ft = ft.Elem()
		}
		if ft.Kind() == reflect.Struct && depth > 0 && (field.Type.Kind() == reflect.Struct || field.Anonymous) {
			out = append(out, paths(ft, path, depth-1)...)
		}
	}
	return out
}

var structs = []reflect.Type{
	reflect.TypeOf(hx.Pair{}), reflect.TypeOf(hx.Tree{}), reflect.TypeOf(hx.Derived{}), reflect.TypeOf(hx.Padded{}), reflect.TypeOf(hx.Wrapper{}), reflect.TypeOf(hx.Closers{}), reflect.TypeOf(hx.Mixed{}),
	reflect.TypeOf(hx.Huge{}), reflect.TypeOf(hx.Holes{}), reflect.TypeOf(hx.Inner1{}), reflect.TypeOf(hx.Inner2{}), reflect.TypeOf(hx.Inner3{}), reflect.TypeOf(hx.Inner4{}), reflect.TypeOf(hx.Shadow{}), reflect.TypeOf(hx.Tagged{}),
	reflect.TypeOf(hx.Nested{}), reflect.TypeOf(hx.OnePtr{}), reflect.TypeOf(hx.MapWrapper{}), reflect.TypeOf(struct{ E interface{} }{}), reflect.TypeOf(struct{ U unsafe.Pointer }{}),
}

type object struct {
	t             *vk.T
	rng           *rand.Rand
	typ           reflect.Type
	type2         reflect2.StructType
	around, model reflect.Value
	obj           interface{}
	log           []string
}

func (o *object) violate(sig, format string, args ...interface{}) {
	from := 0
	if len(o.log) > 25 {
		from = len(o.log) - 25
	}
	o.t.Violate(sig, "%s: %s\nsteps: %v", o.typ, fmt.Sprintf(format, args...), o.log[from:])
}

func (o *object) ptr() unsafe.Pointer { return unsafe.Pointer(reflect.ValueOf(o.obj).Pointer()) }

// find returns a field by one of the four ways and what reflect says about it
func (o *object) find() (reflect2.StructField, reflect.StructField, []int, string) {
	rng := o.rng
	all := paths(o.typ, nil, 4)
	if len(all) == 0 {
		return nil, reflect.StructField{}, nil, ""
	}
	path := all[rng.Intn(len(all))]
	want := o.typ.FieldByIndex(path)
	switch rng.Intn(4) {
	case 0:
		i := rng.Intn(o.typ.NumField())
		return o.type2.Field(i), o.typ.Field(i), []int{i}, fmt.Sprintf("Field(%d)", i)
	case 1:
		byName, found := o.typ.FieldByName(want.Name)
		got := o.type2.FieldByName(want.Name)
		if !found {
			if got != nil && !reflect.ValueOf(got).IsNil() {
				o.violate("find", "field %s is found although it is ambiguous", want.Name)
			}
			return nil, want, nil, ""
		}
		return got, byName, byName.Index, fmt.Sprintf("FieldByName(%s)", want.Name)
	case 2:
		match := func(name string) bool { return name == want.Name }
		byName, found := o.typ.FieldByNameFunc(match)
		if !found {
			return nil, want, nil, ""
		}
		return o.type2.FieldByNameFunc(match), byName, byName.Index, fmt.Sprintf("FieldByNameFunc(%s)", want.Name)
	}
	return o.type2.FieldByIndex(path), want, path, fmt.Sprintf("FieldByIndex(%v)", path)
}

// reach follows the path, and tells if it ends at a nil pointer
func reach(v reflect.Value, path []int) (reflect.Value, bool) {
	for k, i := range path {
		if k > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Value{}, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

func (o *object) step() {
	rng := o.rng
	field, want, path, name := o.find()
	if path == nil {
		return
	}
	o.log = append(o.log, name)
	if field == nil {
		o.violate("find", "%s finds nothing", name)
		return
	}
	if field.Name() != want.Name || field.Offset() != want.Offset || field.PkgPath() != want.PkgPath || field.Tag() != want.Tag || field.Anonymous() != want.Anonymous ||
		field.Type().Type1() != want.Type || !reflect.DeepEqual(field.Index(), want.Index) {
		o.violate("field", "%s is %s offset %d package %q tag %q anonymous %v type %s index %v instead of %+v", name, field.Name(), field.Offset(), field.PkgPath(), field.Tag(), field.Anonymous(), field.Type(), field.Index(), want)
		return
	}
	target, reachable := reach(o.model.Index(1), path)
	if !reachable {
		recovered, _ := vk.Protect(func() { field.Get(o.obj) })
		if recovered == nil {
			o.violate("nil", "%s through a nil pointer does not panic", name)
		}
		o.t.Count("fields_behind_nil", 1)
		return
	}
	if len(path) > 1 {
		o.t.Count("promoted_fields", 1)
	}
	set := rng.Intn(2) == 0 && target.CanSet()
	if set {
		value := ptrOf(hx.AnyOf(rng, want.Type))
		unsafely := rng.Intn(2) == 0
		o.log = append(o.log, fmt.Sprintf("set unsafe=%v", unsafely))
		if unsafely {
			field.UnsafeSet(o.ptr(), reflect2.PtrOf(value.Interface()))
		} else {
			field.Set(o.obj, value.Interface())
		}
		target.Set(value.Elem())
		o.t.Count("fields_set", 1)
	} else {
		var got reflect.Value
		if rng.Intn(2) == 0 {
			got = reflect.ValueOf(field.Get(o.obj))
		} else {
			got = reflect.NewAt(want.Type, field.UnsafeGet(o.ptr()))
		}
		if got.Type() != reflect.PtrTo(want.Type) || !hx.Same(got.Elem(), target) {
			o.violate("get", "%s gives %s %.300s instead of %.300s", name, got.Type(), hx.Digest(got), hx.Digest(target))
		}
		o.t.Count("fields_read", 1)
	}
	if !hx.Same(o.around, o.model) {
		o.violate("object", "object is %.400s instead of %.400s", hx.Digest(o.around), hx.Digest(o.model))
	}
	if rng.Intn(10) == 0 {
		o.wrongType(field, want, name)
	}
}

// other is a pointer to a type that can not be assigned to typ
func other(rng *rand.Rand, typ reflect.Type) interface{} {
	for {
		v := hx.AnyOf(rng, hx.AnyType(rng, 1))
		if v.Kind() != reflect.Interface && !v.Type().AssignableTo(typ) {
			return ptrOf(v).Interface()
		}
	}
}

func (o *object) wrongType(field reflect2.StructField, want reflect.StructField, name string) {
	if want.Type.Kind() == reflect.Interface && want.Type.NumMethod() == 0 {
		return
	}
	bad := other(o.rng, want.Type)
	recovered, _ := vk.Protect(func() { field.Set(o.obj, bad) })
	if recovered == nil {
		o.violate("wrong-type", "%s of %s is set to %T", name, want.Type, bad)
	}
	recovered, _ = vk.Protect(func() { field.Set(other(o.rng, o.typ), ptrOf(hx.AnyOf(o.rng, want.Type)).Interface()) })
	if recovered == nil {
		o.violate("wrong-type", "%s is set on an object of another type", name)
	}
	recovered, _ = vk.Protect(func() { field.Get(other(o.rng, o.typ)) })
	if recovered == nil {
		o.violate("wrong-type", "%s is read from an object of another type", name)
	}
	if !hx.Same(o.around, o.model) {
		o.violate("wrong-type", "object is changed by a refused operation")
	}
	o.t.Count("refused", 3)
}

func structCase(t *vk.T, rng *rand.Rand, i int) {
	o := &object{t: t, rng: rng}
	o.typ = structs[rng.Intn(len(structs))]
	switch rng.Intn(5) {
	case 0:
		o.typ = hx.PackedType(rng)
	case 1, 2:
		for {
			if o.typ = hx.AnyType(rng, 2); o.typ.Kind() == reflect.Struct {
				break
			}
		}
	}
	t.Begin(func() string { return fmt.Sprintf("struct case %d %s", i, o.typ) })
	o.type2 = reflect2.Type2(o.typ).(reflect2.StructType)
	if o.type2.NumField() != o.typ.NumField() {
		o.violate("field", "has %d fields instead of %d", o.type2.NumField(), o.typ.NumField())
	}
	o.around = reflect.New(reflect.ArrayOf(3, o.typ)).Elem()
	for k := 0; k < 3; k++ {
		o.around.Index(k).Set(hx.AnyOf(rng, o.typ))
	}
	o.model = reflect.New(o.around.Type()).Elem()
	o.model.Set(o.around)
	o.obj = o.around.Index(1).Addr().Interface()
	for s := 2 + rng.Intn(20); s > 0; s-- {
		o.step()
	}
	if field := o.type2.FieldByName("NoSuchField"); field != nil && !reflect.ValueOf(field).IsNil() {
		o.violate("find", "finds a field that does not exist")
	}
	t.Eval(fmt.Sprint(o.typ, vk.Hash(o.log)))
	t.Count("structs", 1)
	if len(o.log) < 7 {
		t.Sample("struct", map[string]interface{}{"type": fmt.Sprintf("%.200s", o.typ), "steps": o.log})
	}
}

// ---------------------------------------------------------------- values and interfaces

var ifaces = []reflect.Type{
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*io.Closer)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*interface{})(nil)).Elem(),
}

func valueCase(t *vk.T, rng *rand.Rand, i int) {
	typ := hx.AnyType(rng, 2)
	t.Begin(func() string { return fmt.Sprintf("value case %d %s", i, typ) })
	type2 := reflect2.Type2(typ)
	fail := func(sig, format string, args ...interface{}) {
		t.Violate(sig, "%s: %s", typ, fmt.Sprintf(format, args...))
	}
	if type2.Type1() != typ || type2.Kind() != typ.Kind() || type2.String() != typ.String() {
		fail("type", "wrapped as %s %s %s", type2.Type1(), type2.Kind(), type2.String())
	}
	for _, iface := range ifaces {
		if got := type2.Implements(reflect2.Type2(iface)); got != typ.Implements(iface) {
			fail("type", "implements %s: %v", iface, got)
		}
		if got := type2.AssignableTo(reflect2.Type2(iface)); got != typ.AssignableTo(iface) {
			fail("type", "assignable to %s: %v", iface, got)
		}
	}
	another := hx.AnyType(rng, 1)
	if got := type2.AssignableTo(reflect2.Type2(another)); got != typ.AssignableTo(another) {
		fail("type", "assignable to %s: %v", another, got)
	}
	if same := type2.RType() == reflect2.Type2(another).RType(); same != (typ == another) {
		fail("rtype", "same as %s: %v", another, same)
	}
	if ptrType := reflect2.PtrTo(type2); ptrType.Type1() != reflect.PtrTo(typ) || ptrType.(reflect2.PtrType).Elem().RType() != type2.RType() {
		fail("type", "pointer type is %s", ptrType)
	}
	nullable := false
	switch typ.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface:
		nullable = true
	}
	if type2.IsNullable() != nullable && typ.Kind() != reflect.UnsafePointer {
		fail("nullable", "nullable is %v", type2.IsNullable())
	}

	// the value between neighbours
	around := reflect.New(reflect.ArrayOf(3, typ)).Elem()
	for k := 0; k < 3; k++ {
		around.Index(k).Set(hx.AnyOf(rng, typ))
	}
	model := reflect.New(around.Type()).Elem()
	model.Set(around)
	obj := around.Index(1).Addr().Interface()
	ptr := reflect2.PtrOf(obj)
	if uintptr(ptr) != around.Index(1).Addr().Pointer() {
		fail("ptr", "PtrOf is not the pointer")
	}
	if reflect2.RTypeOf(obj) != reflect2.TypeOf(obj).RType() || reflect2.TypeOf(obj).Type1() != reflect.PtrTo(typ) {
		fail("rtype", "TypeOf pointer to it is %s", reflect2.TypeOf(obj))
	}
	value := model.Index(1)

	// indirection
	for _, got := range []interface{}{type2.Indirect(obj), type2.UnsafeIndirect(ptr)} {
		want := reflect.ValueOf(value.Interface())
		if !hx.Same(reflect.ValueOf(got), want) {
			fail("indirect", "indirection gives %.300s instead of %.300s", hx.Digest(reflect.ValueOf(got)), hx.Digest(want))
		}
	}
	// packing
	packed := type2.PackEFace(ptr)
	if reflect.TypeOf(packed) != reflect.PtrTo(typ) || reflect.ValueOf(packed).Pointer() != uintptr(ptr) {
		fail("pack", "PackEFace gives %T", packed)
	}
	// what is in the interface
	if typ.Kind() != reflect.Interface {
		boxed := value.Interface()
		if reflect2.TypeOf(boxed).RType() != type2.RType() || reflect2.RTypeOf(boxed) != type2.RType() {
			fail("rtype", "TypeOf value is %s", reflect2.TypeOf(boxed))
		}
		data := reflect2.PtrOf(boxed)
		if type2.LikePtr() {
			if data != *(*unsafe.Pointer)(ptr) {
				fail("like-ptr", "is said to be stored in the interface directly")
			}
		} else if typ.Size() > 0 && !hx.Same(reflect.NewAt(typ, data).Elem(), value) {
			fail("like-ptr", "is said to be stored in the interface by pointer")
		}
		switch typ.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
			if got := reflect2.IsNil(boxed); got != value.IsNil() {
				fail("nil", "IsNil of %.200s is %v", hx.Digest(value), got)
			}
		case reflect.Bool, reflect.Int, reflect.String, reflect.Float64, reflect.Uint8:
			if reflect2.IsNil(boxed) {
				fail("nil", "IsNil of %.200s is true", hx.Digest(value))
			}
		}
	} else if typ.NumMethod() > 0 {
		got := reflect2.IFaceToEFace(ptr)
		if !hx.Same(reflect.ValueOf(got), reflect.ValueOf(value.Interface())) {
			fail("iface", "IFaceToEFace gives %.300s instead of %.300s", hx.Digest(reflect.ValueOf(got)), hx.Digest(value))
		}
	}
	if nullable {
		if got := type2.IsNil(obj); got != value.IsNil() {
			fail("nil", "Type.IsNil of %.200s is %v", hx.Digest(value), got)
		}
		if !type2.UnsafeIsNil(nil) || !type2.IsNil(nil) {
			fail("nil", "nil is not nil: %v %v", type2.UnsafeIsNil(nil), type2.IsNil(nil))
		}
		if got := type2.UnsafeIsNil(ptr); got != value.IsNil() {
			fail("nil", "Type.UnsafeIsNil of %.200s is %v", hx.Digest(value), got)
		}
	}

	// setting
	src := ptrOf(hx.AnyOf(rng, typ))
	srcCopy := ptrOf(src.Elem())
	if rng.Intn(2) == 0 {
		type2.Set(obj, src.Interface())
	} else {
		type2.UnsafeSet(ptr, reflect2.PtrOf(src.Interface()))
	}
	model.Index(1).Set(src.Elem())
	if !hx.Same(around, model) || !hx.Same(src.Elem(), srcCopy.Elem()) {
		fail("set", "values are %.300s instead of %.300s", hx.Digest(around), hx.Digest(model))
	}
	// changing the source afterwards does not matter
	src.Elem().Set(hx.AnyOf(rng, typ))
	if !hx.Same(around, model) {
		fail("set", "value changes with the source it was set from")
	}
	// creating
	for _, made := range []reflect.Value{reflect.ValueOf(type2.New()), reflect.NewAt(typ, type2.UnsafeNew())} {
		if made.Type() != reflect.PtrTo(typ) || !hx.Same(made.Elem(), reflect.Zero(typ)) {
			fail("new", "new value is %s %.300s", made.Type(), hx.Digest(made))
		}
		v := hx.AnyOf(rng, typ)
		made.Elem().Set(v)
		made2 := reflect.ValueOf(type2.New())
		if !hx.Same(made.Elem(), v) || !hx.Same(made2.Elem(), reflect.Zero(typ)) {
			fail("new", "new values share memory")
		}
		if rng.Intn(25) == 0 {
			before, all := hx.Digest(made), hx.Digest(around)
			hx.Churn(rng)
			t.Count("collections", 1)
			if hx.Digest(made) != before || hx.Digest(around) != all {
				fail("gc", "value changes by garbage collection from %.300s to %.300s", before, hx.Digest(made))
			}
		}
	}
	if typ.Kind() != reflect.Interface {
		for name, f := range map[string]func(){
			"Set to another type":            func() { type2.Set(obj, other(rng, typ)) },
			"Set of another type":            func() { type2.Set(other(rng, typ), ptrOf(hx.AnyOf(rng, typ)).Interface()) },
			"Indirect of pointer to another": func() { type2.Indirect(other(rng, typ)) },
		} {
			if recovered, _ := vk.Protect(f); recovered == nil {
				fail("wrong-type", "%s is accepted", name)
			}
		}
		if !hx.Same(around, model) {
			fail("wrong-type", "value is changed by a refused operation")
		}
		t.Count("refused", 3)
	}
	t.Count("values", 1)
	t.Eval(fmt.Sprint("value", typ, hx.Digest(value)))
	if len(typ.String()) < 60 {
		t.Sample("value", map[string]interface{}{"type": typ.String(), "like_ptr": type2.LikePtr(), "value": fmt.Sprintf("%.100s", hx.Digest(value))})
	}
}

// ---------------------------------------------------------------- types

func typesCase(t *vk.T, rng *rand.Rand) {
	t.Begin(func() string { return "types by name" })
	for _, obj := range []interface{}{&hx.Pair{}, &hx.Tree{}, &hx.Derived{}, &hx.Padded{}, &hx.Inner3{}, &hx.Holes{}, &strings.Builder{}, &vk.Check{}} {
		want := reflect.TypeOf(obj).Elem()
		got := reflect2.TypeByName(want.String())
		if got == nil || got.Type1() != want {
			t.Violate("by-name", "TypeByName(%q) is %v", want.String(), got)
		}
		t.Eval("name " + want.String())
	}
	for _, name := range []string{"", "hx.Missing", "Pair", "hx.pair", "*hx.Pair", "hx.Pair "} {
		if got := reflect2.TypeByName(name); got != nil {
			t.Violate("by-name", "TypeByName(%q) is %v", name, got)
		}
	}
	if reflect2.TypeOf(nil) != nil || !reflect2.IsNil(nil) {
		t.Violate("nil", "TypeOf(nil) is %v", reflect2.TypeOf(nil))
	}
	// many goroutines meet new types at the same time
	for round := 0; round < t.N(60, 1000); round++ {
		var wg sync.WaitGroup
		types := make([]reflect.Type, 12)
		for k := range types {
			types[k] = hx.AnyType(rng, 2)
		}
		api := reflect2.Config{}.Froze()
		for w := 0; w < 8; w++ {
			own := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, k := range own.Perm(len(types)) {
					typ := types[k]
					for _, got := range []reflect2.Type{api.Type2(typ), api.TypeOf(reflect.New(typ).Interface()).(reflect2.PtrType).Elem()} {
						if got.Type1() != typ || got.Kind() != typ.Kind() {
							t.ViolateAsync("type", "%s is wrapped as %s", typ, got)
						}
					}
				}
			}()
		}
		wg.Wait()
		t.Eval(fmt.Sprint("concurrent", types))
		t.Count("concurrent_rounds", 1)
	}
}

// ---------------------------------------------------------------- objects on the stack of the caller

type box struct{ a, b int }

type holder struct {
	n    int8
	p    *box
	i    interface{}
	text string
}

var sink interface{}

func stackFields(t *vk.T, fields []*reflect2.UnsafeStructField, st *reflect2.UnsafeStructType, n int) {
	var h holder
	heap := &holder{}
	sink = heap
	p := &box{n, 1}
	fields[1].UnsafeSet(unsafe.Pointer(&h), unsafe.Pointer(&p))
	q := &box{n, 2}
	fields[1].UnsafeSet(unsafe.Pointer(heap), unsafe.Pointer(&q))
	var any interface{} = box{n, 3}
	fields[2].UnsafeSet(unsafe.Pointer(heap), unsafe.Pointer(&any))
	var buf [8]byte
	text := string(append(buf[:0], byte('a'+n%26), 'x'))
	fields[3].UnsafeSet(unsafe.Pointer(heap), unsafe.Pointer(&text))
	g := holder{p: &box{n, 4}}
	got := fields[1].UnsafeGet(unsafe.Pointer(&g))
	whole := holder{p: &box{n, 5}, text: text}
	copied := &holder{}
	sink = []interface{}{heap, copied, (**box)(got), st.UnsafeIndirect(unsafe.Pointer(&whole))}
	st.UnsafeSet(unsafe.Pointer(copied), unsafe.Pointer(&whole))
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	kept := sink.([]interface{})
	want := string([]byte{byte('a' + n%26), 'x'})
	if *h.p != (box{n, 1}) || *heap.p != (box{n, 2}) || heap.i != (box{n, 3}) || heap.text != want || **(kept[2].(**box)) != (box{n, 4}) || *copied.p != (box{n, 5}) || copied.text != want || *kept[3].(holder).p != (box{n, 5}) {
		t.ViolateAsync("stack", "fields are %v %v %v %q %v %v after the stack moved", *h.p, *heap.p, heap.i, heap.text, **(kept[2].(**box)), *copied.p)
	}
}

func stackIface(t *vk.T, pt *reflect2.UnsafePtrType, it *reflect2.UnsafeIFaceType, et *reflect2.UnsafeEFaceType, n int) {
	p := &box{n, 1}
	one := pt.UnsafeIndirect(unsafe.Pointer(&p))
	var err error = &hx.PtrError{Msg: string([]byte{byte('a' + n%26), 'e'})}
	two := it.UnsafeIndirect(unsafe.Pointer(&err))
	three := reflect2.IFaceToEFace(unsafe.Pointer(&err))
	var any interface{} = &box{n, 2}
	four := et.UnsafeIndirect(unsafe.Pointer(&any))
	five := pt.PackEFace(unsafe.Pointer(&p))
	sink = []interface{}{one, two, three, four, five}
	hx.Deepen(400)
	hx.Churn(rand.New(rand.NewSource(int64(n))))
	kept := sink.([]interface{})
	want := string([]byte{byte('a' + n%26), 'e'})
	if *kept[0].(*box) != (box{n, 1}) || kept[1].(error).Error() != want || kept[2].(error).Error() != want || *kept[3].(*box) != (box{n, 2}) || **kept[4].(**box) != (box{n, 1}) {
		t.ViolateAsync("stack", "values are %v %v %v %v %v after the stack moved", kept[0], kept[1], kept[2], kept[3], kept[4])
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C30",
		Rule:          "seeded struct types of all layouts (padding, zero size fields, small fields side by side, one pointer, larger than the small size classes, embedded by value and by pointer up to 4 levels, shadowed and ambiguous names, unexported fields, tags) and seeded sequences of setting and reading fields found in four ways, with neighbours on both sides, compared with package reflect after every step; seeded values of all kinds: create, set, indirect, pack, unpack, nil tests, type relations compared with reflect; operations with wrong types must be refused; types by name; new types met by 8 goroutines at once; objects on stacks that move; freed memory is clobbered. Non trivial: distinct sequences and values.",
		MinNontrivial: 1000,
		Env:           []string{"GODEBUG=clobberfree=1"},
		Run: func(t *vk.T) {
			rng := t.Rng("objects")
			n := t.N(8000, 300000)
			for i := 0; i < n && !t.Violated(); i++ {
				if i%2 == 0 {
					structCase(t, rng, i)
				} else {
					valueCase(t, rng, i)
				}
			}
			typesCase(t, rng)
			st := reflect2.TypeOf(holder{}).(*reflect2.UnsafeStructType)
			var fields []*reflect2.UnsafeStructField
			for k := 0; k < 4; k++ {
				fields = append(fields, st.Field(k).(*reflect2.UnsafeStructField))
			}
			pt := reflect2.TypeOf((*box)(nil)).(*reflect2.UnsafePtrType)
			err := errors.New("x")
			it := reflect2.TypeOfPtr(&err).Elem().(*reflect2.UnsafeIFaceType)
			et := reflect2.TypeOfPtr(&sink).Elem().(*reflect2.UnsafeEFaceType)
			for i := 0; i < t.N(60, 2000) && !t.Violated(); i++ {
				t.Begin(func() string { return fmt.Sprint("stack case ", i) })
				for name, f := range map[string]func(){"fields": func() { stackFields(t, fields, st, i) }, "interfaces": func() { stackIface(t, pt, it, et, i) }} {
					if recovered := hx.OnSmallStack(f); recovered != nil {
						t.Violate("stack", "%s on stack panics: %v", name, recovered)
					}
					t.Count("stack_cases", 1)
				}
			}
		},
	})
}
