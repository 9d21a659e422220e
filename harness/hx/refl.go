package hx

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// Huge is larger than any size class of small objects
type Huge struct {
	A [700]int64
	P *int
	B [400]int64
}

// Holes has zero size fields, also the last one
type Holes struct {
	Z0 struct{}
	A  int8
	Z1 [0]func()
	P  *string
	B  bool
	Z2 struct{}
}

// Inner0 to Inner4 are embedded by each other, by value and by pointer
type Inner0 struct {
	Deep0 string
	DeepP *int
}

// Inner1 embeds Inner0
type Inner1 struct {
	pad1 int16
	Inner0
	Deep1 interface{}
}

// Inner2 embeds *Inner1
type Inner2 struct {
	Deep2 byte
	*Inner1
}

// Inner3 embeds Inner2 behind other fields
type Inner3 struct {
	A     string
	B     int8
	Deep3 []int
	Inner2
	Tail uint16
}

// Inner4 embeds by pointer as the only field
type Inner4 struct {
	*Inner3
}

// Shadow has fields that shadow and are ambiguous
type Shadow struct {
	Inner0
	*Inner1
	Deep0 int
	Tail  string
}

// Tagged has tags and an unexported field between
type Tagged struct {
	A int8 `json:"a,omitempty" xml:"b"`
	b string
	C interface{} `custom:"x y \"z\""`
}

var extra = []reflect.Type{
	reflect.TypeOf((func())(nil)), reflect.TypeOf((chan int)(nil)), reflect.TypeOf((<-chan string)(nil)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(Huge{}), reflect.TypeOf(Holes{}), reflect.TypeOf(Inner0{}), reflect.TypeOf(Inner1{}),
	reflect.TypeOf(Inner2{}), reflect.TypeOf(Inner3{}), reflect.TypeOf(Inner4{}), reflect.TypeOf(Shadow{}), reflect.TypeOf(Tagged{}),
	reflect.TypeOf([1]*int{}), reflect.TypeOf([1]func(){}), reflect.TypeOf([0]int{}), reflect.TypeOf([1]map[string]int{}), reflect.TypeOf(struct{ M map[int]string }{}),
	reflect.TypeOf(struct{ C chan bool }{}), reflect.TypeOf(struct{ F func() int }{}), reflect.TypeOf(struct{ U unsafe.Pointer }{}), reflect.TypeOf([2]struct{ P *int }{}),
	reflect.TypeOf(struct{ E interface{} }{}), reflect.TypeOf([1]error{}), reflect.TypeOf([1][1]struct{ S []int }{}), reflect.TypeOf([17]byte{}), reflect.TypeOf([33]string{}),
	reflect.TypeOf([1][1]*string{}), reflect.TypeOf(struct{ A [1]struct{ P **int } }{}), reflect.TypeOf(struct{ B bool }{}), reflect.TypeOf([1]uintptr{}), reflect.TypeOf((*struct{})(nil)),
}

// small are the types that are not a multiple of a word
var small = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(byte(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(float32(0)),
	reflect.TypeOf([1]byte{}), reflect.TypeOf([2]bool{}), reflect.TypeOf([3]byte{}), reflect.TypeOf([3]int8{}), reflect.TypeOf([3]int16{}), reflect.TypeOf([5]byte{}), reflect.TypeOf([3]uint32{}),
	reflect.TypeOf([7]byte{}), reflect.TypeOf([0]byte{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(struct{ A, B byte }{}), reflect.TypeOf(struct{ A, B, C int8 }{}), reflect.TypeOf([3]struct{ A int16 }{}),
}

// PackedType makes structs of small fields, each right behind the other
func PackedType(rng *rand.Rand) reflect.Type {
	var fields []reflect.StructField
	for i := 2 + rng.Intn(5); i > 0; i-- {
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: small[rng.Intn(len(small))]})
	}
	return reflect.StructOf(fields)
}

// AnyType makes types of all kinds and layouts
func AnyType(rng *rand.Rand, depth int) reflect.Type {
	switch rng.Intn(4) {
	case 0:
		switch rng.Intn(6) {
		case 0:
			return PackedType(rng)
		case 1:
			return small[rng.Intn(len(small))]
		}
		return extra[rng.Intn(len(extra))]
	case 1:
		if depth > 0 {
			var fields []reflect.StructField
			for i := rng.Intn(6); i > 0; i-- {
				fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: AnyType(rng, depth-1), Tag: reflect.StructTag(fmt.Sprintf(`k:"%d"`, i))})
			}
			return reflect.StructOf(fields)
		}
	}
	return GenType(rng, depth)
}

// AnyOf makes a value of the type, with values of the kinds that GenOf leaves alone
func AnyOf(rng *rand.Rand, typ reflect.Type) reflect.Value {
	v := reflect.New(typ).Elem()
	if rng.Intn(12) == 0 {
		return v
	}
	f := &filler{rng, 60}
	f.fill(v, 3)
	fillMore(rng, v, 4)
	return v
}

func fillMore(rng *rand.Rand, v reflect.Value, depth int) {
	if !v.CanSet() || depth < 0 || rng.Intn(8) == 0 {
		return
	}
	switch v.Kind() {
	case reflect.Chan:
		v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, v.Type().Elem()), rng.Intn(3)).Convert(v.Type()))
	case reflect.Func:
		n := rng.Int()
		v.Set(reflect.MakeFunc(v.Type(), func([]reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < v.Type().NumOut(); i++ {
				out = append(out, reflect.Zero(v.Type().Out(i)))
			}
			_ = n
			return out
		}))
	case reflect.UnsafePointer:
		n := rng.Int()
		v.SetPointer(unsafe.Pointer(&n))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(rng.Intn(100)), math.Copysign(0, -1)))
	case reflect.Float32, reflect.Float64:
		if rng.Intn(6) == 0 {
			v.SetFloat([]float64{math.NaN(), math.Copysign(0, -1), math.Inf(1)}[rng.Intn(3)])
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillMore(rng, v.Field(i), depth-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillMore(rng, v.Index(i), depth-1)
		}
	}
}

// Same tells if both values are the same, without following references: same type, same bits of
// numbers, same text, same references, same dynamic type and content of interfaces
func Same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return math.Float64bits(real(x)) == math.Float64bits(real(y)) && math.Float64bits(imag(x)) == math.Float64bits(imag(y))
	case reflect.String:
		return a.String() == b.String()
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.UnsafePointer, reflect.Func:
		return a.IsNil() == b.IsNil() && a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Cap() == b.Cap() && a.Pointer() == b.Pointer()
	case reflect.Interface:
		return Same(a.Elem(), b.Elem())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !Same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !Same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	panic("unexpected kind " + a.Kind().String())
}

// Digest renders everything reachable from the value, up to some depth
func Digest(v reflect.Value) string {
	var out strings.Builder
	digest(&out, v, 8)
	return out.String()
}

func digest(out *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		out.WriteString("<nil>")
		return
	}
	if depth == 0 || out.Len() > 1<<16 {
		out.WriteString("~")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		out.WriteString("*")
		if v.IsNil() {
			out.WriteString("nil")
		} else {
			digest(out, v.Elem(), depth-1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.WriteString(v.Elem().Type().String() + ":")
		}
		digest(out, v.Elem(), depth-1)
	case reflect.Map:
		if v.IsNil() {
			out.WriteString("nilmap")
			return
		}
		// the order does not matter
		var sum uint64
		iter := v.MapRange()
		for iter.Next() {
			var entry strings.Builder
			if iter.Key().Kind() != reflect.Interface {
				digest(&entry, iter.Key(), 2)
			}
			digest(&entry, iter.Value(), depth-1)
			sum += fnvOf(entry.String())
		}
		fmt.Fprintf(out, "map%d %x", v.Len(), sum)
	case reflect.Slice:
		if v.IsNil() {
			out.WriteString("nilslice")
			return
		}
		fmt.Fprintf(out, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			digest(out, v.Index(i), depth-1)
			out.WriteString(",")
		}
		out.WriteString("]")
	case reflect.Array:
		out.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			digest(out, v.Index(i), depth-1)
			out.WriteString(",")
		}
		out.WriteString("]")
	case reflect.Struct:
		out.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			digest(out, v.Field(i), depth-1)
			out.WriteString(";")
		}
		out.WriteString("}")
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprintf(out, "@%x", v.Pointer())
	case reflect.String:
		fmt.Fprintf(out, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(out, v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(out, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprintf(out, "%v", v.Complex())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(out, v.Uint())
	default:
		fmt.Fprint(out, v.Int())
	}
}

func fnvOf(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

var garbage [64]interface{}

// Churn collects garbage and reuses what has been freed
func Churn(rng *rand.Rand) {
	runtime.GC()
	for i := range garbage {
		buf := make([]byte, 1<<uint(3+rng.Intn(10)))
		for k := range buf {
			buf[k] = 0xA5
		}
		garbage[i] = buf
	}
}

// Deepen makes the stack of the goroutine grow, so that it moves
func Deepen(n int) int {
	var room [64]int
	room[n%64] = n
	if n == 0 {
		return 0
	}
	return Deepen(n-1) + room[n%64]
}

// OnSmallStack runs f on a new goroutine, whose stack is still small
func OnSmallStack(f func()) (recovered interface{}) {
	done := make(chan interface{})
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	return <-done
}

// Clip shortens a text
func Clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "..."
}

// PanicSite returns the function that panicked, from a stack taken while recovering: the first frame after the
// panic that does not belong to the runtime or package reflect
func PanicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, line := range lines {
		if strings.HasPrefix(line, "\t") || line == "" {
			continue
		}
		if strings.HasPrefix(line, "panic(") || strings.HasPrefix(line, "runtime.") {
			seen = seen || strings.HasPrefix(line, "panic(")
			continue
		}
		if seen && !strings.HasPrefix(line, "reflect.") {
			if i := strings.LastIndex(line, "("); i > 0 {
				return line[:i]
			}
			return line
		}
	}
	return ""
}
