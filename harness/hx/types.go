package hx

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"time"
)

// Pair is comparable, can be key of map
type Pair struct {
	A int32
	B string
}

// Tree references itself
type Tree struct {
	Name     string
	Left     *Tree
	Right    *Tree
	Children []Tree
	ByName   map[string]*Tree
	Any      interface{}
}

// Base is embedded
type Base struct {
	ID   int
	Kind string `json:"kind"`
}

// Derived embeds by value and by pointer
type Derived struct {
	Base
	*Point
	Extra []Base
	priv  int
	Last  uint8
}

// Padded has holes between the fields
type Padded struct {
	A int8
	B int64
	C bool
	D string
	E uint16
	F interface{}
	G [3]byte
	H float32
	I *int8
	J struct{ X, Y int16 }
}

// Wrapper is stored directly in the interface, several levels deep
type Wrapper struct {
	W struct {
		P *Pair
	}
}

// ArrayOfPtr is stored directly in the interface as well
type ArrayOfPtr [1]*Pair

// MapWrapper is a map in a struct, stored directly in the interface
type MapWrapper struct {
	M map[string]int
}

// PtrMarshaler encodes itself by pointer only
type PtrMarshaler struct{ N int }

// MarshalJSON implements json.Marshaler
func (m *PtrMarshaler) MarshalJSON() ([]byte, error) {
	if m == nil {
		return []byte("null"), nil
	}
	if m.N%7 == 3 {
		return nil, fmt.Errorf("can not marshal \"%d\"", m.N)
	}
	return []byte(fmt.Sprintf(`["ptr",%d]`, m.N)), nil
}

// PtrError is error by pointer only
type PtrError struct{ Msg string }

func (e *PtrError) Error() string { return e.Msg }

// MapError is error stored directly in the interface
type MapError map[string]int

func (e MapError) Error() string { return fmt.Sprint("map error of ", len(e)) }

// FuncMarshaler is a marshaler in an interface of functions
type FuncMarshaler func() string

// MarshalJSON implements json.Marshaler
func (f FuncMarshaler) MarshalJSON() ([]byte, error) { return []byte(`"func"`), nil }

// Closers is an interface with method
type Closers struct {
	C io.Closer
	E error
	M json.Marshaler
	S fmt.Stringer
}

// CloserInt implements io.Closer
type CloserInt int

// Close does nothing
func (CloserInt) Close() error { return nil }

// PtrCloser implements io.Closer by pointer
type PtrCloser struct{ A, B int }

// Close does nothing
func (*PtrCloser) Close() error { return nil }

// Mixed has fields that are left out
type Mixed struct {
	Keep    int
	Fn      func()
	Ch      chan int
	Dropped string `json:"-"`
	Renamed string `json:"new name,omitempty"`
	Comma   string `json:",omitempty"`
	hidden  map[string]interface{}
	Ünicode int
	ärger   int
	Ἀlpha   string
}

// FirstHidden starts with a field that is left out
type FirstHidden struct {
	hidden string
	Then   int
	Last   *Pair
}

// FirstDropped starts with a field that is left out by its tag
type FirstDropped struct {
	Dropped []int  `json:"-"`
	Then    string `json:"then"`
	Also    int    `json:"-"`
	Last    bool
}

// FirstFunc starts with fields that can not be encoded
type FirstFunc struct {
	Fn   func()
	Ch   chan int
	Then []string
}

// AllDropped has nothing to encode
type AllDropped struct {
	a int
	B int `json:"-"`
	C func()
}

var fieldTags = []reflect.StructTag{`json:"-"`, `json:"named"`, `json:",omitempty"`, `json:"x y,string"`, `json:""`, `xml:"other" json:"中"`, `json:"-" xml:"q"`, `other:"-"`, `json:"-x"`, `json:"-1,omitempty"`, `json:"--"`, `json:"-,"`, `json:"-,omitempty"`, `json:"a-b"`}

var declared = []reflect.Type{
	reflect.TypeOf(Pair{}), reflect.TypeOf(Tree{}), reflect.TypeOf(Base{}), reflect.TypeOf(Derived{}), reflect.TypeOf(Padded{}), reflect.TypeOf(Wrapper{}), reflect.TypeOf(ArrayOfPtr{}), reflect.TypeOf(MapWrapper{}),
	reflect.TypeOf(FirstHidden{}), reflect.TypeOf(FirstDropped{}), reflect.TypeOf(FirstFunc{}), reflect.TypeOf(AllDropped{}),
	reflect.TypeOf(PtrMarshaler{}), reflect.TypeOf(PtrError{}), reflect.TypeOf(MapError{}), reflect.TypeOf(Closers{}), reflect.TypeOf(Mixed{}), reflect.TypeOf(Coded{}), reflect.TypeOf(Marshaled{}),
	reflect.TypeOf(Point{}), reflect.TypeOf(Nested{}), reflect.TypeOf(OnePtr{}), reflect.TypeOf(Named("")), reflect.TypeOf(Celsius(0)), reflect.TypeOf(time.Duration(0)), reflect.TypeOf(Person{}),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*io.Closer)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*json.Marshaler)(nil)).Elem(),
	reflect.TypeOf([]byte(nil)), reflect.TypeOf(struct{}{}),
}

var basic = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

// GenType makes types of all shapes
func GenType(rng *rand.Rand, depth int) reflect.Type {
	if depth <= 0 || rng.Intn(5) == 0 {
		if rng.Intn(3) == 0 {
			return declared[rng.Intn(len(declared))]
		}
		return basic[rng.Intn(len(basic))]
	}
	switch rng.Intn(6) {
	case 0:
		return reflect.PtrTo(GenType(rng, depth-1))
	case 1:
		return reflect.SliceOf(GenType(rng, depth-1))
	case 2:
		return reflect.ArrayOf(rng.Intn(4), GenType(rng, depth-1))
	case 3:
		return reflect.MapOf(GenKeyType(rng), GenType(rng, depth-1))
	case 4:
		return declared[rng.Intn(len(declared))]
	default:
		n := rng.Intn(6)
		var fields []reflect.StructField
		for i := 0; i < n; i++ {
			field := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: GenType(rng, depth-1)}
			if rng.Intn(4) == 0 {
				field.Tag = fieldTags[rng.Intn(len(fieldTags))]
			}
			fields = append(fields, field)
		}
		return reflect.StructOf(fields)
	}
}

var keyTypes = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(Named("")), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)),
	reflect.TypeOf(false), reflect.TypeOf(Pair{}), reflect.TypeOf([2]int16{}), reflect.TypeOf([1]string{}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(float64(0)), reflect.TypeOf(struct{}{}), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
}

// GenKeyType makes types usable as key
func GenKeyType(rng *rand.Rand) reflect.Type {
	return keyTypes[rng.Intn(len(keyTypes))]
}

// GenOf makes a value of the type
func GenOf(rng *rand.Rand, typ reflect.Type, depth int) reflect.Value {
	v := reflect.New(typ).Elem()
	Fill(rng, v, depth)
	return v
}

// filler fills values until they get too large
type filler struct {
	rng  *rand.Rand
	left int
}

// Fill sets v, which must be settable, to any value
func Fill(rng *rand.Rand, v reflect.Value, depth int) {
	(&filler{rng, 120}).fill(v, depth)
}

func (f *filler) fill(v reflect.Value, depth int) {
	rng := f.rng
	if f.left--; f.left <= 0 {
		depth = -1
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(rng.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(rng.Uint64()) >> uint(rng.Intn(64)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(rng.Uint64() >> uint(rng.Intn(64)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(rng.Intn(1<<12)-1<<11) / 64)
	case reflect.String:
		v.SetString(GenString(rng, 8))
	case reflect.Ptr:
		if depth > 0 && rng.Intn(4) != 0 {
			p := reflect.New(v.Type().Elem())
			f.fill(p.Elem(), depth-1)
			v.Set(p)
		}
	case reflect.Slice:
		if rng.Intn(5) == 0 {
			return
		}
		n := rng.Intn(4)
		if depth < 0 {
			n = 0
		}
		s := reflect.MakeSlice(v.Type(), n, n+rng.Intn(3))
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if rng.Intn(5) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		n := rng.Intn(4)
		if rng.Intn(10) == 0 {
			n = 20
		}
		if depth <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			key := reflect.New(v.Type().Key()).Elem()
			if key.Kind() == reflect.Interface {
				key.Set(genKey(rng, key.Type()))
			} else {
				f.fill(key, 0)
			}
			if k := key; k.Kind() == reflect.Interface && k.IsNil() && rng.Intn(2) == 0 {
				continue
			}
			elem := reflect.New(v.Type().Elem()).Elem()
			f.fill(elem, depth-1)
			m.SetMapIndex(key, elem)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.fill(v.Field(i), depth-1)
		}
	case reflect.Interface:
		if rng.Intn(5) == 0 || depth <= 0 {
			return
		}
		v.Set(f.impl(v.Type(), depth-1))
	}
}

func genKey(rng *rand.Rand, iface reflect.Type) reflect.Value {
	if iface.NumMethod() > 0 {
		return reflect.ValueOf([]interface{}{Celsius(rng.Intn(100)), time.Duration(rng.Intn(1e9))}[rng.Intn(2)])
	}
	one := rng.Intn(1000)
	keys := []interface{}{GenString(rng, 6), Named(GenString(rng, 5)), one, int8(one), uint64(rng.Uint64()), Pair{int32(one), GenString(rng, 3)}, [2]int16{1, int16(one)}, one%2 == 0, 0.25, &one}
	return reflect.ValueOf(keys[rng.Intn(len(keys))])
}

// impl makes a value implementing the interface
func (f *filler) impl(iface reflect.Type, depth int) reflect.Value {
	rng := f.rng
	switch iface {
	case reflect.TypeOf((*error)(nil)).Elem():
		return reflect.ValueOf([]interface{}{errors.New(GenString(rng, 5)), Coded{rng.Intn(9), GenString(rng, 3)}, &PtrError{GenString(rng, 4)}, MapError{"a": 1}, io.EOF, &Coded{1, "x"}}[rng.Intn(6)])
	case reflect.TypeOf((*io.Closer)(nil)).Elem():
		return reflect.ValueOf([]interface{}{CloserInt(rng.Intn(100)), &PtrCloser{rng.Intn(9), 2}, (*PtrCloser)(nil)}[rng.Intn(3)])
	case reflect.TypeOf((*fmt.Stringer)(nil)).Elem():
		return reflect.ValueOf([]interface{}{Celsius(rng.Intn(100)), &Person{GenString(rng, 3), "b"}, time.Duration(rng.Intn(1e6)), (*Person)(nil)}[rng.Intn(4)])
	case reflect.TypeOf((*json.Marshaler)(nil)).Elem():
		return reflect.ValueOf([]interface{}{Marshaled{rng.Intn(100)}, &PtrMarshaler{rng.Intn(100)}, &Marshaled{rng.Intn(100)}, (*PtrMarshaler)(nil), FuncMarshaler(func() string { return "" })}[rng.Intn(5)])
	}
	v := reflect.New(GenType(rng, 2)).Elem()
	f.fill(v, depth)
	return v
}
