package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
)

// ext encodes the chosen types its own way
type ext struct {
	types map[reflect.Type]func(v reflect.Value) string
}

type extEncoder struct {
	typ    reflect.Type
	encode func(v reflect.Value) string
}

func (e *ext) EncoderOf(prefix string, typ reflect.Type) jsonfmt.Encoder {
	if encode := e.types[typ]; encode != nil {
		return &extEncoder{typ, encode}
	}
	return nil
}

type ctxKey struct{}

// ctxValue is in the context given to the encoders of extensions if it is in the one given by the caller
var ctxValue, lostContexts int64

func (e *extEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
	var got int64
	if ctx != nil {
		got, _ = ctx.Value(ctxKey{}).(int64)
	}
	if got != ctxValue {
		lostContexts++
	}
	return append(space, e.encode(reflect.NewAt(e.typ, ptr).Elem())...)
}

func customTypes() map[reflect.Type]func(v reflect.Value) string {
	return map[reflect.Type]func(v reflect.Value) string{
		reflect.TypeOf(hx.Pair{}):          func(v reflect.Value) string { return fmt.Sprintf(`"pair %d"`, v.Field(0).Int()) },
		reflect.TypeOf(time.Duration(0)):   func(v reflect.Value) string { return fmt.Sprintf(`"%dns"`, v.Int()) },
		reflect.TypeOf(int16(0)):           func(v reflect.Value) string { return fmt.Sprintf(`{"short":%d}`, v.Int()) },
		reflect.TypeOf((*hx.Person)(nil)):  func(v reflect.Value) string { return `"person"` },
		reflect.TypeOf(hx.OnePtr{}):        func(v reflect.Value) string { return `[1]` },
		reflect.TypeOf(hx.PtrMarshaler{}):  func(v reflect.Value) string { return fmt.Sprintf(`"m%d"`, v.Field(0).Int()) },
		reflect.TypeOf(map[string]int8{}):  func(v reflect.Value) string { return fmt.Sprintf(`"%d entries"`, v.Len()) },
		reflect.TypeOf(hx.Coded{}):         func(v reflect.Value) string { return `"coded"` },
		reflect.TypeOf([]interface{}(nil)): func(v reflect.Value) string { return fmt.Sprintf(`"%d of any"`, v.Len()) },
	}
}

type target struct {
	name string
	api  jsonfmt.API
	cmp  *hx.Comparer
}

func targets() []target {
	return []target{
		{"default", jsonfmt.ConfigDefault, &hx.Comparer{}},
		{"unexported", jsonfmt.Config{IncludesUnexported: true}.Froze(), &hx.Comparer{Unexported: true}},
		{"extension", jsonfmt.Config{Extensions: []jsonfmt.Extension{&ext{customTypes()}}}.Froze(), &hx.Comparer{Custom: customTypes()}},
		{"both", jsonfmt.Config{IncludesUnexported: true, Extensions: []jsonfmt.Extension{&ext{}, &ext{customTypes()}}}.Froze(), &hx.Comparer{Unexported: true, Custom: customTypes()}},
	}
}

func encode(api jsonfmt.API, v interface{}, how int) []byte {
	ctxValue = 0
	switch how {
	case 0:
		return api.EncoderOf(reflect2.TypeOf(v)).Encode(nil, nil, reflect2.PtrOf(v))
	case 1:
		ctxValue = 7
		return api.EncoderOfObject(v).Encode(context.WithValue(context.Background(), ctxKey{}, ctxValue), nil, reflect2.PtrOf(v))
	default:
		prefix := make([]byte, 0, 200)
		prefix = append(prefix, "prefix "...)
		out := api.EncoderOfObject(v).Encode(nil, prefix, reflect2.PtrOf(v))
		if !strings.HasPrefix(string(out), "prefix ") {
			return append([]byte("prefix lost "), out...)
		}
		return out[len("prefix "):]
	}
}

type withHidden struct {
	Shown  int
	hidden map[string]interface{}
	inner  struct {
		a int16
		b *hx.Pair
	}
	list []hx.Base
}

func hidden(rng *rand.Rand) interface{} {
	v := withHidden{Shown: rng.Intn(9), hidden: map[string]interface{}{}, list: []hx.Base{{ID: 1, Kind: "k"}}}
	v.inner.a = int16(rng.Intn(1000))
	if rng.Intn(2) == 0 {
		v.inner.b = &hx.Pair{A: 3}
		v.hidden["x"] = withHidden{Shown: 7}
	}
	return v
}

// cyclic makes values that contain themselves in various ways
func cyclic(rng *rand.Rand) (interface{}, string) {
	n := 1 + rng.Intn(4)
	switch rng.Intn(8) {
	case 0:
		first := &hx.Tree{Name: "0"}
		last := first
		for i := 1; i < n; i++ {
			next := &hx.Tree{Name: fmt.Sprint(i)}
			if rng.Intn(2) == 0 {
				last.Left = next
			} else {
				last.Right = next
			}
			last = next
		}
		last.Left = first
		return first, "pointers"
	case 1:
		m := map[string]interface{}{"a": 1}
		m["self"] = m
		return m, "map"
	case 2:
		s := make([]interface{}, n)
		s[rng.Intn(n)] = s
		return s, "slice"
	case 3:
		t := &hx.Tree{Name: "by name", ByName: map[string]*hx.Tree{}}
		t.ByName["self"] = t
		return *t, "map of struct"
	case 4:
		t := &hx.Tree{Name: "any"}
		t.Any = []interface{}{1, map[string]interface{}{"t": t}}
		return t, "interface"
	case 5:
		t := hx.Tree{Name: "children", Children: make([]hx.Tree, n)}
		t.Children[0].Children = t.Children
		return t, "slice of struct"
	case 6:
		var p interface{}
		p = &p
		return p, "pointer to interface"
	default:
		a, b := &hx.Nested{ID: 1}, &hx.Nested{ID: 2}
		a.Child, b.Child = b, b
		a.Any = a
		return []interface{}{a, b, a}, "nested"
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C22",
		Rule:          "seeded types put together from pointers, slices, arrays, maps with 17 kinds of keys, structs and 29 declared types (errors, marshalers by value and pointer, embedded, padded, stored directly in interfaces, referencing themselves), filled with values and nils, encoded with four configurations (default, unexported fields, custom encoders, both); the same object twice in one value; values containing themselves. Oracle: walk over json text and reflect value at the same time. Non trivial: distinct pairs of type and text.",
		Assumptions:   []string{"floats are compared to six decimal places (see C21)", "texts of map keys that are not strings are their json text"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			rng := t.Rng("values")
			all := targets()
			check := func(target target, v interface{}, how int) {
				t.Begin(func() string { return fmt.Sprintf("%T with config %s", v, target.name) })
				var text []byte
				if recovered, stack := vk.Protect(func() { text = encode(target.api, v, how) }); recovered != nil {
					t.Violate("panic", "encoding %T with config %s panicked: %v\n%s", v, target.name, recovered, stack)
					return
				}
				if lostContexts > 0 {
					t.Violate("context", "encoding %T with config %s, the encoder of the extension is not given the context of the caller", v, target.name)
				}
				key := ""
				if len(text) > 2 {
					key = fmt.Sprintf("%T %s", v, text)
				}
				t.Eval(key)
				t.Count("config_"+target.name, 1)
				t.CountMax("longest_text", len(text))
				if err := target.cmp.Compare(text, v); err != nil {
					t.Violate("structure", "%T with config %s: %v\nencoded as %.2000s\nstandard encoding %.2000s", v, target.name, err, text, standard(v))
				}
				t.Sample(target.name, map[string]string{"type": fmt.Sprintf("%T", v), "json": fmt.Sprintf("%.200s", text)})
			}
			n := t.N(8000, 400000)
			for i := 0; i < n; i++ {
				depth := 2 + rng.Intn(3)
				typ := hx.GenType(rng, depth)
				v := hx.GenOf(rng, typ, 6).Interface()
				for _, target := range all {
					check(target, v, rng.Intn(3))
				}
				if i%10 == 0 {
					// fresh configuration, encoders are built again in another order
					fresh := targets()[1+rng.Intn(3)]
					for j := 0; j < 3; j++ {
						check(fresh, hx.GenOf(rng, hx.GenType(rng, depth), 4).Interface(), rng.Intn(3))
					}
				}
				if i%20 == 0 {
					for _, target := range all {
						check(target, hidden(rng), rng.Intn(3))
					}
				}
				if i%20 == 1 {
					// the same object more than once is no cycle
					shared := &hx.Tree{Name: "shared", Left: &hx.Tree{Name: "leaf"}}
					m := map[string]interface{}{"k": shared}
					check(all[0], []interface{}{shared, shared, m, m, &hx.Tree{Left: shared, Right: shared, Any: m}, *shared}, rng.Intn(3))
					check(all[0], &hx.Tree{Left: shared, Right: shared, Children: []hx.Tree{*shared, *shared}, ByName: map[string]*hx.Tree{"a": shared, "b": shared}}, rng.Intn(3))
					var chain *hx.Tree
					for k := 0; k < 60; k++ {
						chain = &hx.Tree{Name: fmt.Sprint(k), Left: chain}
					}
					check(all[0], chain, 0)
				}
				if i%20 == 2 {
					v, kind := cyclic(rng)
					t.Begin(func() string { return "value containing itself: " + kind })
					for _, target := range all {
						text := encode(target.api, v, rng.Intn(3))
						t.Eval(kind + target.name)
						t.Count("containing_themselves", 1)
						if !json.Valid(text) || len(text) > 100000 {
							t.Violate("cyclic", "value containing itself (%s) is encoded as %d bytes, valid: %v: %.300s", kind, len(text), json.Valid(text), text)
						}
						t.Sample("cyclic", map[string]string{"kind": kind, "json": fmt.Sprintf("%.200s", text)})
					}
				}
				if i%1000 == 0 {
					runtime.GC()
				}
			}
		},
	})
}

func standard(v interface{}) string {
	out, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(out)
}
