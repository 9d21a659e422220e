package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
)

type holder struct {
	Before int
	S      string
	B      []byte
	E      error
	N      hx.Named
	P      *string
	I      interface{}
	After  int
}

type textKey string

type valueError struct{ text string }

func (e valueError) Error() string { return e.text }

type stringError string

func (e stringError) Error() string { return string(e) }

// decoded reads the text as exactly one json string literal
func decoded(text string) (string, bool) {
	if len(text) < 2 || text[0] != '"' || !json.Valid([]byte(text)) {
		return "", false
	}
	var out string
	if err := json.Unmarshal([]byte(text), &out); err != nil {
		return "", false
	}
	return out, true
}

// sameString: decoding the literal of valid utf8 gives back the string. Other strings must be
// valid literals and keep everything that is valid.
func sameString(str, text string) bool {
	got, ok := decoded(text)
	if !ok {
		return false
	}
	return got == strings.ToValidUTF8(str, "\ufffd") || got == brokenByByte(str)
}

// brokenByByte replaces every broken byte by one replacement character
func brokenByByte(str string) string {
	var out strings.Builder
	for len(str) > 0 {
		r, size := utf8.DecodeRuneInString(str)
		out.WriteRune(r)
		str = str[size:]
	}
	return out.String()
}

// sameBytes: printable characters are kept, all others are shown as an escape
func sameBytes(data []byte, text string) bool {
	got, ok := decoded(text)
	if !ok {
		return false
	}
	for _, b := range data {
		if b >= 0x20 && b < 0x7f {
			if !strings.HasPrefix(got, string([]byte{b})) {
				return false
			}
			got = got[1:]
			continue
		}
		escape := fmt.Sprintf(`\x%02x`, b)
		switch {
		case strings.HasPrefix(got, escape):
			got = got[len(escape):]
		case b < 0x80 && strings.HasPrefix(got, string([]byte{b})):
			got = got[1:]
		default:
			return false
		}
	}
	return got == ""
}

type monitor struct {
	t *vk.T
}

func (m monitor) str(where, str, text string) {
	if !sameString(str, text) {
		m.t.Violate("string-"+where, "string %q as %s is encoded as %q", str, where, text)
	}
}

func (m monitor) bytes(where string, data []byte, text string) {
	if !sameBytes(data, text) {
		m.t.Violate("bytes-"+where, "byte slice %q as %s is encoded as %q", data, where, text)
	}
}

// field cuts the raw value of key out of an object
func (m monitor) field(text string, key string) string {
	fields := map[string]json.RawMessage{}
	if err := json.Unmarshal([]byte(text), &fields); err != nil {
		m.t.Violate("object", "not a json object (%v): %q", err, text)
		return ""
	}
	return string(fields[key])
}

func (m monitor) short(str string) {
	m.t.Begin(func() string { return fmt.Sprintf("%q", str) })
	m.t.Eval(str)
	m.str("value", str, jsonfmt.MarshalToString(str))
	data := []byte(str)
	m.bytes("value", data, jsonfmt.MarshalToString(data))
}

func (m monitor) everywhere(rng *rand.Rand, str string, data []byte) {
	t := m.t
	t.Begin(func() string { return fmt.Sprintf("%q and %q", str, data) })
	t.Eval(str + string(data))
	m.str("value", str, jsonfmt.MarshalToString(str))
	m.bytes("value", data, jsonfmt.MarshalToString(data))
	m.str("named type", str, jsonfmt.MarshalToString(hx.Named(str)))
	m.str("pointer", str, jsonfmt.MarshalToString(&str))
	m.str("error", str, jsonfmt.MarshalToString(errors.New(str)))
	m.str("error by value", str, jsonfmt.MarshalToString(valueError{str}))
	m.str("error string", str, jsonfmt.MarshalToString(stringError(str)))
	prefix := hx.GenBytes(rng, 20)
	if got := string(jsonfmt.WriteString(append([]byte(nil), prefix...), str)); !strings.HasPrefix(got, string(prefix)) {
		t.Violate("prefix", "what was written before string %q is changed from %q to %q", str, prefix, got)
	} else {
		m.str("appended", str, got[len(prefix):])
	}
	if got := string(jsonfmt.WriteBytes(append([]byte(nil), prefix...), data)); !strings.HasPrefix(got, string(prefix)) {
		t.Violate("prefix", "what was written before byte slice %q is changed from %q to %q", data, prefix, got)
	} else {
		m.bytes("appended", data, got[len(prefix):])
	}
	text := jsonfmt.MarshalToString(holder{1, str, data, errors.New(str), hx.Named(str), &str, data, 2})
	if !json.Valid([]byte(text)) {
		t.Violate("object", "struct with %q and %q is encoded as invalid json %q", str, data, text)
	} else {
		m.str("field", str, m.field(text, "S"))
		m.bytes("field", data, m.field(text, "B"))
		m.str("error field", str, m.field(text, "E"))
		m.str("named field", str, m.field(text, "N"))
		m.str("pointer field", str, m.field(text, "P"))
		m.bytes("interface field", data, m.field(text, "I"))
	}
	// map keys
	for _, obj := range []interface{}{map[string]int{str: 1}, map[textKey]int{textKey(str): 1}, map[interface{}]int{str: 1}, map[interface{}]interface{}{textKey(str): 1},
		map[valueError]int{{str}: 1}, map[stringError]int{stringError(str): 1}} {
		text := jsonfmt.MarshalToString(obj)
		if !strings.HasPrefix(text, "{") || !strings.HasSuffix(text, ":1}") {
			t.Violate("map", "%T with key %q is encoded as %q", obj, str, text)
			continue
		}
		m.str(fmt.Sprintf("key of %T", obj), str, text[1:len(text)-3])
	}
	// name of field
	if name := str; name != "" && name != "-" && !strings.Contains(name, ",") && utf8.ValidString(name) {
		typ := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag(`json:` + strconv.Quote(name))}, {Name: "B", Type: reflect.TypeOf([]byte{})}})
		val := reflect.New(typ).Elem()
		val.Field(0).SetString(str)
		val.Field(1).SetBytes(data)
		text := jsonfmt.MarshalToString(val.Interface())
		if !json.Valid([]byte(text)) {
			t.Violate("name", "struct with field %q is encoded as invalid json %q", name, text)
		} else {
			dec := json.NewDecoder(strings.NewReader(text))
			dec.Token()
			if got, err := dec.Token(); err != nil || got != name {
				t.Violate("name", "field %q is encoded as %q in %q", name, got, text)
			}
		}
		t.Count("field_names", 1)
	}
}

var interesting = []byte{'a', ' ', '"', '\\', '\n', '\r', '\t', 0, 1, 0x1f, 0x7f, 0x80, 0xff, 0xc3, 0xa9, 'x', '/', '<', 'u', '0'}

func main() {
	vk.Main(vk.Check{
		ID:            "C20",
		Rule:          "all strings and byte slices of up to two arbitrary bytes and up to three (thorough: four) interesting bytes, then seeded longer ones with escapes at every position, as top level values, fields, named types, errors, map keys of several types and names of fields, appended to existing output. Oracle: decoding with encoding/json gives back the text. Non trivial: distinct texts.",
		Assumptions:   []string{"of strings that are not valid UTF-8 only the valid part is compared"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			m := monitor{t}
			m.short("")
			for a := 0; a < 256; a++ {
				m.short(string([]byte{byte(a)}))
				for b := 0; b < 256; b++ {
					m.short(string([]byte{byte(a), byte(b)}))
				}
			}
			for _, a := range interesting {
				for _, b := range interesting {
					for _, c := range interesting {
						m.short(string([]byte{a, b, c}))
						if t.Thorough() {
							for _, d := range interesting {
								m.short(string([]byte{a, b, c, d}))
							}
						}
					}
				}
			}
			rng := t.Rng("texts")
			n := t.N(12000, 600000)
			for i := 0; i < t.N(16, 300); i++ {
				// a long plain text between special characters
				plain := strings.Repeat("abcdefghij", 1+rng.Intn(8000))
				at := rng.Intn(len(plain) + 1)
				str := hx.GenString(rng, 3) + "\n" + plain[:at] + hx.GenString(rng, 2) + plain[at:] + hx.GenString(rng, 3)
				m.everywhere(rng, str, []byte(str))
				t.CountMax("longest_text", len(str))
			}
			for i := 0; i < n; i++ {
				str := hx.GenString(rng, 30)
				data := hx.GenBytes(rng, 30)
				switch rng.Intn(6) {
				case 0: // one special character somewhere in a long plain text
					plain := strings.Repeat("abcdefghij", 1+rng.Intn(30))
					at := rng.Intn(len(plain) + 1)
					str = plain[:at] + hx.GenString(rng, 2) + plain[at:]
					data = []byte(str)
				case 1:
					str = string(hx.GenBytes(rng, 20))
				case 2:
					var runes []rune
					for j := rng.Intn(10); j >= 0; j-- {
						runes = append(runes, rune(rng.Intn(0x110000)))
					}
					str = string(runes)
				}
				if !utf8.ValidString(str) {
					t.Count("not_utf8", 1)
				}
				m.everywhere(rng, str, data)
				t.Sample("text", map[string]string{"string": strconv.Quote(str), "encoded": jsonfmt.MarshalToString(str)})
			}
		},
	})
}
