// Package hx holds the reference models and generators shared by several checks.
// Nothing in here uses the code under test to compute what is expected.
package hx

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

var errorType = reflect.TypeOf((*error)(nil)).Elem()
var marshalerType = reflect.TypeOf((*json.Marshaler)(nil)).Elem()

// RefText is how a value is shown in a message
func RefText(value interface{}) string {
	switch typed := value.(type) {
	case fmt.Stringer:
		if rv := reflect.ValueOf(value); rv.Kind() == reflect.Ptr && rv.IsNil() {
			text := "<nil>"
			func() {
				defer func() { recover() }()
				text = typed.String()
			}()
			return text
		}
		return typed.String()
	case string:
		return typed
	case []byte:
		return RefBytes(typed)
	}
	return RefJSON(value)
}

// RefBytes is how a byte slice is shown in a message
func RefBytes(bytes []byte) string {
	var out strings.Builder
	for _, b := range bytes {
		switch {
		case b == '\\':
			out.WriteString(`\\`)
		case b == '\n':
			out.WriteString(`\n`)
		case b == '\r':
			out.WriteString(`\r`)
		case b == '\t':
			out.WriteString(`\t`)
		case b < 0x20 || b >= 0x80 || b == '|':
			fmt.Fprintf(&out, `\x%02x`, b)
		default:
			out.WriteByte(b)
		}
	}
	return out.String()
}

// RefJSONString is the json literal of string
func RefJSONString(str string) string {
	var out strings.Builder
	out.WriteByte('"')
	for i := 0; i < len(str); i++ {
		b := str[i]
		switch {
		case b == '"' || b == '\\':
			out.WriteByte('\\')
			out.WriteByte(b)
		case b == '\n':
			out.WriteString(`\n`)
		case b == '\r':
			out.WriteString(`\r`)
		case b == '\t':
			out.WriteString(`\t`)
		case b < 0x20:
			fmt.Fprintf(&out, `\u%04x`, b)
		default:
			out.WriteByte(b)
		}
	}
	out.WriteByte('"')
	return out.String()
}

// RefJSONBytesText is what the json literal of a byte slice decodes to
func RefJSONBytesText(bytes []byte) string {
	var out strings.Builder
	for _, b := range bytes {
		switch {
		case b == '\n' || b == '\r' || b == '\t':
			out.WriteByte(b)
		case b < 0x20 || b >= 0x80:
			fmt.Fprintf(&out, `\x%02x`, b)
		default:
			out.WriteByte(b)
		}
	}
	return out.String()
}

// RefJSON is the json text of value. Maps must not have more than one entry,
// floats must be exact with six decimal places.
func RefJSON(value interface{}) string {
	if value == nil {
		return "null"
	}
	var out strings.Builder
	refJSON(&out, reflect.ValueOf(value))
	return out.String()
}

func refJSON(out *strings.Builder, rv reflect.Value) {
	typ := rv.Type()
	if typ == reflect.TypeOf([]byte(nil)) {
		out.WriteString(RefJSONString(RefJSONBytesText(rv.Bytes())))
		return
	}
	if typ.Implements(errorType) {
		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
			out.WriteString("null")
			return
		}
		out.WriteString(RefJSONString(rv.Interface().(error).Error()))
		return
	}
	if typ.Implements(marshalerType) {
		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
			out.WriteString("null")
			return
		}
		text, err := rv.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			out.WriteString(RefJSONString(err.Error()))
		} else {
			out.Write(text)
		}
		return
	}
	switch rv.Kind() {
	case reflect.Bool:
		out.WriteString(strconv.FormatBool(rv.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		out.WriteString(strconv.FormatInt(rv.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		out.WriteString(strconv.FormatUint(rv.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := rv.Float()
		if math.Abs(f*1e6-math.Trunc(f*1e6)) != 0 || math.Abs(f) > 1e7 {
			panic("float not exact in six places")
		}
		out.WriteString(strconv.FormatFloat(f, 'f', -1, 64))
	case reflect.String:
		out.WriteString(RefJSONString(rv.String()))
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			out.WriteString("null")
			return
		}
		refJSON(out, rv.Elem())
	case reflect.Slice, reflect.Array:
		out.WriteByte('[')
		for i := 0; i < rv.Len(); i++ {
			if i > 0 {
				out.WriteByte(',')
			}
			refJSON(out, rv.Index(i))
		}
		out.WriteByte(']')
	case reflect.Map:
		if rv.IsNil() {
			out.WriteString("null")
			return
		}
		if rv.Len() > 1 {
			panic("order of map entries is not determined")
		}
		out.WriteByte('{')
		for _, key := range rv.MapKeys() {
			refMapKey(out, key)
			out.WriteByte(':')
			refJSON(out, rv.MapIndex(key))
		}
		out.WriteByte('}')
	case reflect.Struct:
		out.WriteByte('{')
		first := true
		for i := 0; i < rv.NumField(); i++ {
			field := typ.Field(i)
			name := field.Name
			if first, _ := utf8.DecodeRuneInString(name); !unicode.IsUpper(first) || field.Type.Kind() == reflect.Func || field.Type.Kind() == reflect.Chan {
				continue
			}
			if tag := field.Tag.Get("json"); tag == "-" {
				continue
			} else if tag = strings.Split(tag, ",")[0]; tag != "" {
				name = tag
			}
			if !first {
				out.WriteByte(',')
			}
			first = false
			out.WriteString(RefJSONString(name))
			out.WriteByte(':')
			refJSON(out, rv.Field(i))
		}
		out.WriteByte('}')
	default:
		panic("kind not in reference: " + rv.Kind().String())
	}
}

func refMapKey(out *strings.Builder, key reflect.Value) {
	var text strings.Builder
	refJSON(&text, key)
	if strings.HasPrefix(text.String(), `"`) {
		out.WriteString(text.String())
	} else {
		out.WriteString(`"` + text.String() + `"`)
	}
}

// Piece is either literal text or the name of a variable
type Piece struct {
	Literal  string
	Variable string
}

// RefMessage fills in the pieces, ok is false if a variable is missing
func RefMessage(pieces []Piece, kv []interface{}) (text string, ok bool) {
	var out strings.Builder
	ok = true
	for _, piece := range pieces {
		if piece.Variable == "" {
			out.WriteString(piece.Literal)
			continue
		}
		found := false
		for i := 0; i+1 < len(kv); i += 2 {
			if kv[i].(string) == piece.Variable {
				out.WriteString(RefText(kv[i+1]))
				found = true
				break
			}
		}
		if !found {
			ok = false
		}
	}
	return out.String(), ok
}

// Template is the text of pieces
func Template(pieces []Piece) string {
	var out strings.Builder
	for _, piece := range pieces {
		if piece.Variable == "" {
			out.WriteString(piece.Literal)
		} else {
			out.WriteString("{" + piece.Variable + "}")
		}
	}
	return out.String()
}
