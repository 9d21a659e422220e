package hx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"
)

// Comparer decides if a json text has the structure and values of a Go value. It walks both at
// the same time: objects of structs are compared in order, objects of maps as sets.
type Comparer struct {
	Unexported bool
	// Custom tells the json of types encoded by extensions
	Custom map[reflect.Type]func(v reflect.Value) string
}

// member of an object, in order
type member struct {
	key   string
	value json.RawMessage
}

func members(text []byte) ([]member, error) {
	dec := json.NewDecoder(bytes.NewReader(text))
	tok, err := dec.Token()
	if err != nil || tok != json.Delim('{') {
		return nil, fmt.Errorf("not an object: %.80q", text)
	}
	var out []member
	for dec.More() {
		key, err := dec.Token()
		if err != nil {
			return nil, err
		}
		var value json.RawMessage
		if err := dec.Decode(&value); err != nil {
			return nil, err
		}
		out = append(out, member{key.(string), value})
	}
	if _, err := dec.Token(); err != nil {
		return nil, err
	}
	if rest := bytes.TrimSpace(text[dec.InputOffset():]); len(rest) > 0 {
		return nil, fmt.Errorf("something after the object: %.80q", rest)
	}
	return out, nil
}

func elements(text []byte) ([]json.RawMessage, error) {
	var out []json.RawMessage
	if len(text) == 0 || text[0] != '[' {
		return nil, fmt.Errorf("not an array: %.80q", text)
	}
	err := json.Unmarshal(text, &out)
	return out, err
}

// Compare returns the first difference
func (c *Comparer) Compare(text []byte, v interface{}) error {
	if !json.Valid(text) {
		return fmt.Errorf("not valid json")
	}
	if v == nil {
		return c.literal(text, "null")
	}
	rv := reflect.ValueOf(v)
	// make it addressable, to see unexported fields
	p := reflect.New(rv.Type())
	p.Elem().Set(rv)
	return c.compare(text, p.Elem(), "")
}

func (c *Comparer) literal(text []byte, want string) error {
	if string(text) != want {
		return fmt.Errorf("%.100s instead of %.100s", text, want)
	}
	return nil
}

func (c *Comparer) str(text []byte, want string) error {
	var got string
	if err := json.Unmarshal(text, &got); err != nil {
		return fmt.Errorf("%.100s is not a string", text)
	}
	if got != strings.ToValidUTF8(want, "\ufffd") && got != want {
		return fmt.Errorf("%.100q instead of %.100q", got, want)
	}
	return nil
}

func at(path string, err error) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s: %v", path, err)
}

// readable gives access to values of unexported fields
func readable(v reflect.Value) reflect.Value {
	if v.CanInterface() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// addressable copies v
func addressable(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Elem()
}

func isNil(v reflect.Value) bool {
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil()
}

func (c *Comparer) compare(text []byte, v reflect.Value, path string) error {
	v = readable(v)
	typ := v.Type()
	if custom := c.Custom[typ]; custom != nil {
		return at(path, c.literal(text, custom(v)))
	}
	if typ == reflect.TypeOf([]byte(nil)) {
		return at(path, c.str(text, RefJSONBytesText(v.Bytes())))
	}
	if typ.Implements(errorType) {
		if isNil(v) {
			return at(path, c.literal(text, "null"))
		}
		return at(path, c.str(text, v.Interface().(error).Error()))
	}
	if typ.Implements(marshalerType) {
		if isNil(v) {
			return at(path, c.literal(text, "null"))
		}
		want, err := v.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			return at(path, c.str(text, err.Error()))
		}
		return at(path, c.literal(text, string(want)))
	}
	switch typ.Kind() {
	case reflect.Bool:
		return at(path, c.literal(text, strconv.FormatBool(v.Bool())))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return at(path, c.literal(text, strconv.FormatInt(v.Int(), 10)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return at(path, c.literal(text, strconv.FormatUint(v.Uint(), 10)))
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(string(text), 64)
		if err != nil || math.Abs(f-v.Float()) > 0.5001e-6 {
			return at(path, fmt.Errorf("%.100s instead of %v", text, v.Float()))
		}
		return nil
	case reflect.String:
		return at(path, c.str(text, v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			return at(path, c.literal(text, "null"))
		}
		return c.compare(text, v.Elem(), path)
	case reflect.Interface:
		if v.IsNil() {
			return at(path, c.literal(text, "null"))
		}
		return c.compare(text, addressable(v.Elem()), path)
	case reflect.Slice, reflect.Array:
		if typ.Kind() == reflect.Slice && v.IsNil() && string(text) == "null" {
			return nil
		}
		got, err := elements(text)
		if err != nil {
			return at(path, err)
		}
		if len(got) != v.Len() {
			return at(path, fmt.Errorf("%d elements instead of %d", len(got), v.Len()))
		}
		for i := range got {
			if err := c.compare(got[i], v.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if v.IsNil() {
			return at(path, c.literal(text, "null"))
		}
		got, err := members(text)
		if err != nil {
			return at(path, err)
		}
		if len(got) != v.Len() {
			return at(path, fmt.Errorf("%d entries instead of %d", len(got), v.Len()))
		}
		// several keys of a map with interface keys might have the same text
		used := make([]bool, len(got))
		for _, key := range v.MapKeys() {
			keyText := fmt.Sprintf("%v", key)
			var problem error
			found := false
			for i, m := range got {
				if used[i] || !c.keyMatches(m.key, key) {
					continue
				}
				if problem = c.compare(m.value, addressable(v.MapIndex(key)), path+"["+keyText+"]"); problem == nil {
					used[i] = true
					found = true
					break
				}
			}
			if !found {
				if problem != nil {
					return problem
				}
				return at(path, fmt.Errorf("entry %q is missing in %.200s", keyText, text))
			}
		}
		return nil
	case reflect.Struct:
		got, err := members(text)
		if err != nil {
			return at(path, err)
		}
		i := 0
		for f := 0; f < v.NumField(); f++ {
			field := typ.Field(f)
			name, ok := c.fieldName(field)
			if !ok {
				continue
			}
			if i >= len(got) || got[i].key != name {
				return at(path, fmt.Errorf("field %s missing in %.200s", name, text))
			}
			if err := c.compare(got[i].value, v.Field(f), path+"."+name); err != nil {
				return err
			}
			i++
		}
		if i < len(got) {
			return at(path, fmt.Errorf("unexpected field %s in %.200s", got[i].key, text))
		}
		return nil
	}
	// functions, channels and so on: told as text
	var told string
	if err := json.Unmarshal(text, &told); err != nil || told == "" {
		return at(path, fmt.Errorf("%s is encoded as %.100s", typ, text))
	}
	return nil
}

func (c *Comparer) fieldName(field reflect.StructField) (string, bool) {
	first, _ := utf8.DecodeRuneInString(field.Name)
	if !c.Unexported && !unicode.IsUpper(first) {
		return "", false
	}
	if field.Type.Kind() == reflect.Func || field.Type.Kind() == reflect.Chan {
		return "", false
	}
	tag := field.Tag.Get("json")
	if tag == "-" {
		return "", false
	}
	if tag = strings.Split(tag, ",")[0]; tag != "" {
		return tag, true
	}
	return field.Name, true
}

// keyMatches tells if the text is what the key of map is shown as: its json if that is a string,
// otherwise its json in quotes
func (c *Comparer) keyMatches(text string, key reflect.Value) bool {
	for key.Kind() == reflect.Interface {
		if key.IsNil() {
			return text == "null"
		}
		key = key.Elem()
	}
	key = addressable(key)
	quoted, _ := json.Marshal(text)
	if c.compare(quoted, key, "") == nil {
		return true
	}
	return json.Valid([]byte(text)) && text[0] != '"' && c.compare([]byte(text), key, "") == nil
}
