package hx

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"
)

// types used as values

// Named is a string but not string
type Named string

// Celsius prints itself
type Celsius float64

func (c Celsius) String() string { return fmt.Sprintf("%.1fC", float64(c)) }

// Person prints itself by pointer only
type Person struct {
	First string
	Last  string
}

func (p *Person) String() string { return p.First + " " + p.Last }

// Point is a plain struct
type Point struct {
	X    int
	Y    int64  `json:"y"`
	Name string `json:"name,omitempty"`
	skip string
	Skip string `json:"-"`
}

// Nested has everything
type Nested struct {
	ID       uint32
	Tags     []string
	Where    *Point
	Any      interface{}
	Attr     map[string]int
	Raw      []byte
	Child    *Nested
	Ok       bool
	Ratio    float64
	Err      error
	Callback func() `json:"callback"`
}

// OnePtr is stored directly in the interface
type OnePtr struct {
	P *int
}

// Coded is an error by value
type Coded struct {
	Code int
	Text string
}

func (c Coded) Error() string { return fmt.Sprintf("E%d %s", c.Code, c.Text) }

// Marshaled encodes itself
type Marshaled struct{ N int }

// MarshalJSON implements json.Marshaler
func (m Marshaled) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"n":[%d]}`, m.N)), nil }

var alphabet = []string{"a", "b", "z", "A", "0", "9", " ", "_", "-", ".", "\"", "\\", "\n", "\t", "\r", "\x00", "\x1f", "\x7f",
	"/", "<", ">", "&", "{", "}", "%", "|", "=", ":", ",", "'", "é", "中", "文", "😀", "\u2028", "ß"}

// GenString makes strings of all kinds of characters
func GenString(rng *rand.Rand, max int) string {
	n := rng.Intn(max + 1)
	plain := rng.Intn(2) == 0
	out := ""
	for i := 0; i < n; i++ {
		if plain {
			out += alphabet[rng.Intn(6)]
		} else {
			out += alphabet[rng.Intn(len(alphabet))]
		}
	}
	return out
}

// GenBytes makes byte slices of all kinds of bytes
func GenBytes(rng *rand.Rand, max int) []byte {
	n := rng.Intn(max + 1)
	out := make([]byte, n)
	plain := rng.Intn(2) == 0
	for i := range out {
		if plain {
			out[i] = byte('a' + rng.Intn(26))
		} else {
			out[i] = byte(rng.Intn(256))
		}
	}
	return out
}

// GenFloat is exact with six decimal places
func GenFloat(rng *rand.Rand) float64 {
	return float64(rng.Intn(1<<20)-1<<19) / 64
}

// Kinds is the number of kinds of GenValue
const Kinds = 34

// GenValue makes a value of the kind, for which RefText and RefJSON are defined
func GenValue(rng *rand.Rand, kind int, depth int) interface{} {
	switch kind {
	case 0:
		if rng.Intn(60) == 0 {
			return strings.Repeat(GenString(rng, 12)+"x", rng.Intn(300)) + GenString(rng, 4)
		}
		return GenString(rng, 12)
	case 1:
		if rng.Intn(60) == 0 {
			return GenBytes(rng, 3000)
		}
		return GenBytes(rng, 12)
	case 2:
		return rng.Int() - rng.Int()
	case 3:
		return int8(rng.Intn(256))
	case 4:
		return uint8(rng.Intn(256))
	case 5:
		return int16(rng.Intn(65536))
	case 6:
		return uint16(rng.Intn(65536))
	case 7:
		return int32(rng.Uint32() >> uint(rng.Intn(31)))
	case 8:
		return rng.Uint32() >> uint(rng.Intn(31))
	case 9:
		return int64(rng.Uint64() >> uint(rng.Intn(63)))
	case 10:
		return rng.Uint64() >> uint(rng.Intn(63))
	case 11:
		return rng.Intn(2) == 0
	case 12:
		return GenFloat(rng)
	case 13:
		return float32(rng.Intn(1<<12)) / 64
	case 14:
		return nil
	case 15:
		return errors.New(GenString(rng, 10))
	case 16:
		return Coded{rng.Intn(100), GenString(rng, 5)}
	case 17:
		return Celsius(GenFloat(rng))
	case 18:
		return &Person{GenString(rng, 5), GenString(rng, 5)}
	case 19:
		return (*Person)(nil)
	case 20:
		return time.Duration(rng.Int63n(1e12))
	case 21:
		return Named(GenString(rng, 8))
	case 22:
		return Marshaled{rng.Intn(1000)}
	case 23:
		return Point{rng.Intn(100), rng.Int63n(1e9), GenString(rng, 5), "x", "y"}
	case 24:
		return &Point{X: rng.Intn(100), Name: GenString(rng, 5)}
	case 25:
		return (*Point)(nil)
	case 26:
		n := rng.Intn(4)
		out := make([]int, n)
		for i := range out {
			out[i] = rng.Intn(1000) - 500
		}
		return out
	case 27:
		n := rng.Intn(4)
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, GenString(rng, 6))
		}
		return out
	case 28:
		return [3]int8{int8(rng.Intn(256)), int8(rng.Intn(256)), int8(rng.Intn(256))}
	case 29:
		m := map[string]int{}
		if rng.Intn(3) > 0 {
			m[GenString(rng, 6)] = rng.Intn(1000)
		}
		return m
	case 30:
		v := rng.Intn(1000)
		return OnePtr{&v}
	case 31:
		if depth <= 0 {
			return []interface{}{}
		}
		n := rng.Intn(4)
		out := []interface{}{}
		for i := 0; i < n; i++ {
			out = append(out, GenValue(rng, rng.Intn(Kinds), depth-1))
		}
		return out
	case 32:
		if depth <= 0 {
			return map[string]interface{}(nil)
		}
		return map[string]interface{}{GenString(rng, 6): GenValue(rng, rng.Intn(Kinds), depth-1)}
	case 33:
		n := GenNested(rng, depth)
		if rng.Intn(2) == 0 {
			return *n
		}
		return n
	}
	panic("no such kind")
}

// GenNested makes a struct with all kinds of fields
func GenNested(rng *rand.Rand, depth int) *Nested {
	n := &Nested{ID: rng.Uint32(), Ok: rng.Intn(2) == 0, Ratio: GenFloat(rng)}
	for i := rng.Intn(3); i > 0; i-- {
		n.Tags = append(n.Tags, GenString(rng, 5))
	}
	if rng.Intn(2) == 0 {
		n.Where = &Point{X: rng.Intn(10), Y: 7, Name: "w"}
	}
	if rng.Intn(2) == 0 {
		n.Attr = map[string]int{GenString(rng, 4): rng.Intn(10)}
	}
	if rng.Intn(2) == 0 {
		n.Raw = GenBytes(rng, 6)
	}
	if rng.Intn(3) == 0 {
		n.Err = errors.New(GenString(rng, 5))
	}
	if depth > 0 {
		n.Any = GenValue(rng, rng.Intn(Kinds), depth-1)
		if rng.Intn(2) == 0 {
			n.Child = GenNested(rng, depth-1)
		}
	}
	return n
}

// Lines records every write
type Lines struct {
	mutex sync.Mutex
	lines []string
}

func (l *Lines) Write(buf []byte) (int, error) {
	l.mutex.Lock()
	l.lines = append(l.lines, string(buf))
	l.mutex.Unlock()
	return len(buf), nil
}

// Take returns what was written since last time
func (l *Lines) Take() []string {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	lines := l.lines
	l.lines = nil
	return lines
}
