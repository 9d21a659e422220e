package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"verifharness/vk"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
)

type (
	myInt    int
	myInt8   int8
	myInt16  int16
	myInt32  int32
	myInt64  int64
	myUint   uint
	myUint8  uint8
	myUint16 uint16
	myUint32 uint32
	myUint64 uint64
	myBool   bool
	myF64    float64
	myF32    float32
)

type packed struct {
	A int8
	B uint16
	C int32
	D uint8
	E int64
	F bool
	G uint64
	H int16
	I uint32
	J int
	K uint
	L uintptr
}

func (p packed) want() string {
	return fmt.Sprintf(`{"A":%d,"B":%d,"C":%d,"D":%d,"E":%d,"F":%v,"G":%d,"H":%d,"I":%d,"J":%d,"K":%d,"L":%d}`, p.A, p.B, p.C, p.D, p.E, p.F, p.G, p.H, p.I, p.J, p.K, p.L)
}

type monitor struct{ t *vk.T }

func (m monitor) exact(obj interface{}, want string) {
	if got := jsonfmt.MarshalToString(obj); got != want {
		m.t.Violate("integer", "%T %v is encoded as %s instead of %s", obj, obj, got, want)
	}
}

func (m monitor) appended(what string, prefix string, got []byte, want string) {
	if string(got) != prefix+want {
		m.t.Violate("append", "%s of %s appended to %q gives %q", what, want, prefix, got)
	}
}

func room(prefix string, extra int) []byte {
	return append(make([]byte, 0, len(prefix)+extra), prefix...)
}

func (m monitor) signed(rng *rand.Rand, v int64) {
	m.t.Begin(func() string { return fmt.Sprint(v) })
	want := strconv.FormatInt(v, 10)
	m.t.Eval(want)
	prefix := strings.Repeat("x", rng.Intn(4))
	extra := rng.Intn(25)
	m.exact(v, want)
	m.appended("WriteInt64", prefix, jsonfmt.WriteInt64(room(prefix, extra), v), want)
	if int64(int(v)) == v {
		m.exact(int(v), want)
		m.exact(myInt(v), want)
		m.exact([]int{int(v), int(v)}, "["+want+","+want+"]")
	}
	if int64(int32(v)) == v {
		m.exact(int32(v), want)
		m.exact(myInt32(v), want)
		m.exact(map[int32]int32{int32(v): int32(v)}, `{"`+want+`":`+want+`}`)
		m.appended("WriteInt32", prefix, jsonfmt.WriteInt32(room(prefix, extra), int32(v)), want)
	}
	if int64(int16(v)) == v {
		m.exact(int16(v), want)
		m.exact(myInt16(v), want)
		m.exact([3]int16{1, int16(v), 2}, "[1,"+want+",2]")
		m.appended("WriteInt16", prefix, jsonfmt.WriteInt16(room(prefix, extra), int16(v)), want)
	}
	if int64(int8(v)) == v {
		m.exact(int8(v), want)
		m.exact(myInt8(v), want)
		m.exact(map[int8]string{int8(v): ""}, `{"`+want+`":""}`)
		m.appended("WriteInt8", prefix, jsonfmt.WriteInt8(room(prefix, extra), int8(v)), want)
	}
	m.exact(&v, want)
	m.exact(myInt64(v), want)
	m.exact(map[int64]int64{v: v}, `{"`+want+`":`+want+`}`)
	m.exact([]interface{}{v}, "["+want+"]")
}

func (m monitor) unsigned(rng *rand.Rand, v uint64) {
	m.t.Begin(func() string { return fmt.Sprint(v) })
	want := strconv.FormatUint(v, 10)
	m.t.Eval("u" + want)
	prefix := strings.Repeat("x", rng.Intn(4))
	extra := rng.Intn(25)
	m.exact(v, want)
	m.exact(myUint64(v), want)
	m.exact(uint(v), want)
	m.exact(myUint(v), want)
	m.exact(uintptr(v), want)
	m.appended("WriteUint64", prefix, jsonfmt.WriteUint64(room(prefix, extra), v), want)
	if uint64(uint32(v)) == v {
		m.exact(uint32(v), want)
		m.exact(myUint32(v), want)
		m.exact([]uint32{uint32(v)}, "["+want+"]")
		m.appended("WriteUint32", prefix, jsonfmt.WriteUint32(room(prefix, extra), uint32(v)), want)
	}
	if uint64(uint16(v)) == v {
		m.exact(uint16(v), want)
		m.exact(myUint16(v), want)
		m.appended("WriteUint16", prefix, jsonfmt.WriteUint16(room(prefix, extra), uint16(v)), want)
	}
	if uint64(uint8(v)) == v {
		m.exact(uint8(v), want)
		m.exact(myUint8(v), want)
		m.exact([2]uint8{uint8(v), 7}, "["+want+",7]")
		m.appended("WriteUint8", prefix, jsonfmt.WriteUint8(room(prefix, extra), uint8(v)), want)
	}
	m.exact(map[uint64]*uint64{v: &v}, `{"`+want+`":`+want+`}`)
	m.exact([]interface{}{v, uint(v)}, "["+want+","+want+"]")
}

// number reads the text as one json number
func number(text string) (float64, bool) {
	if !json.Valid([]byte(text)) {
		return 0, false
	}
	var n json.Number
	if text == "" || text[0] == '"' || json.Unmarshal([]byte(text), &n) != nil {
		return 0, false
	}
	f, err := strconv.ParseFloat(text, 64)
	return f, err == nil
}

// deviation is the exact difference of text and value
func deviation(text string, v float64) *big.Float {
	a, _, err := big.ParseFloat(text, 10, 2000, big.ToNearestEven)
	if err != nil {
		return big.NewFloat(math.Inf(1))
	}
	return a.Abs(a.Sub(a, new(big.Float).SetPrec(2000).SetFloat64(v)))
}

const ordinary = 0x4ffffff

func (m monitor) lossy(what string, text string, v float64, bits int) {
	f, ok := number(text)
	if !ok {
		m.t.Violate("float-json", "%s of %v is encoded as %q, which is not a number", what, v, text)
		return
	}
	if math.Abs(v) > ordinary {
		same := f == v
		if bits == 32 {
			f32, err := strconv.ParseFloat(text, 32)
			same = err == nil && f32 == v
		}
		if !same {
			m.t.Violate("float-large", "%s of %v is encoded as %s", what, v, text)
		}
		return
	}
	// half a unit of the sixth place, and the rounding of multiplying a float by a million
	limit := 0.5e-6 + math.Abs(v)*4e-16 + 1e-12
	if deviation(text, v).Cmp(big.NewFloat(limit)) > 0 {
		m.t.Violate("float", "%s of %v is encoded as %s", what, strconv.FormatFloat(v, 'g', -1, 64), text)
	}
	if math.Signbit(v) != strings.HasPrefix(text, "-") && (f != 0 || !math.Signbit(v)) {
		m.t.Violate("float-sign", "%s of %v is encoded as %s", what, v, text)
	}
}

func (m monitor) float(rng *rand.Rand, v float64) {
	m.t.Begin(func() string { return fmt.Sprint(v) })
	m.t.Eval("f" + strconv.FormatFloat(v, 'g', -1, 64))
	v32 := float32(v)
	if math.IsNaN(v) || math.IsInf(v, 0) {
		for _, obj := range []interface{}{v, v32, myF64(v), []float64{v}, map[string]float64{"a": v}, struct{ F float32 }{v32}, map[float64]int{v: 1}, &v} {
			if text := jsonfmt.MarshalToString(obj); !json.Valid([]byte(text)) {
				m.t.Violate("non-finite", "%T with %v is encoded as invalid json %q", obj, v, text)
			}
		}
		m.t.Count("not_finite", 1)
		return
	}
	if math.Abs(v) > ordinary {
		m.t.Count("large", 1)
	}
	prefix := strings.Repeat("0", rng.Intn(4)) // zeros before it must not be cut off
	cut := func(got []byte) string {
		if !strings.HasPrefix(string(got), prefix) {
			m.t.Violate("append", "%v appended to %q gives %q", v, prefix, got)
			return ""
		}
		return string(got[len(prefix):])
	}
	m.lossy("float64", jsonfmt.MarshalToString(v), v, 64)
	m.lossy("named float64", jsonfmt.MarshalToString(myF64(v)), v, 64)
	m.lossy("pointer to float64", jsonfmt.MarshalToString(&v), v, 64)
	m.lossy("appended float64", cut(jsonfmt.WriteFloat64Lossy([]byte(prefix), v)), v, 64)
	if text := jsonfmt.MarshalToString([]float64{v}); len(text) > 2 {
		m.lossy("slice of float64", text[1:len(text)-1], v, 64)
	}
	if f, ok := number(cut(jsonfmt.WriteFloat64([]byte(prefix), v))); !ok || f != v {
		m.t.Violate("float-exact", "WriteFloat64 of %v reads back as %v", v, f)
	}
	if math.IsInf(float64(v32), 0) {
		return
	}
	m.lossy("float32", jsonfmt.MarshalToString(v32), float64(v32), 32)
	m.lossy("named float32", jsonfmt.MarshalToString(myF32(v32)), float64(v32), 32)
	m.lossy("appended float32", cut(jsonfmt.WriteFloat32Lossy([]byte(prefix), v32)), float64(v32), 32)
	text := cut(jsonfmt.WriteFloat32([]byte(prefix), v32))
	if _, ok := number(text); !ok {
		m.t.Violate("float-exact", "WriteFloat32 of %v is %q", v32, text)
	} else if f, err := strconv.ParseFloat(text, 32); err != nil || float32(f) != v32 {
		m.t.Violate("float-exact", "WriteFloat32 of %v reads back as %v", v32, f)
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C21",
		Rule:          "all 8 and 16 bit integers, all neighbours of powers of two and ten and of sums of thousands groups for 32 and 64 bits, seeded others of every magnitude, each in all types that can hold it, as values, named types, pointers, elements and map keys; floats of all magnitudes including neighbours of six decimal places, the switch to exact encoding, denormals and non finite ones. Oracle: strconv and exact decimal difference. Non trivial: distinct numbers.",
		Assumptions:   []string{},
		MinNontrivial: 10000,
		Run: func(t *vk.T) {
			m := monitor{t}
			rng := t.Rng("numbers")
			m.exact(true, "true")
			m.exact(false, "false")
			m.exact(myBool(true), "true")
			m.exact([]bool{true, false, true}, "[true,false,true]")
			m.exact(map[bool]bool{true: false}, `{"true":false}`)
			for i := -32768; i <= 65535; i++ {
				want := strconv.Itoa(i)
				if i < 32768 {
					m.exact(int16(i), want)
				}
				if i >= 0 {
					m.exact(uint16(i), want)
				}
				if i >= -128 && i < 128 {
					m.signed(rng, int64(i))
				}
				if i >= 0 && i < 256 {
					m.unsigned(rng, uint64(i))
				}
				t.Eval(want)
			}
			around := func(base *big.Int) {
				for d := int64(-3); d <= 3; d++ {
					v := new(big.Int).Add(base, big.NewInt(d))
					if v.IsInt64() {
						m.signed(rng, v.Int64())
						m.signed(rng, -v.Int64())
					}
					if v.IsUint64() {
						m.unsigned(rng, v.Uint64())
					}
				}
			}
			for e := int64(0); e <= 64; e++ {
				around(new(big.Int).Exp(big.NewInt(2), big.NewInt(e), nil))
			}
			for e := int64(0); e <= 19; e++ {
				for k := int64(1); k <= 9; k++ {
					around(new(big.Int).Mul(big.NewInt(k), new(big.Int).Exp(big.NewInt(10), big.NewInt(e), nil)))
				}
			}
			n := t.N(60000, 3000000)
			for i := 0; i < n; i++ {
				v := rng.Uint64() >> uint(rng.Intn(64))
				if rng.Intn(3) == 0 {
					// groups of thousands with zeros in between
					v = 0
					for g := 0; g < 7; g++ {
						group := uint64([]int{0, 0, 1, 9, 10, 99, 100, 999, rng.Intn(1000)}[rng.Intn(9)])
						if v > (math.MaxUint64-group)/1000 {
							break
						}
						v = v*1000 + group
					}
				}
				m.unsigned(rng, v)
				m.signed(rng, int64(v))
				if i%4 == 0 {
					p := packed{int8(v), uint16(v >> 3), int32(v >> 5), uint8(v >> 7), int64(v), v%2 == 0, v, int16(v >> 9), uint32(v >> 11), int(v), uint(v), uintptr(v)}
					m.exact(p, p.want())
					m.exact([]packed{p, p}, "["+p.want()+","+p.want()+"]")
				}
				t.Sample("integer", map[string]string{"value": fmt.Sprint(v), "encoded": jsonfmt.MarshalToString(v)})
			}
			specials := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 0.000001, 0.0000005, 0.00000049999, 0.999999, 0.9999995, 0.99999949, 0.9999999, 1.000001, 9.999999, 99.9999999,
				ordinary, ordinary + 0.5, ordinary + 1, ordinary - 1, ordinary - 0.000001, 1e15, 1e20, 1e21, 1e22, 1e-6, 1e-7, 1e-300, 5e-324, math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32,
				math.NaN(), math.Inf(1), math.Inf(-1), 123456.789, 0.010101, 0.100000, 10.05, 100.005, 1000.0005, 83886079.999999, 83886079.9999996, 16777216, 16777217}
			for _, v := range specials {
				m.float(rng, v)
				m.float(rng, -v)
				m.float(rng, math.Nextafter(v, math.Inf(1)))
				m.float(rng, math.Nextafter(v, math.Inf(-1)))
			}
			for i := 0; i < n; i++ {
				var v float64
				switch rng.Intn(6) {
				case 0:
					v = math.Float64frombits(rng.Uint64())
				case 1:
					v = float64(math.Float32frombits(rng.Uint32()))
				case 2:
					v = float64(rng.Int63n(2*ordinary*1000000)) / 1e6
				case 3:
					v = float64(rng.Intn(1000)) + float64(rng.Intn(1000000))/1e6
				case 4:
					v = rng.Float64() * math.Pow(10, float64(rng.Intn(20)-10))
				default:
					v = float64(rng.Intn(100)) / math.Pow(10, float64(rng.Intn(8)))
				}
				if rng.Intn(2) == 0 {
					v = -v
				}
				m.float(rng, v)
				t.Sample("float", map[string]string{"value": strconv.FormatFloat(v, 'g', -1, 64), "encoded": jsonfmt.MarshalToString(v)})
			}
		},
	})
}
