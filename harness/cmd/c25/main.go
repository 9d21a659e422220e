package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
)

type kind struct {
	name     string
	signed   bool
	min, max *big.Int
	read     func(src *parse.Source) *big.Int
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func less1(v *big.Int) *big.Int { return new(big.Int).Sub(v, big.NewInt(1)) }

func neg(v *big.Int) *big.Int { return new(big.Int).Neg(v) }

var kinds = []kind{
	{"Int", true, big.NewInt(math.MinInt), big.NewInt(math.MaxInt), func(src *parse.Source) *big.Int { return big.NewInt(int64(read.Int(src))) }},
	{"Int32", true, neg(pow2(31)), less1(pow2(31)), func(src *parse.Source) *big.Int { return big.NewInt(int64(read.Int32(src))) }},
	{"Int64", true, neg(pow2(63)), less1(pow2(63)), func(src *parse.Source) *big.Int { return big.NewInt(read.Int64(src)) }},
	{"Uint64", false, big.NewInt(0), less1(pow2(64)), func(src *parse.Source) *big.Int { return new(big.Int).SetUint64(read.Uint64(src)) }},
}

// genDigits makes digits, often near the limits of some width
func genDigits(rng *rand.Rand) string {
	var v *big.Int
	switch rng.Intn(6) {
	case 0:
		v = big.NewInt(int64(rng.Intn(1000)))
	case 1:
		v = new(big.Int).SetUint64(rng.Uint64() >> uint(rng.Intn(64)))
	case 2: // around powers of two
		v = pow2([]uint{31, 32, 63, 64, 65, 7, 15, 16}[rng.Intn(8)])
		v.Add(v, big.NewInt(int64(rng.Intn(41)-20)))
	case 3: // around the place where the last digit overflows
		v = new(big.Int).Quo(pow2([]uint{31, 32, 63, 64}[rng.Intn(4)]), big.NewInt(10))
		v.Add(v, big.NewInt(int64(rng.Intn(5)-2)))
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(rng.Intn(10))))
	case 4: // multiples that look small after wrapping around
		v = new(big.Int).Mul(pow2([]uint{32, 64}[rng.Intn(2)]), big.NewInt(int64(1+rng.Intn(30))))
		v.Add(v, big.NewInt(int64(rng.Intn(1000))))
	default:
		digits := make([]byte, 1+rng.Intn(45))
		for i := range digits {
			digits[i] = byte('0' + rng.Intn(10))
		}
		return string(digits)
	}
	out := v.String()
	for rng.Intn(5) == 0 {
		out = "0" + out
	}
	return out
}

var followers = []string{"", "", ".5", "e3", " ", ",", "}", "-1", "--", "a", "/", ":", "\x00", "\xff", "中", "٣", "+", "x9", "\n12"}

func main() {
	vk.Main(vk.Check{
		ID:            "C25",
		Rule:          "seeded digit strings (around the limits of 32 and 64 bits, around where the last digit overflows, values that are small after wrapping around, up to 45 digits, leading zeros) with and without minus, followed by nothing or by characters next to the digits, or no digits at all; read with all number readers from memory and in all chunkings. Oracle: math/big for the value, exact rest of input, error exactly when not representable. Non trivial: distinct inputs with at least one digit.",
		Assumptions:   []string{"what is left unread after a number out of range is not specified", "a missing number reads as 0"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			rng := t.Rng("numbers")
			check := func(kind kind, sign bool, digits string, follow string, chunked bool) {
				if digits == "" && !sign && len(follow) > 0 && follow[0] == '-' {
					return
				}
				input := digits + follow
				if sign {
					input = "-" + input
				}
				describe := func() string { return fmt.Sprintf("%s of %q chunked=%v", kind.name, input, chunked) }
				t.Begin(describe)
				var src *parse.Source
				final := io.EOF
				if chunked {
					if input == "" {
						return
					}
					final = hx.FinalErr(rng)
					var err error
					src, err = parse.NewSource(hx.NewChunks(rng, []byte(input), final), make([]byte, 1+rng.Intn(7)))
					if err != nil {
						t.Violate("create", "no source for %q: %v", input, err)
						return
					}
				} else {
					src = parse.NewSourceString(input)
				}
				got := kind.read(src)
				err := src.Error()
				key := ""
				if digits != "" {
					key = kind.name + input
				}
				t.Eval(key)
				want, text := new(big.Int), digits
				if sign && kind.signed {
					text = "-" + digits
				}
				if sign && !kind.signed {
					text = ""
				}
				if text != "" && text != "-" {
					want.SetString(text, 10)
				}
				if want.Cmp(kind.min) < 0 || want.Cmp(kind.max) > 0 {
					t.Count("out_of_range", 1)
					if err == nil || err == io.EOF {
						t.Violate("overflow", "%s returns %v with error %v although it is out of range", describe(), got, err)
					}
					return
				}
				t.Count("representable", 1)
				if got.Cmp(want) != 0 {
					t.Violate("value", "%s returns %v instead of %v", describe(), got, want)
				}
				rest := []byte(input[len(text):])
				if len(rest) == 0 && len(text) > 0 && err != final || len(rest) > 0 && err != nil || err != nil && err != final {
					t.Violate("error", "%s gives error %v with %q left", describe(), err, rest)
				}
				left, _ := src.PeekN(len(rest) + 5)
				if !bytes.Equal(left, rest) {
					t.Violate("rest", "%s leaves %q instead of %q", describe(), left, rest)
				}
				t.Sample(kind.name, map[string]string{"input": fmt.Sprintf("%q", input), "value": got.String(), "rest": fmt.Sprintf("%q", rest)})
			}
			// everything near the limits
			for _, kind := range kinds {
				for _, limit := range []*big.Int{big.NewInt(0), pow2(7), pow2(8), pow2(15), pow2(16), pow2(31), pow2(32), pow2(63), pow2(64), new(big.Int).Mul(pow2(64), big.NewInt(10))} {
					for d := int64(-300); d <= 300; d++ {
						v := new(big.Int).Add(limit, big.NewInt(d))
						if v.Sign() < 0 {
							continue
						}
						for _, sign := range []bool{false, true} {
							check(kind, sign, v.String(), followers[rng.Intn(len(followers))], false)
							check(kind, sign, v.String(), followers[rng.Intn(len(followers))], true)
						}
					}
				}
				for _, follow := range followers {
					for _, sign := range []bool{false, true} {
						check(kind, sign, "", follow, false)
						check(kind, sign, "", follow, true)
					}
				}
			}
			n := t.N(300000, 20000000)
			for i := 0; i < n; i++ {
				digits := genDigits(rng)
				if rng.Intn(50) == 0 {
					digits = ""
				}
				follow := followers[rng.Intn(len(followers))]
				if digits == "" && len(follow) > 0 && follow[0] >= '0' && follow[0] <= '9' {
					follow = ""
				}
				check(kinds[rng.Intn(len(kinds))], rng.Intn(2) == 0, digits, follow, rng.Intn(2) == 0)
			}
		},
	})
}
