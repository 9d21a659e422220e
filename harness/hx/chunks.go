package hx

import (
	"errors"
	"io"
	"math/rand"
)

// ErrBroken is what some readers end with
var ErrBroken = errors.New("broken pipe")

// Chunks is a reader that returns its data in pieces of any size, with empty reads in between,
// and the final error alone or together with the last piece
type Chunks struct {
	rng      *rand.Rand
	data     []byte
	max      int
	empty    int // one of so many reads is empty, 0 for never
	together bool
	err      error
	Reads    int
	ended    bool
}

// NewChunks makes one; the same data comes out whatever rng says
func NewChunks(rng *rand.Rand, data []byte, err error) *Chunks {
	c := &Chunks{rng: rng, data: append([]byte(nil), data...), err: err, together: rng.Intn(2) == 0}
	c.max = []int{1, 2, 3, 5, 17, 1 << 20}[rng.Intn(6)]
	if rng.Intn(3) == 0 {
		c.empty = 2 + rng.Intn(3)
	}
	return c
}

func (c *Chunks) Read(buf []byte) (int, error) {
	c.Reads++
	if len(c.data) == 0 {
		c.ended = true
		return 0, c.err
	}
	if len(buf) == 0 || c.empty > 0 && c.rng.Intn(c.empty) == 0 {
		return 0, nil
	}
	n := 1 + c.rng.Intn(c.max)
	if n > len(buf) {
		n = len(buf)
	}
	n = copy(buf[:n], c.data)
	// the rest of buffer may be used as scratch space
	for i := n; i < len(buf); i++ {
		buf[i] = 0xee
	}
	c.data = c.data[n:]
	if len(c.data) == 0 && c.together {
		return n, c.err
	}
	return n, nil
}

// GenInput makes text with characters of all lengths, also broken ones
func GenInput(rng *rand.Rand, max int) []byte {
	var out []byte
	for n := rng.Intn(max + 1); len(out) < n; {
		switch rng.Intn(10) {
		case 8:
			// characters of every length, at the limits
			edges := []rune{0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}
			out = append(out, string(edges[rng.Intn(len(edges))])...)
		case 9:
			r := rune(0x10000 + rng.Intn(0x100000))
			out = append(out, string(r)...)
		case 0:
			out = append(out, byte(rng.Intn(256)))
		case 1:
			out = append(out, string(rune(0x80+rng.Intn(0x780)))...)
		case 2:
			out = append(out, string(rune(0x4e00+rng.Intn(0x500)))...)
		case 3:
			out = append(out, string(rune(0x10000+rng.Intn(0x10000)))...)
		case 4:
			full := string(rune(0x4e00 + rng.Intn(0x500)))
			out = append(out, full[:1+rng.Intn(2)]...)
		case 5:
			out = append(out, " \t\n\v\f\r\u0085\u00a0\u2003\u3000"[rng.Intn(6)])
		default:
			out = append(out, byte(' '+rng.Intn(95)))
		}
	}
	return out
}

// FinalErr picks what a reader ends with
func FinalErr(rng *rand.Rand) error {
	if rng.Intn(4) == 0 {
		return ErrBroken
	}
	return io.EOF
}
