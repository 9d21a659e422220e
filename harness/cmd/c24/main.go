package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"unicode/utf8"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/parse"
)

// model is the whole input in memory
type model struct {
	data     []byte
	pos      int
	final    error
	reported error
	consumed bool // something was consumed, so that the end can be known
}

func (m *model) rest() []byte { return m.data[m.pos:] }

func (m *model) consume(n int) {
	if n > len(m.rest()) {
		n = len(m.rest())
	}
	m.pos += n
	m.consumed = true
}

type run struct {
	t   *vk.T
	src *parse.Source
	m   *model
	log []string
	// what was peeked and must stay until the next consumption
	peeked []byte
	want   []byte
	guard  []byte
	// the buffers, the last one is in use
	buffers [][]byte
	retired [][]byte // content when they were replaced
}

func (r *run) fail(sig string, format string, args ...interface{}) {
	r.t.Violate(sig, "%s\ninput %q, final error %v, position %d\noperations %v", fmt.Sprintf(format, args...), r.m.data, r.m.final, r.m.pos, r.log)
}

func (r *run) check() bool {
	for _, b := range r.guard {
		if b != 0x77 {
			r.fail("overrun", "memory behind the buffer was written")
			return false
		}
	}
	for i, content := range r.retired {
		if !bytes.Equal(r.buffers[i], content) {
			r.fail("overrun", "buffer %d was written after it had been replaced", i)
			return false
		}
	}
	if r.peeked != nil && !bytes.Equal(r.peeked, r.want) {
		r.fail("peeked", "the bytes returned by PeekN changed from %q to %q before anything was consumed", r.want, r.peeked)
		return false
	}
	rest := r.m.rest()
	current := r.src.Peek()
	if !bytes.HasPrefix(rest, current) {
		r.fail("content", "current bytes %q instead of %q", current, clip(rest))
		return false
	}
	if len(rest) > 0 && len(current) == 0 {
		r.fail("lost", "nothing left instead of %q", clip(rest))
		return false
	}
	err := r.src.Error()
	if r.m.reported != nil {
		if err != r.m.reported {
			r.fail("error", "error is %v instead of the one reported before: %v", err, r.m.reported)
			return false
		}
		return true
	}
	if len(rest) > 0 && err != nil {
		r.fail("error", "error %v although there is %q left", err, clip(rest))
		return false
	}
	if len(rest) == 0 && r.m.consumed && err != r.m.final {
		r.fail("error", "all is consumed but the error is %v instead of %v", err, r.m.final)
		return false
	}
	return true
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func (r *run) step(rng *rand.Rand) bool {
	rest := r.m.rest()
	op := rng.Intn(12)
	switch {
	case op < 3:
		n := rng.Intn(6)
		if rng.Intn(4) == 0 {
			n = rng.Intn(len(rest) + 4)
		}
		r.log = append(r.log, fmt.Sprintf("PeekN(%d)", n))
		got, err := r.src.PeekN(n)
		want := rest
		if n <= len(rest) {
			want = rest[:n]
		}
		if !bytes.Equal(got, want) {
			r.fail("peek", "PeekN(%d) gives %q instead of %q", n, got, clip(want))
			return false
		}
		if n > len(rest) && err != r.m.final || n <= len(rest) && err != nil {
			r.fail("peek-error", "PeekN(%d) of %d left returns error %v, final error is %v", n, len(rest), err, r.m.final)
			return false
		}
		r.peeked, r.want = got, append([]byte(nil), got...)
		return r.check()
	case op < 5:
		r.log = append(r.log, "PeekRune")
		gotRune, gotN := r.src.PeekRune()
		wantRune, wantN := utf8.DecodeRune(rest)
		if len(rest) == 0 {
			wantN = 1
		}
		if gotRune != wantRune || gotN != wantN {
			r.fail("rune", "PeekRune gives %q of %d bytes instead of %q of %d", gotRune, gotN, wantRune, wantN)
			return false
		}
		return r.check()
	case op == 5:
		if len(rest) == 0 {
			return true
		}
		r.log = append(r.log, "Peek1")
		if got := r.src.Peek1(); got != rest[0] {
			r.fail("peek1", "Peek1 gives %q instead of %q", got, rest[0])
			return false
		}
		return true
	case op == 6:
		r.log = append(r.log, "Peek")
		return r.check()
	}
	r.peeked = nil
	switch op {
	case 7, 8:
		n := rng.Intn(4)
		if rng.Intn(4) == 0 {
			n = rng.Intn(len(rest) + 3)
		}
		if rng.Intn(3) == 0 {
			_, n = r.src.PeekRune()
		}
		r.log = append(r.log, fmt.Sprintf("ConsumeN(%d)", n))
		r.src.ConsumeN(n)
		if n > 0 {
			r.m.consume(n)
		}
	case 9:
		n := len(r.src.Peek())
		r.log = append(r.log, fmt.Sprintf("Consume of %d", n))
		r.src.Consume()
		r.m.consume(n)
	case 10:
		if len(rest) == 0 {
			return true
		}
		b := rest[0]
		if rng.Intn(20) == 0 {
			b ^= 1
		}
		r.log = append(r.log, fmt.Sprintf("Consume1(%q)", b))
		r.src.Consume1(b)
		if b != rest[0] && r.m.reported == nil {
			r.m.reported = r.src.Error()
			if r.m.reported == nil || r.m.reported == r.m.final {
				r.fail("consume1", "Consume1(%q) found %q and reported %v", b, rest[0], r.m.reported)
				return false
			}
		}
		r.m.consume(1)
	case 11:
		if rng.Intn(3) == 0 {
			size := 1 + rng.Intn(9)
			r.log = append(r.log, fmt.Sprintf("SetBuffer(%d)", size))
			r.setBuffer(size, func(buf []byte) { r.src.SetBuffer(buf) })
		} else if rng.Intn(4) == 0 && r.m.reported == nil && len(rest) > 0 {
			r.m.reported = errors.New("reported")
			r.log = append(r.log, "ReportError")
			r.src.ReportError(r.m.reported)
			r.src.ReportError(errors.New("second"))
		}
	}
	return r.check()
}

// setBuffer makes a buffer with guarded memory behind it
func (r *run) setBuffer(size int, set func(buf []byte)) {
	mem := bytes.Repeat([]byte{0x77}, size+24)
	if len(r.buffers) > 0 {
		last := r.buffers[len(r.buffers)-1]
		r.retired = append(r.retired, append([]byte(nil), last...))
	}
	r.guard = mem[size:]
	r.buffers = append(r.buffers, mem)
	set(mem[:size])
}

func main() {
	vk.Main(vk.Check{
		ID:            "C24",
		Rule:          "seeded inputs (characters of one to four bytes, broken ones, up to 60 bytes, some of 4000) read through readers returning 1 byte to everything at a time, empty reads, the end or another error alone or together with data, buffers of 1 to 64 bytes (also replaced on the way), and seeded sequences of all operations of the source until everything is consumed, and beyond. Oracle: model with the whole input in memory after every operation; what was peeked stays unchanged until something is consumed; memory behind the buffer stays unchanged. Non trivial: distinct (input, chunking, operations).",
		Assumptions:   []string{"readers return at most a few dozen empty reads in a row", "Peek1 and Consume1 are not called at the end of input"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			rng := t.Rng("sources")
			n := t.N(60000, 4000000)
			for i := 0; i < n; i++ {
				size := 60
				if i%50 == 0 {
					size = 4000
				}
				if i%3 == 0 {
					size = 8
				}
				m := &model{data: hx.GenInput(rng, size), final: hx.FinalErr(rng)}
				r := &run{t: t, m: m}
				t.Begin(func() string { return fmt.Sprintf("%q %v", m.data, r.log) })
				var reader *hx.Chunks
				if rng.Intn(8) == 0 {
					m.final = io.EOF
					r.src = parse.NewSourceString(string(m.data))
					r.log = append(r.log, "string")
				} else {
					reader = hx.NewChunks(rng, m.data, m.final)
					bufSize := []int{1, 2, 3, 4, 7, 64}[rng.Intn(6)]
					var err error
					r.setBuffer(bufSize, func(buf []byte) { r.src, err = parse.NewSource(reader, buf) })
					r.log = append(r.log, fmt.Sprintf("reader(%d)", bufSize))
					if len(m.data) == 0 {
						if r.src != nil || err != m.final {
							r.fail("empty", "source over empty reader is %v with error %v", r.src, err)
						}
						t.Eval("")
						continue
					}
					if err != nil || r.src == nil {
						r.fail("create", "source is not created: %v", err)
						continue
					}
				}
				r.src.Attachment = m
				if !r.check() {
					continue
				}
				beyond := 0
				for steps := 0; beyond < 4 && steps < 3000; steps++ {
					if !r.step(rng) {
						break
					}
					if len(m.rest()) == 0 {
						beyond++
					}
				}
				if r.src.Attachment != m {
					r.fail("attachment", "attachment is lost")
				}
				t.Eval(fmt.Sprintf("%q%v", m.data, r.log))
				t.Count("operations", len(r.log))
				t.Count("bytes", len(m.data))
				if reader != nil {
					t.Count("reads", reader.Reads)
				}
				if len(m.rest()) == 0 {
					t.Count("consumed_to_the_end", 1)
				}
				if len(m.data) < 20 {
					t.Sample("source", map[string]string{"input": fmt.Sprintf("%q", m.data), "operations": fmt.Sprint(r.log)})
				}
			}
		},
	})
}
