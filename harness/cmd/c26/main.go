package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"unicode"
	"unicode/utf8"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
)

var tables = map[string]*unicode.RangeTable{
	"Letter": unicode.Letter, "Digit": unicode.Digit, "Han": unicode.Han, "White_Space": unicode.White_Space, "Pattern_Syntax": unicode.Pattern_Syntax, "Pattern_White_Space": unicode.Pattern_White_Space,
	"Upper": unicode.Upper, "Symbol": unicode.Symbol, "Latin": unicode.Latin, "Cc": unicode.Cc, "So": unicode.So, "Punct": unicode.Punct,
	"replacement": {R16: []unicode.Range16{{Lo: 0xfffd, Hi: 0xfffd, Stride: 1}}},
	"even":        {R16: []unicode.Range16{{Lo: 0x20, Hi: 0xfffe, Stride: 2}}, R32: []unicode.Range32{{Lo: 0x10000, Hi: 0x1fffe, Stride: 2}}},
	"everything":  {R16: []unicode.Range16{{Lo: 0, Hi: 0xffff, Stride: 1}}, R32: []unicode.Range32{{Lo: 0x10000, Hi: 0x10ffff, Stride: 1}}},
	"supplement":  {R32: []unicode.Range32{{Lo: 0x10000, Hi: 0x1ffff, Stride: 1}}},
}

var tableNames = []string{"Letter", "Digit", "Han", "White_Space", "Pattern_Syntax", "Pattern_White_Space", "Upper", "Symbol", "Latin", "Cc", "So", "Punct", "replacement", "even", "everything", "supplement"}

func pick(rng *rand.Rand, max int) (names []string, out []*unicode.RangeTable) {
	for n := rng.Intn(max + 1); len(out) < n; {
		name := tableNames[rng.Intn(len(tableNames))]
		names = append(names, name)
		out = append(out, tables[name])
	}
	return
}

// prefixRunes is the reference scanner
func prefixRunes(data []byte, match func(r rune) bool) (runes []rune, length int) {
	for length < len(data) {
		r, n := utf8.DecodeRune(data[length:])
		if !match(r) {
			break
		}
		runes = append(runes, r)
		length += n
	}
	return
}

func prefixBytes(data []byte, match func(b byte) bool) int {
	for i, b := range data {
		if !match(b) {
			return i
		}
	}
	return len(data)
}

type outcome struct {
	runes  []rune
	bytes  []byte
	count  int
	length int
}

type operation struct {
	name string
	run  func(src *parse.Source) outcome
	want outcome
	what string // runes, bytes or count
}

func operations(rng *rand.Rand, data []byte) []operation {
	name := tableNames[rng.Intn(len(tableNames))]
	table := tables[name]
	inNames, includes := pick(rng, 3)
	exNames, excludes := pick(rng, 2)
	isIn := func(r rune) bool { return unicode.Is(table, r) }
	ranges := func(r rune) bool {
		return (len(includes) == 0 || unicode.IsOneOf(includes, r)) && !unicode.IsOneOf(excludes, r)
	}
	b1, b2 := byte(rng.Intn(256)), byte(rng.Intn(256))
	if len(data) > 0 && rng.Intn(2) == 0 {
		b1 = data[rng.Intn(len(data))]
		b2 = data[rng.Intn(len(data))]
	}
	before := []rune("前")
	beforeBytes := []byte("before")
	oneRunes, oneLength := prefixRunes(data, isIn)
	manyRunes, manyLength := prefixRunes(data, ranges)
	until1 := prefixBytes(data, func(b byte) bool { return b != b1 })
	until2 := prefixBytes(data, func(b byte) bool { return b != b1 && b != b2 })
	spaces := prefixBytes(data, func(b byte) bool {
		return b == ' ' || b == '\t' || b == '\n' || b == '\v' || b == '\f' || b == '\r'
	})
	_, unicodeSpaces := prefixRunes(data, unicode.IsSpace)
	many := fmt.Sprintf("including %v excluding %v", inNames, exNames)
	return []operation{
		{"read.UnicodeRange " + name, func(src *parse.Source) outcome {
			return outcome{runes: read.UnicodeRange(src, append([]rune(nil), before...), table)}
		}, outcome{runes: append(append([]rune(nil), before...), oneRunes...), length: oneLength}, "runes"},
		{"skip.UnicodeRange " + name, func(src *parse.Source) outcome {
			return outcome{count: skip.UnicodeRange(src, table)}
		}, outcome{count: oneLength, length: oneLength}, "count"},
		{"read.UnicodeRanges " + many, func(src *parse.Source) outcome {
			return outcome{runes: read.UnicodeRanges(src, nil, includes, excludes)}
		}, outcome{runes: manyRunes, length: manyLength}, "runes"},
		{"skip.UnicodeRanges " + many, func(src *parse.Source) outcome {
			return outcome{count: skip.UnicodeRanges(src, includes, excludes)}
		}, outcome{count: manyLength, length: manyLength}, "count"},
		{fmt.Sprintf("read.AnyExcept1 %q", b1), func(src *parse.Source) outcome {
			return outcome{bytes: read.AnyExcept1(src, append([]byte(nil), beforeBytes...), b1)}
		}, outcome{bytes: append(append([]byte(nil), beforeBytes...), data[:until1]...), length: until1}, "bytes"},
		{fmt.Sprintf("read.AnyExcept2 %q %q", b1, b2), func(src *parse.Source) outcome {
			return outcome{bytes: read.AnyExcept2(src, nil, b1, b2)}
		}, outcome{bytes: data[:until2], length: until2}, "bytes"},
		{"skip.Space", func(src *parse.Source) outcome {
			return outcome{count: skip.Space(src)}
		}, outcome{count: spaces, length: spaces}, "count"},
		{"skip.UnicodeSpace", func(src *parse.Source) outcome {
			return outcome{count: skip.UnicodeSpace(src)}
		}, outcome{count: unicodeSpaces, length: unicodeSpaces}, "count"},
	}
}

var spaces = []string{" ", "\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u3000", "\xe3\x80", "\xc2", "\u200b", "\x1f", "!"}

func genInput(rng *rand.Rand) []byte {
	if rng.Intn(900) == 0 { // long runs
		runs := []string{" ", "\t", "\n", "\u3000", "\u0085", "中", "a", "7", "\xff", "é"}
		run := runs[rng.Intn(len(runs))]
		if rng.Intn(2) == 0 {
			run += runs[rng.Intn(4)]
		}
		return append(bytes.Repeat([]byte(run), 1+rng.Intn(30000)), hx.GenInput(rng, 5)...)
	}
	switch rng.Intn(4) {
	case 0: // mostly spaces
		var out []byte
		for n := rng.Intn(12); n > 0; n-- {
			out = append(out, spaces[rng.Intn(len(spaces))]...)
		}
		return append(out, hx.GenInput(rng, 3)...)
	case 1: // words
		words := []string{"abc", "中文", "é", "42", "𝄞𝄞", "_", "\ufffd", "\xff", "ÀÉ", "．", "߿", "ￜ"}
		var out []byte
		for n := rng.Intn(8); n > 0; n-- {
			out = append(out, words[rng.Intn(len(words))]...)
		}
		return append(out, hx.GenInput(rng, 3)...)
	case 2: // one character many times, then others
		out := bytes.Repeat([]byte(string(rune(0x20+rng.Intn(0x12000)))), rng.Intn(20))
		return append(out, hx.GenInput(rng, 5)...)
	}
	return hx.GenInput(rng, 40)
}

func main() {
	vk.Main(vk.Check{
		ID:            "C26",
		Rule:          "seeded inputs (words, spaces of all kinds, characters of one to four bytes, broken ones, truncated at the end, runs of up to 30000 characters) read and skipped by unicode range, several included and excluded ranges out of 16 tables, up to one or two delimiters, and spaces, from memory and in all chunkings, each also repeatedly on the same source until nothing matches. Oracle: reference scanner over the whole input for what is returned, what is left and the error. Non trivial: distinct (operation, input) consuming at least one character.",
		Assumptions:   []string{"a byte that is not part of a valid character counts as U+FFFD"},
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			rng := t.Rng("ranges")
			n := t.N(60000, 4000000)
			for i := 0; i < n; i++ {
				data := genInput(rng)
				for _, op := range operations(rng, data) {
					final := io.EOF
					var src *parse.Source
					chunked := rng.Intn(3) != 0 && len(data) > 0
					describe := func() string {
						return fmt.Sprintf("%s of %d bytes %.300q chunked=%v", op.name, len(data), data, chunked)
					}
					t.Begin(describe)
					if chunked {
						final = hx.FinalErr(rng)
						var err error
						src, err = parse.NewSource(hx.NewChunks(rng, data, final), make([]byte, 1+rng.Intn(9)))
						if err != nil {
							t.Violate("create", "no source: %v", err)
							continue
						}
					} else {
						src = parse.NewSourceString(string(data))
					}
					got := op.run(src)
					key := ""
					if op.want.length > 0 {
						key = op.name + string(data)
					}
					t.Eval(key)
					switch op.what {
					case "runes":
						if string(got.runes) != string(op.want.runes) || len(got.runes) != len(op.want.runes) {
							t.Violate("read", "%s gives %.300q instead of %.300q", describe(), string(got.runes), string(op.want.runes))
						}
					case "bytes":
						if !bytes.Equal(got.bytes, op.want.bytes) {
							t.Violate("read", "%s gives %.300q instead of %.300q", describe(), got.bytes, op.want.bytes)
						}
					case "count":
						if got.count != op.want.count {
							t.Violate("skip", "%s skipped %d bytes instead of %d", describe(), got.count, op.want.count)
						}
					}
					rest := data[op.want.length:]
					err := src.Error()
					if len(rest) > 0 && err != nil || len(rest) == 0 && len(data) > 0 && err != final {
						t.Violate("error", "%s gives error %v with %.300q left", describe(), err, rest)
					}
					// a second time nothing is left to match
					if err == nil {
						again := op.run(src)
						if n := again.count; op.what == "count" && n != 0 {
							t.Violate("again", "%s a second time skipped %d bytes", describe(), n)
						}
					}
					if left, _ := src.PeekN(len(rest) + 3); !bytes.Equal(left, rest) {
						t.Violate("rest", "%s leaves %.300q instead of %.300q", describe(), left, rest)
					}
					t.Count("operations", 1)
					t.Count("characters_consumed", op.want.length)
					t.CountMax("longest_match", op.want.length)
					if op.want.length > 0 && len(data) < 100 {
						t.Sample(op.what, map[string]string{"operation": op.name, "input": fmt.Sprintf("%q", data), "consumed": fmt.Sprintf("%q", data[:op.want.length])})
					}
				}
			}
		},
	})
}
