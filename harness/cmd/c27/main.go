package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
)

type node struct {
	op   string
	args []*node
}

func (n *node) write(out *strings.Builder) {
	if n == nil {
		out.WriteString("<nil>")
		return
	}
	if len(n.args) == 0 {
		out.WriteString(n.op)
		return
	}
	out.WriteString("(" + n.op)
	for _, arg := range n.args {
		out.WriteString(" ")
		arg.write(out)
	}
	out.WriteString(")")
}

func (n *node) String() string {
	var out strings.Builder
	n.write(&out)
	return out.String()
}

func same(a, b *node) bool {
	for {
		if a == nil || b == nil || a.op != b.op || len(a.args) != len(b.args) {
			return a == b
		}
		if len(a.args) == 0 {
			return true
		}
		for i := 1; i < len(a.args); i++ {
			if !same(a.args[i], b.args[i]) {
				return false
			}
		}
		a, b = a.args[0], b.args[0]
	}
}

// ---------------------------------------------------------------- the language

type operator struct {
	sym        byte
	precedence int
	right      int // precedence its right operand is parsed with
	postfix    bool
}

type language struct {
	prefixes map[byte]*operator
	infixes  map[byte]*operator
	name     string
}

func genLanguage(rng *rand.Rand) *language {
	l := &language{prefixes: map[byte]*operator{}, infixes: map[byte]*operator{}}
	symbols := []byte("+-*/%^&|<>=?:@")
	rng.Shuffle(len(symbols), func(i, j int) { symbols[i], symbols[j] = symbols[j], symbols[i] })
	levels := 1 + rng.Intn(7)
	// how far the levels are from each other
	step := []int{1, 1, 2, 10, 100, 1000, 1 << 14, 1 << 30, 1 << 50}[rng.Intn(9)]
	for i := 2 + rng.Intn(9); i > 0; i-- {
		op := &operator{sym: symbols[i], precedence: (1 + rng.Intn(levels)) * step}
		switch rng.Intn(6) {
		case 0:
			op.postfix = true
		case 1:
			op.right = op.precedence - 1
		default:
			op.right = op.precedence
		}
		l.infixes[op.sym] = op
	}
	for i := rng.Intn(3); i > 0; i-- {
		op := &operator{sym: []byte("!-~+")[rng.Intn(4)], right: rng.Intn(levels+2) * step}
		l.prefixes[op.sym] = op
	}
	for _, op := range keys(l.infixes) {
		l.name += fmt.Sprintf("%c:%d:%d ", op.sym, op.precedence, op.right)
	}
	for _, op := range keys(l.prefixes) {
		l.name += fmt.Sprintf("prefix %c:%d ", op.sym, op.right)
	}
	return l
}

// ---------------------------------------------------------------- lexer and tokens on top of the code under test

type lexer struct {
	l *language
}

func (x *lexer) PrefixToken(src *parse.Source) parse.PrefixToken {
	skip.UnicodeSpace(src)
	if len(src.Peek()) == 0 {
		return nil
	}
	b := src.Peek1()
	if op := x.l.prefixes[b]; op != nil {
		return &prefixToken{x, op}
	}
	switch {
	case b >= '0' && b <= '9':
		return numberToken{}
	case b == '(':
		return &parenToken{x}
	case b >= 'a' && b <= 'z':
		return wordToken{}
	}
	return nil
}

func (x *lexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
	skip.UnicodeSpace(src)
	if len(src.Peek()) == 0 {
		return nil, 0
	}
	if op := x.l.infixes[src.Peek1()]; op != nil {
		return &infixToken{x, op}, op.precedence
	}
	return nil, 0
}

type numberToken struct{}

func (numberToken) PrefixParse(src *parse.Source) interface{} {
	return &node{op: fmt.Sprint(read.Uint64(src))}
}

type wordToken struct{}

func (wordToken) PrefixParse(src *parse.Source) interface{} {
	var word []byte
	for src.Error() == nil && src.Peek1() >= 'a' && src.Peek1() <= 'z' {
		word = append(word, src.Peek1())
		src.ConsumeN(1)
	}
	return &node{op: string(word)}
}

type prefixToken struct {
	x  *lexer
	op *operator
}

func operand(src *parse.Source, x *lexer, precedence int) *node {
	n, _ := parse.Parse(src, x, precedence).(*node)
	return n
}

func (token *prefixToken) PrefixParse(src *parse.Source) interface{} {
	src.Consume1(token.op.sym)
	return &node{op: "pre" + string([]byte{token.op.sym}), args: []*node{operand(src, token.x, token.op.right)}}
}

type parenToken struct{ x *lexer }

func (token *parenToken) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('(')
	n := operand(src, token.x, 0)
	skip.UnicodeSpace(src)
	if len(src.Peek()) == 0 {
		src.ReportError(errors.New("missing )"))
		return n
	}
	src.Consume1(')')
	return n
}

type infixToken struct {
	x  *lexer
	op *operator
}

func (token *infixToken) InfixParse(src *parse.Source, left interface{}) interface{} {
	src.Consume1(token.op.sym)
	if token.op.postfix {
		return &node{op: "post" + string([]byte{token.op.sym}), args: []*node{left.(*node)}}
	}
	return &node{op: string([]byte{token.op.sym}), args: []*node{left.(*node), operand(src, token.x, token.op.right)}}
}

// ---------------------------------------------------------------- independent parser: two stacks

type pending struct {
	op     *operator
	prefix bool
	paren  bool
}

func apply(values []*node, p pending) []*node {
	if p.prefix {
		values[len(values)-1] = &node{op: "pre" + string([]byte{p.op.sym}), args: []*node{values[len(values)-1]}}
		return values
	}
	right := values[len(values)-1]
	left := values[len(values)-2]
	values = values[:len(values)-2]
	return append(values, &node{op: string([]byte{p.op.sym}), args: []*node{left, right}})
}

// reference returns nil if the tokens are not an expression
func reference(l *language, tokens []string) *node {
	var values []*node
	var stack []pending
	wantOperand := true
	for _, token := range tokens {
		b := token[0]
		if wantOperand {
			switch {
			case l.prefixes[b] != nil:
				stack = append(stack, pending{op: l.prefixes[b], prefix: true})
			case b == '(':
				stack = append(stack, pending{paren: true})
			case b >= '0' && b <= '9' || b >= 'a' && b <= 'z':
				values = append(values, &node{op: token})
				wantOperand = false
			default:
				return nil
			}
			continue
		}
		if b == ')' {
			for {
				if len(stack) == 0 {
					return nil
				}
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if top.paren {
					break
				}
				values = apply(values, top)
			}
			continue
		}
		op := l.infixes[b]
		if op == nil {
			return nil
		}
		for len(stack) > 0 && !stack[len(stack)-1].paren && stack[len(stack)-1].op.right >= op.precedence {
			values = apply(values, stack[len(stack)-1])
			stack = stack[:len(stack)-1]
		}
		if op.postfix {
			values[len(values)-1] = &node{op: "post" + token, args: []*node{values[len(values)-1]}}
			continue
		}
		stack = append(stack, pending{op: op})
		wantOperand = true
	}
	if wantOperand {
		return nil
	}
	for len(stack) > 0 {
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if top.paren {
			return nil
		}
		values = apply(values, top)
	}
	return values[0]
}

// ---------------------------------------------------------------- workload

func keys(m map[byte]*operator) []*operator {
	var out []*operator
	for b := 0; b < 128; b++ {
		if op := m[byte(b)]; op != nil {
			out = append(out, op)
		}
	}
	return out
}

func leaf(rng *rand.Rand) string {
	if rng.Intn(3) == 0 {
		return []string{"a", "b", "xyz", "n"}[rng.Intn(4)]
	}
	return fmt.Sprint(rng.Intn(1000))
}

// genTokens makes a well formed expression of about n operands
func genTokens(rng *rand.Rand, l *language, n int, out []string) []string {
	infixes := keys(l.infixes)
	prefixes := keys(l.prefixes)
	for i := 0; ; i++ {
		for len(prefixes) > 0 && rng.Intn(5) == 0 {
			out = append(out, string([]byte{prefixes[rng.Intn(len(prefixes))].sym}))
		}
		if rng.Intn(5) == 0 && n > 1 {
			out = append(out, "(")
			out = genTokens(rng, l, rng.Intn(n)%4, out)
			out = append(out, ")")
		} else {
			out = append(out, leaf(rng))
		}
		for {
			op := infixes[rng.Intn(len(infixes))]
			if op.postfix {
				out = append(out, string([]byte{op.sym}))
				if rng.Intn(4) == 0 || i >= n {
					return out
				}
				continue
			}
			if i >= n {
				return out
			}
			out = append(out, string([]byte{op.sym}))
			break
		}
	}
}

func text(rng *rand.Rand, tokens []string) string {
	var out strings.Builder
	for i, token := range tokens {
		if rng.Intn(6) == 0 {
			out.WriteString([]string{" ", "\t", "  ", "\u3000", "\n"}[rng.Intn(5)])
		}
		if i > 0 && isWord(tokens[i-1]) && isWord(token) {
			out.WriteString(" ")
		}
		out.WriteString(token)
	}
	if rng.Intn(8) == 0 {
		out.WriteString(" ")
	}
	return out.String()
}

func isWord(s string) bool {
	return s[0] >= '0' && s[0] <= '9' || s[0] >= 'a' && s[0] <= 'z'
}

type job struct {
	input string
	want  *node
	src   func() *parse.Source // nil for parse.String
}

func (j *job) run(t *vk.T, l *language, x *lexer) {
	var got *node
	var err error
	if j.src == nil {
		var obj interface{}
		obj, err = parse.String(j.input, x)
		got, _ = obj.(*node)
	} else {
		src := j.src()
		got, _ = parse.Parse(src, x, 0).(*node)
		if err = src.Error(); err == io.EOF {
			err = nil
		}
		if j.want != nil && err == nil && src.Error() != io.EOF {
			rest, _ := src.PeekN(20)
			t.ViolateAsync("incomplete", "parsing %.300q stopped before %q", j.input, rest)
		}
	}
	if j.want == nil {
		if err == nil {
			t.ViolateAsync("accepted", "%.300q is not an expression of (%s) but is parsed as %.300s", j.input, l.name, got)
		}
		return
	}
	if err != nil {
		t.ViolateAsync("rejected", "parsing %.300q of (%s) fails: %v", j.input, l.name, err)
		return
	}
	if !same(got, j.want) {
		t.ViolateAsync("tree", "%.300q of (%s) is parsed as %.600s instead of %.600s", j.input, l.name, got, j.want)
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C27",
		Rule:          "seeded languages (2 to 10 infix and postfix operators on 1 to 7 levels of precedence that are up to 2^50 apart, left and right associative, prefix operators of any precedence, parentheses, numbers, words, spaces) and seeded expressions (up to 60000 operands, parentheses nested up to 40000 deep, chains of up to 30000 prefix operators), parsed from memory and in chunks, one lexer shared by up to 12 goroutines; also expressions that miss an operand or a parenthesis. Oracle: independent two stack parser. Non trivial: distinct well formed expressions with at least two operators.",
		MinNontrivial: 1000,
		Run: func(t *vk.T) {
			rng := t.Rng("languages")
			n := t.N(600, 30000)
			for i := 0; i < n && !t.Violated(); i++ {
				l := genLanguage(rng)
				x := &lexer{l}
				t.Begin(func() string { return "language " + l.name })
				var jobs []*job
				add := func(tokens []string) {
					want := reference(l, tokens)
					input := text(rng, tokens)
					j := &job{input: input, want: want}
					if want == nil {
						t.Count("malformed", 1)
						t.Eval("")
					} else {
						key := ""
						if len(tokens) > 4 {
							key = l.name + strings.Join(tokens, "")
						}
						t.Eval(key)
						t.CountMax("most_tokens", len(tokens))
						if len(input) < 60 {
							t.Sample("expression", map[string]string{"language": l.name, "input": input, "tree": want.String()})
						}
					}
					if rng.Intn(2) == 0 && input != "" {
						seed := rng.Int63()
						j.src = func() *parse.Source {
							own := rand.New(rand.NewSource(seed))
							src, err := parse.NewSource(hx.NewChunks(own, []byte(input), io.EOF), make([]byte, 1+own.Intn(7)))
							if err != nil {
								t.ViolateAsync("create", "no source for %q: %v", input, err)
								return parse.NewSourceString(input)
							}
							return src
						}
					}
					jobs = append(jobs, j)
				}
				for k := 0; k < 25; k++ {
					size := rng.Intn(12)
					if k == 0 && i%40 == 0 {
						size = 3000
					}
					if k == 2 && i%150 == 2 {
						size = 60000
					}
					tokens := genTokens(rng, l, size, nil)
					if k == 1 && i%40 == 1 {
						depth := 1 + rng.Intn(3000)
						if i%160 == 1 {
							depth = 40000
						}
						nested := make([]string, 0, 2*depth+len(tokens))
						for d := 0; d < depth; d++ {
							nested = append(nested, "(")
						}
						nested = append(nested, tokens...)
						for d := 0; d < depth; d++ {
							nested = append(nested, ")")
						}
						tokens = nested
						t.CountMax("deepest_nesting", depth)
					}
					if prefixes := keys(l.prefixes); k == 3 && i%40 == 2 && len(prefixes) > 0 {
						// a long chain of prefix operators
						chain := []string{}
						for d := 1000 + rng.Intn(30000); d > 0; d-- {
							chain = append(chain, string([]byte{prefixes[rng.Intn(len(prefixes))].sym}))
						}
						t.CountMax("longest_prefix_chain", len(chain))
						tokens = append(chain, tokens...)
					}
					add(tokens)
					// break it: only where no token fits any more, not by text left over at the end
					switch rng.Intn(4) {
					case 0:
						for end := len(tokens) - 1; end > 0; end-- {
							// an operand is missing at the end
							if op := l.infixes[tokens[end][0]]; op != nil && !op.postfix && reference(l, tokens[:end]) != nil {
								add(tokens[:end+1])
								break
							}
						}
					case 1:
						add(nil)
					case 2:
						add(append([]string{"("}, tokens...))
					}
				}
				if rng.Intn(2) == 0 {
					for _, j := range jobs {
						j.run(t, l, x)
					}
				}
				var wg sync.WaitGroup
				for w := 2 + rng.Intn(11); w > 0; w-- {
					own := rand.New(rand.NewSource(rng.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						for _, k := range own.Perm(len(jobs))[:len(jobs)/3] {
							jobs[k].run(t, l, x)
						}
					}()
				}
				wg.Wait()
				t.Count("parses", len(jobs))
			}
		},
	})
}
