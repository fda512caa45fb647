package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Node is the abstract syntax of a regular expression, shared with spec/Regex.tla.
type Node struct {
	Op  string   `json:"op"`
	R   int      `json:"r"`   // lit
	Rs  [][2]int `json:"rs"`  // cls
	Neg bool     `json:"neg"` // cls
	Sub []*Node  `json:"sub"`
	Min int      `json:"min"` // rep
	Max int      `json:"max"` // rep, -1 unbounded
	I   int      `json:"i"`   // grp: 1 sets the case flag, 0 clears it, -1 leaves it
	M   int      `json:"m"`   // grp: multi-line flag likewise
	src string   // cls: how to write it, if not as ranges
	lz  bool     // rep: lazy
	alt int      // choice of syntax
}

func mk(op string, sub ...*Node) *Node {
	return &Node{Op: op, Sub: append([]*Node{}, sub...), Rs: [][2]int{}, I: -1, M: -1}
}
func lit(r rune) *Node { n := mk("lit"); n.R = int(r); return n }
func lits(s string) *Node {
	n := mk("cat")
	for _, r := range s {
		n.Sub = append(n.Sub, lit(r))
	}
	if len(n.Sub) == 1 {
		return n.Sub[0]
	}
	return n
}
func cls(neg bool, rs ...[2]int) *Node { n := mk("cls"); n.Rs = rs; n.Neg = neg; return n }
func rep(sub *Node, min, max int) *Node {
	n := mk("rep", sub)
	n.Min, n.Max = min, max
	return n
}
func grp(sub *Node, i, m int) *Node { n := mk("grp", sub); n.I, n.M = i, m; return n }

func writeRune(b *strings.Builder, r rune, inClass bool, alt int) {
	if r == utf8.RuneError || !unicode.IsPrint(r) && r != ' ' || r >= 0x80 && alt%3 == 1 || alt%17 == 5 {
		if r <= 0xff && alt%2 == 0 {
			fmt.Fprintf(b, `\x%02x`, r)
		} else {
			fmt.Fprintf(b, `\x{%x}`, r)
		}
		return
	}
	meta := `\.+*?()|[]{}^$`
	if inClass {
		meta = `\[]^-&~:`
	}
	if strings.ContainsRune(meta, r) {
		b.WriteByte('\\')
	}
	b.WriteRune(r)
}

// String writes the expression in Go's regexp syntax.
func (n *Node) String() string {
	var b strings.Builder
	n.write(&b, 0)
	return b.String()
}

// prec: 0 alternation, 1 concatenation, 2 repetition operand
func (n *Node) write(b *strings.Builder, prec int) {
	open := func(need int) func() {
		if prec > need {
			b.WriteString("(?:")
			return func() { b.WriteByte(')') }
		}
		return func() {}
	}
	switch n.Op {
	case "lit":
		writeRune(b, rune(n.R), false, n.alt)
	case "cls":
		if n.src != "" {
			b.WriteString(n.src)
			return
		}
		b.WriteByte('[')
		if n.Neg {
			b.WriteByte('^')
		}
		for _, r := range n.Rs {
			writeRune(b, rune(r[0]), true, n.alt)
			if r[1] > r[0] {
				b.WriteByte('-')
				writeRune(b, rune(r[1]), true, n.alt)
			}
		}
		b.WriteByte(']')
	case "any":
		b.WriteByte('.')
	case "caret":
		b.WriteByte('^')
	case "dollar":
		b.WriteByte('$')
	case "bot":
		b.WriteString(`\A`)
	case "eot":
		b.WriteString(`\z`)
	case "wb":
		b.WriteString(`\b`)
	case "nwb":
		b.WriteString(`\B`)
	case "empty":
		b.WriteString("(?:)")
	case "cat":
		if len(n.Sub) == 0 {
			b.WriteString("(?:)")
			return
		}
		c := open(1)
		for _, s := range n.Sub {
			s.write(b, 1+boolInt(s.Op == "cat"))
		}
		c()
	case "alt":
		c := open(0)
		for i, s := range n.Sub {
			if i > 0 {
				b.WriteByte('|')
			}
			s.write(b, 1)
		}
		c()
	case "rep":
		n.Sub[0].writeAtom(b)
		switch {
		case n.Min == 0 && n.Max == -1 && n.alt%4 != 3:
			b.WriteByte('*')
		case n.Min == 1 && n.Max == -1 && n.alt%4 != 3:
			b.WriteByte('+')
		case n.Min == 0 && n.Max == 1 && n.alt%4 != 3:
			b.WriteByte('?')
		case n.Max == -1:
			fmt.Fprintf(b, "{%d,}", n.Min)
		case n.Min == n.Max:
			fmt.Fprintf(b, "{%d}", n.Min)
		default:
			fmt.Fprintf(b, "{%d,%d}", n.Min, n.Max)
		}
		if n.lz {
			b.WriteByte('?')
		}
	case "cap":
		if n.alt%5 == 1 {
			fmt.Fprintf(b, "(?P<n%d>", n.alt)
		} else {
			b.WriteByte('(')
		}
		n.Sub[0].write(b, 0)
		b.WriteByte(')')
	case "grp":
		on, off := "", ""
		if n.I == 1 {
			on += "i"
		} else if n.I == 0 {
			off += "i"
		}
		if n.M == 1 {
			on += "m"
		} else if n.M == 0 {
			off += "m"
		}
		if n.alt%4 == 1 {
			on += "s"
		} else if n.alt%4 == 2 {
			on += "U"
		}
		b.WriteString("(?" + on)
		if off != "" {
			b.WriteString("-" + off)
		}
		b.WriteByte(':')
		n.Sub[0].write(b, 0)
		b.WriteByte(')')
	default:
		panic("write " + n.Op)
	}
}

func (n *Node) writeAtom(b *strings.Builder) {
	switch n.Op {
	case "lit", "cls", "any", "cap", "grp", "empty", "wb", "nwb", "bot", "eot", "caret", "dollar":
		n.write(b, 0)
	default:
		b.WriteString("(?:")
		n.write(b, 0)
		b.WriteByte(')')
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// orbit returns the runes that are equal to r up to case, r included.
func orbit(r rune) []int {
	o := []int{int(r)}
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		o = append(o, int(f))
	}
	return o
}

// orbitsOf returns the non-trivial orbits of the runes in texts.
func orbitsOf(texts ...string) [][]int {
	seen := map[int]bool{}
	res := [][]int{}
	for _, t := range texts {
		for _, r := range t {
			if seen[int(r)] {
				continue
			}
			o := orbit(r)
			for _, x := range o {
				seen[x] = true
			}
			if len(o) > 1 {
				sort.Ints(o)
				res = append(res, o)
			}
		}
	}
	return res
}

// An alphabet biases the generator.
type alphabet []rune

var alphabets = []alphabet{
	[]rune("abc"),
	[]rune("ab"),
	[]rune("abcdefgh"),
	[]rune("abkKsS"),
	[]rune("aA_ -1"),
	[]rune("aéßz"),
	[]rune("ks\u017f\u212aKS"),
	[]rune("σςΣaĸ"),
	[]rune("世界日a"),
	[]rune{0x7f, 0x80, 0x7ff, 0x800, 'a'},
	[]rune{0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 'a'},
	[]rune{0x104b0, 0x104d8, 0x1e900, 0x1e922, 0x118a0, 0x118c0, 'a'},
	[]rune{0x13a0, 0xab70, 0x1c5, 0x1c4, 0x1c6, 0x3b8, 0x3f4, 0x3d1, 'x'},
	[]rune(`.*+?()|[]{}^$\-a`),
	[]rune("<>&\"'/ab"),
	{0x3f, 0x40, 0xbf, 0xc0, 0xfff, 0x1000, 0x3ffff, 0x40000, 'b'},
}

func (a alphabet) pick(r *rand.Rand) rune { return a[r.Intn(len(a))] }

type reGen struct {
	r     *rand.Rand
	a     alphabet
	nwb   bool    // \B allowed (ASCII texts only)
	eot   bool    // \A \z allowed
	big   bool    // many-way alternations and large classes
	pool  []*Node // words to be used more than once
	dense bool    // little that matches anything, so that queries say something
}

var perl = []struct {
	src string
	neg bool
	rs  [][2]int
}{
	{`\d`, false, [][2]int{{'0', '9'}}},
	{`\D`, true, [][2]int{{'0', '9'}}},
	{`\w`, false, [][2]int{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}},
	{`\W`, true, [][2]int{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}},
	{`\s`, false, [][2]int{{9, 10}, {12, 13}, {32, 32}}},
	{`\S`, true, [][2]int{{9, 10}, {12, 13}, {32, 32}}},
	{`[[:alpha:]]`, false, [][2]int{{'A', 'Z'}, {'a', 'z'}}},
	{`[[:^upper:]]`, true, [][2]int{{'A', 'Z'}}},
	{`[[:punct:]]`, false, [][2]int{{'!', '/'}, {':', '@'}, {'[', '`'}, {'{', '~'}}},
	{`\p{Greek}`, false, tableRanges(unicode.Greek)},
	{`\P{Greek}`, true, tableRanges(unicode.Greek)},
	{`\p{Deseret}`, false, tableRanges(unicode.Deseret)},
	{`\p{Osage}`, false, tableRanges(unicode.Osage)},
	{`\pL`, false, tableRanges(unicode.L)},
	{`\PL`, true, tableRanges(unicode.L)},
	{`\p{Lu}`, false, tableRanges(unicode.Lu)},
	{`\P{Lu}`, true, tableRanges(unicode.Lu)},
	{`\p{Ll}`, false, tableRanges(unicode.Ll)},
	{`\p{Han}`, false, tableRanges(unicode.Han)},
	{`\p{^Nd}`, true, tableRanges(unicode.Nd)},
}

func tableRanges(t *unicode.RangeTable) [][2]int {
	var r [][2]int
	add := func(lo, hi, st int) {
		if st == 1 {
			r = append(r, [2]int{lo, hi})
			return
		}
		for x := lo; x <= hi; x += st {
			r = append(r, [2]int{x, x})
		}
	}
	for _, x := range t.R16 {
		add(int(x.Lo), int(x.Hi), int(x.Stride))
	}
	for _, x := range t.R32 {
		add(int(x.Lo), int(x.Hi), int(x.Stride))
	}
	return r
}

func (g *reGen) class() *Node {
	r := g.r
	if r.Intn(6) == 0 {
		p := perl[r.Intn(len(perl))]
		n := cls(p.neg, p.rs...)
		n.src = p.src
		return n
	}
	var rs [][2]int
	k := 1 + r.Intn(3)
	if g.big && r.Intn(4) == 0 {
		k = 3 + r.Intn(6)
	}
	for i := 0; i < k; i++ {
		lo := g.a.pick(r)
		hi := lo
		switch r.Intn(6) {
		case 0:
			hi = lo + rune(r.Intn(4))
		case 1:
			hi = g.a.pick(r)
		case 2:
			if g.big {
				hi = lo + rune(r.Intn(130))
			}
		case 3:
			if r.Intn(3) == 0 {
				hi = lo + rune(r.Intn(0x3000))
			}
		}
		if lo > hi {
			lo, hi = hi, lo
		}
		if hi > 0x10ffff {
			hi = 0x10ffff
		}
		if lo >= 0xd800 && lo < 0xe000 {
			lo = 0xd7ff
		}
		if hi >= 0xd800 && hi < 0xe000 {
			hi = 0xe000
		}
		if lo > hi {
			lo, hi = hi, lo
		}
		rs = append(rs, [2]int{int(lo), int(hi)})
	}
	n := cls(r.Intn(4) == 0, rs...)
	n.alt = r.Intn(100)
	return n
}

func (g *reGen) word(max int) *Node {
	if g.dense && len(g.pool) > 0 && g.r.Intn(3) > 0 {
		// the same words again and again, so that parts of the query coincide
		return g.pool[g.r.Intn(len(g.pool))]
	}
	n := mk("cat")
	for k := 1 + g.r.Intn(max); k > 0; k-- {
		l := lit(g.a.pick(g.r))
		l.alt = g.r.Intn(100)
		n.Sub = append(n.Sub, l)
	}
	if len(n.Sub) == 1 {
		return n.Sub[0]
	}
	return n
}

func (g *reGen) gen(d int) *Node {
	r := g.r
	if g.dense && r.Intn(3) == 0 {
		if len(g.pool) > 0 && r.Intn(3) == 0 {
			n := mk("alt")
			for k := 2 + r.Intn(3); k > 0; k-- {
				switch r.Intn(4) {
				case 0:
					n.Sub = append(n.Sub, g.word(3))
				case 1:
					n.Sub = append(n.Sub, mk("cat", g.word(3), rep(mk("any"), 0, -1)))
				case 2:
					n.Sub = append(n.Sub, mk("cat", g.word(3), rep(mk("any"), 0, -1), g.word(3)))
				case 3:
					n.Sub = append(n.Sub, mk("cat", g.word(3), g.gen(d-1)))
				}
			}
			return mk("cap", n)
		}
		if d <= 0 {
			return g.word(6)
		}
		if r.Intn(2) == 0 {
			return mk("cat", g.word(3), g.gen(d-1), g.word(3))
		}
		return mk("alt", g.gen(d-1), g.gen(d-1))
	}
	if d <= 0 {
		switch k := r.Intn(20); {
		case k < 10:
			return g.word(4)
		case k < 14:
			return g.class()
		case k < 16:
			return mk("any")
		case k < 17:
			return mk("empty")
		default:
			return g.anchor()
		}
	}
	switch k := r.Intn(24); {
	case k < 8:
		n := mk("cat")
		for j := 2 + r.Intn(3); j > 0; j-- {
			n.Sub = append(n.Sub, g.gen(d-1))
		}
		return n
	case k < 13:
		if r.Intn(4) == 0 {
			return g.chars()
		}
		n := mk("alt")
		j := 2 + r.Intn(3)
		if g.big && r.Intn(3) == 0 {
			j = 5 + r.Intn(22)
			for ; j > 0; j-- {
				if r.Intn(5) == 0 {
					n.Sub = append(n.Sub, g.gen(d-2))
				} else {
					n.Sub = append(n.Sub, g.word(5))
				}
			}
			return n
		}
		for ; j > 0; j-- {
			n.Sub = append(n.Sub, g.gen(d-1))
		}
		return n
	case k < 18:
		if r.Intn(40) == 0 {
			// very many times
			n := rep(g.class(), 5+r.Intn(60), -1)
			if r.Intn(2) == 0 {
				n.Sub[0] = g.word(2)
			}
			if r.Intn(2) == 0 {
				n.Max = n.Min + r.Intn(20)
			}
			return n
		}
		n := rep(g.gen(d-1), 0, -1)
		switch r.Intn(7) {
		case 0, 1:
			n.Min, n.Max = 0, 1
		case 2, 3:
			n.Min = 1
		case 4:
			n.Min = r.Intn(4)
			n.Max = n.Min + r.Intn(3)
			if n.Max == 0 {
				n.Max = 1
			}
		case 5:
			n.Min = r.Intn(4)
		}
		if g.dense && n.Min == 0 && r.Intn(3) > 0 {
			n.Min = 1
			n.Max = max(n.Max, 1)
			if r.Intn(2) == 0 {
				n.Max = -1
			}
		}
		n.lz = r.Intn(5) == 0
		n.alt = r.Intn(100)
		return n
	case k < 20:
		n := mk("cap", g.gen(d-1))
		n.alt = 0
		return n
	case k < 21:
		n := grp(g.gen(d-1), 1-r.Intn(2), -1+r.Intn(2)*r.Intn(3))
		n.alt = r.Intn(100)
		return n
	case k < 22:
		return g.anchor()
	case k < 23:
		return g.class()
	default:
		return g.word(6)
	}
}

// chars is an alternation that the parser factors and merges: characters,
// classes and short words with common prefixes and case variants.
func (g *reGen) chars() *Node {
	r := g.r
	few := []rune{g.a.pick(r), g.a.pick(r)}
	for _, x := range few[:2] {
		o := orbit(x)
		few = append(few, rune(o[r.Intn(len(o))]))
	}
	char := func() *Node {
		x := few[r.Intn(len(few))]
		switch r.Intn(5) {
		case 0:
			n := cls(false, [2]int{int(x), int(x)})
			n.alt = r.Intn(100)
			return n
		case 1:
			return g.class()
		}
		l := lit(x)
		l.alt = r.Intn(100)
		return l
	}
	n := mk("alt")
	prefix := r.Intn(2) == 0
	for k := 2 + r.Intn(4); k > 0; k-- {
		c := char()
		if prefix && r.Intn(3) > 0 {
			c = mk("cat", lit(few[0]), c)
		}
		if r.Intn(4) == 0 {
			c = mk("cat", c, char())
		}
		n.Sub = append(n.Sub, c)
	}
	if r.Intn(3) == 0 {
		return mk("cat", g.word(2), n)
	}
	return n
}

// sandwich is something small that is repeated, between words.
func (g *reGen) sandwich() *Node {
	r := g.r
	var in *Node
	switch r.Intn(6) {
	case 0, 1:
		in = g.class()
	case 2:
		in = g.word(3)
	case 3:
		in = mk("alt", g.word(2), g.word(2))
	case 4:
		in = mk("cat", g.class(), g.word(2))
	case 5:
		in = g.chars()
	}
	n := rep(in, r.Intn(4), -1)
	if r.Intn(2) == 0 {
		n.Max = max(1, n.Min+r.Intn(3))
	}
	n.lz, n.alt = r.Intn(5) == 0, r.Intn(100)
	m := mk("cat", g.word(3), n, g.word(3))
	if r.Intn(4) == 0 {
		m.Sub = m.Sub[r.Intn(2):]
	}
	if r.Intn(4) == 0 {
		m.Sub = m.Sub[:len(m.Sub)-1]
	}
	return m
}

func (g *reGen) anchor() *Node {
	switch k := g.r.Intn(8); {
	case k < 2:
		return mk("caret")
	case k < 4:
		return mk("dollar")
	case k < 6:
		return mk("wb")
	case k < 7:
		if g.nwb {
			return mk("nwb")
		}
		return mk("wb")
	default:
		if g.eot {
			if g.r.Intn(2) == 0 {
				return mk("bot")
			}
			return mk("eot")
		}
		return mk("empty")
	}
}

// sample returns a string that probably is in the language of n.
func (n *Node) sample(r *rand.Rand, a alphabet, fold bool, budget *int) string {
	*budget--
	if *budget < -200 {
		return ""
	}
	foldRune := func(x rune) rune {
		if fold {
			o := orbit(x)
			return rune(o[r.Intn(len(o))])
		}
		return x
	}
	switch n.Op {
	case "lit":
		return string(foldRune(rune(n.R)))
	case "any":
		return string(a.pick(r))
	case "cls":
		if n.Neg {
			for k := 0; k < 10; k++ {
				x := a.pick(r)
				in := false
				for _, rr := range n.Rs {
					if int(x) >= rr[0] && int(x) <= rr[1] {
						in = true
					}
				}
				if !in {
					return string(x)
				}
			}
			return "~"
		}
		rr := n.Rs[r.Intn(len(n.Rs))]
		x := rr[0]
		switch r.Intn(4) {
		case 0:
			x = rr[1]
		case 1:
			x = rr[0] + r.Intn(rr[1]-rr[0]+1)
		case 2:
			// a rune of the alphabet inside the class, if any
			for k := 0; k < 5; k++ {
				y := int(a.pick(r))
				if y >= rr[0] && y <= rr[1] {
					x = y
				}
			}
		}
		if x >= 0xd800 && x < 0xe000 || x == '\n' {
			x = rr[1]
		}
		if x >= 0xd800 && x < 0xe000 || x == '\n' {
			x = rr[0]
		}
		if x == '\n' {
			x = ' '
		}
		return string(foldRune(rune(x)))
	case "cat":
		s := ""
		for _, x := range n.Sub {
			s += x.sample(r, a, fold, budget)
		}
		return s
	case "alt":
		if len(n.Sub) == 0 {
			return ""
		}
		return n.Sub[r.Intn(len(n.Sub))].sample(r, a, fold, budget)
	case "rep":
		k := n.Min
		m := n.Max
		if m < 0 {
			m = n.Min + 3
		}
		if *budget > 0 {
			k += r.Intn(m - n.Min + 1)
		}
		s := ""
		for ; k > 0; k-- {
			s += n.Sub[0].sample(r, a, fold, budget)
		}
		return s
	case "cap":
		return n.Sub[0].sample(r, a, fold, budget)
	case "grp":
		if n.I == 1 {
			fold = true
		} else if n.I == 0 {
			fold = false
		}
		return n.Sub[0].sample(r, a, fold, budget)
	}
	return ""
}

// size counts nodes.
func (n *Node) size() int {
	k := 1 + len(n.Rs)/8
	for _, s := range n.Sub {
		k += s.size()
	}
	if n.Op == "rep" {
		k *= max(1, n.Min, n.Max)
	}
	return k
}

func (n *Node) has(ops ...string) bool {
	for _, o := range ops {
		if n.Op == o {
			return true
		}
	}
	for _, s := range n.Sub {
		if s.has(ops...) {
			return true
		}
	}
	return false
}

func isASCII(s string) bool {
	for i := range len(s) {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// noise returns a random line over the alphabet.
func noise(r *rand.Rand, a alphabet, max int) string {
	s := ""
	for k := r.Intn(max + 1); k > 0; k-- {
		x := a.pick(r)
		switch r.Intn(12) {
		case 0:
			x = ' '
		case 1:
			x = rune("abcxyz_09-."[r.Intn(11)])
		case 2:
			x += rune(r.Intn(3) - 1)
		case 3:
			o := orbit(x)
			x = rune(o[r.Intn(len(o))])
		}
		if x == '\n' || x <= 0 || x > 0x10ffff || x >= 0xd800 && x < 0xe000 {
			x = 'z'
		}
		s += string(x)
	}
	return s
}
