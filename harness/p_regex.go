package main

import (
	"math/rand"
	"regexp/syntax"
	"slices"
	"strings"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
)

func init() {
	props["C02"] = &Prop{N: func(c *Ctx) int { return c.Pick(150000, 600000) }, Run: runC02}
	props["C11"] = &Prop{N: func(c *Ctx) int { return c.Pick(100000, 500000) }, Run: runC11}
	props["C23"] = &Prop{N: func(c *Ctx) int { return c.Pick(320, 3200) }, Run: runC23}
	props["C19lib"] = &Prop{N: func(c *Ctx) int { return 1 }, Run: func(c *Ctx, idx int) {}}
}

// reCase is a generated expression.
type reCase struct {
	re   *Node // top level: a grp node with the flags
	pat  string
	a    alphabet
	fold bool
	ml   bool
}

// genRe generates an expression. ml: multi-line flag as in csearch.
func genRe(r *rand.Rand, depth int, ml bool, eot bool, dense bool) reCase {
	for {
		a := alphabets[r.Intn(len(alphabets))]
		if r.Intn(3) == 0 {
			a = alphabets[r.Intn(3)]
		}
		ascii := true
		for _, x := range a {
			for _, o := range orbit(x) {
				if o >= 0x80 {
					ascii = false
				}
			}
		}
		g := &reGen{r: r, a: a, nwb: ascii, eot: eot, big: r.Intn(3) == 0, dense: dense && r.Intn(4) > 0}
		if g.dense && r.Intn(2) == 0 {
			var pool []*Node
			for k := 2 + r.Intn(4); k > 0; k-- {
				w := lits("")
				for j := 3 + r.Intn(3); j > 0; j-- {
					w.Sub = append(w.Sub, lit(g.a.pick(r)))
				}
				pool = append(pool, w)
			}
			g.pool = pool
		}
		var n *Node
		if depth == 0 || r.Intn(10) == 0 {
			n = g.sandwich()
		} else {
			n = g.gen(1 + r.Intn(depth))
		}
		if n.size() > 160 {
			continue
		}
		fold := r.Intn(3) == 0
		rc := reCase{a: a, fold: fold, ml: ml}
		pat := n.String()
		if ml {
			pat = "(?m)" + pat
		}
		if fold {
			pat = "(?i)" + pat
		}
		if _, err := syntax.Parse(pat, syntax.Perl); err != nil {
			continue
		}
		rc.re = grp(n, boolInt(fold), boolInt(ml))
		rc.pat = pat
		return rc
	}
}

// nwbOK reports whether \B, if used, is applied to ASCII only.
func (rc *reCase) nwbOK(text string) bool {
	return isASCII(text) || !rc.re.has("nwb")
}

// textFor builds a text of a few lines, some of which probably match.
func (rc *reCase) textFor(r *rand.Rand, maxLines int) []string {
	var lines []string
	for k := 1 + r.Intn(maxLines); k > 0; k-- {
		var s string
		switch r.Intn(6) {
		case 0:
			s = noise(r, rc.a, 12)
		case 1:
			s = ""
		case 2:
			b := 20
			s = rc.re.sample(r, rc.a, rc.fold, &b)
		default:
			b := 20
			s = noise(r, rc.a, 5) + rc.re.sample(r, rc.a, rc.fold, &b) + noise(r, rc.a, 5)
		}
		if r.Intn(4) == 0 && len(s) > 0 {
			// mutate: drop or replace a rune
			x := []rune(s)
			i := r.Intn(len(x))
			if r.Intn(2) == 0 {
				x = append(x[:i:i], x[i+1:]...)
			} else {
				x[i] = rc.a.pick(r)
			}
			s = string(x)
		}
		s = strings.ReplaceAll(s, "\n", " ")
		if len(s) > 120 {
			s = string([]rune(s)[:30])
		}
		lines = append(lines, s)
	}
	return lines
}

// longer makes a line much longer, up to the longest that is indexed.
func (rc *reCase) longer(r *rand.Rand, l string) string {
	room := 1999 - len(l)
	if r.Intn(3) > 0 {
		room = r.Intn(room)
	}
	pad := strings.ReplaceAll(noise(r, rc.a, 12), "\n", " ") + string(rune(' '+r.Intn(95)))
	if r.Intn(3) == 0 {
		pad = pad[len(pad)-1:]
	}
	before, after := "", ""
	for {
		if len(before)+len(after)+len(pad) > room {
			return before + l + after
		}
		if r.Intn(8) > 0 {
			before += pad
		} else {
			after += pad
		}
	}
}

func lineRunes(lines []string) [][]int {
	r := [][]int{}
	for _, l := range lines {
		r = append(r, runesOf(l))
	}
	return r
}

// queryJSON is a query tree as the specification sees it.
func queryJSON(q *index.Query) map[string]any {
	tri := []int{}
	for _, t := range q.Trigram {
		if len(t) != 3 {
			tri = append(tri, -1) // no file has it
			continue
		}
		tri = append(tri, int(t[0])<<16|int(t[1])<<8|int(t[2]))
	}
	sub := []any{}
	for _, s := range q.Sub {
		sub = append(sub, queryJSON(s))
	}
	op := map[index.QueryOp]string{index.QAll: "all", index.QNone: "none", index.QAnd: "and", index.QOr: "or"}[q.Op]
	return map[string]any{"op": op, "tri": tri, "sub": sub}
}

// evalQuery is the driver's own evaluation, for screening only.
func evalQuery(q *index.Query, text string) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		for _, t := range q.Trigram {
			if !strings.Contains(text, t) {
				return false
			}
		}
		for _, s := range q.Sub {
			if !evalQuery(s, text) {
				return false
			}
		}
		return true
	default:
		for _, t := range q.Trigram {
			if strings.Contains(text, t) {
				return true
			}
		}
		for _, s := range q.Sub {
			if evalQuery(s, text) {
				return true
			}
		}
		return false
	}
}

func runC02(c *Ctx, idx int) {
	r := c.Rng
	rc := genRe(r, 4, r.Intn(4) > 0, true, true)
	re, err := regexp.Compile(rc.pat)
	if err != nil {
		return
	}
	q := index.RegexpQuery(re.Syntax)
	c.Count("regexps", 1)
	if q.Op == index.QAll {
		c.Count("match_all_queries", 1)
	}
	for t := 0; t < 12; t++ {
		lines := rc.textFor(r, 2)
		text := strings.Join(lines, "\n") + "\n"
		if !rc.nwbOK(text) {
			continue
		}
		any := len(rc.re.specEnds(lineRunes(lines), true, true, true)) > 0
		sus := any && !evalQuery(q, text)
		if !any && t > 0 {
			continue
		}
		ev := Event{"kind": "query", "re": rc.re, "pat": trunc(rc.pat, 2000), "lines": lineRunes(lines), "nl": true,
			"orbits": orbitsOf(text), "query": queryJSON(q)}
		c.Screen(ev, sus, t == 0 && q.Op != index.QAll && any && idx%c.Pick(75, 60) == 0)
	}
}

// ends searches a text line by line like grep does and returns the offsets of the ends of the matching lines.
func matchEnds(m func(s string, bt, et bool) int, text string, bt, et bool) []int {
	res := []int{}
	start := 0
	for start < len(text) {
		e := m(text[start:], bt && start == 0, et)
		if e < 0 {
			break
		}
		res = append(res, start+e)
		start += e + 1
	}
	return res
}

// ends is Ends of spec/Regex.tla on sets of positions 0..len(w), for screening: the driver
// hands everything it finds surprising, and a sample of the rest, to TLC.
func (n *Node) ends(w []int, bot, eot, fi, fm bool, s []bool) []bool {
	t := make([]bool, len(s))
	some := false
	for _, b := range s {
		some = some || b
	}
	if !some {
		return t
	}
	keep := func(f func(p int) bool) []bool {
		for p := range s {
			t[p] = s[p] && f(p)
		}
		return t
	}
	isWord := func(x int) bool {
		return '0' <= x && x <= '9' || 'A' <= x && x <= 'Z' || x == '_' || 'a' <= x && x <= 'z'
	}
	wb := func(p int) bool {
		return (p > 0 && isWord(w[p-1])) != (p < len(w) && isWord(w[p]))
	}
	or := func(a, b []bool) {
		for i := range a {
			a[i] = a[i] || b[i]
		}
	}
	switch n.Op {
	case "lit", "cls", "any":
		for p := range w {
			if !s[p] {
				continue
			}
			ok := n.Op == "any"
			if !ok {
				os := []int{w[p]}
				if fi {
					os = nil
					for _, o := range orbit(rune(w[p])) {
						os = append(os, int(o))
					}
				}
				for _, o := range os {
					if n.Op == "lit" {
						ok = ok || o == n.R
						continue
					}
					for _, rg := range n.Rs {
						ok = ok || int(rg[0]) <= o && o <= int(rg[1])
					}
				}
				if n.Op == "cls" {
					ok = ok != n.Neg
				}
			}
			t[p+1] = ok
		}
		return t
	case "empty":
		return s
	case "cat":
		for _, x := range n.Sub {
			s = x.ends(w, bot, eot, fi, fm, s)
		}
		return s
	case "alt":
		for _, x := range n.Sub {
			or(t, x.ends(w, bot, eot, fi, fm, s))
		}
		return t
	case "rep":
		for k := 0; k < n.Min; k++ {
			u := n.Sub[0].ends(w, bot, eot, fi, fm, s)
			if slices.Equal(u, s) {
				break
			}
			s = u
		}
		copy(t, s)
		for k := n.Min; n.Max < 0 || k < n.Max; k++ {
			// only what was reached last can reach more
			u := n.Sub[0].ends(w, bot, eot, fi, fm, s)
			fresh := make([]bool, len(t))
			more := false
			for i := range t {
				fresh[i] = u[i] && !t[i]
				more = more || fresh[i]
			}
			if !more {
				break
			}
			or(t, fresh)
			s = fresh
		}
		return t
	case "cap":
		return n.Sub[0].ends(w, bot, eot, fi, fm, s)
	case "grp":
		if n.I >= 0 {
			fi = n.I == 1
		}
		if n.M >= 0 {
			fm = n.M == 1
		}
		return n.Sub[0].ends(w, bot, eot, fi, fm, s)
	case "caret":
		return keep(func(p int) bool { return p == 0 && (fm || bot) })
	case "dollar":
		return keep(func(p int) bool { return p == len(w) && (fm || eot) })
	case "bot":
		return keep(func(p int) bool { return p == 0 && bot })
	case "eot":
		return keep(func(p int) bool { return p == len(w) && eot })
	case "wb":
		return keep(wb)
	case "nwb":
		return keep(func(p int) bool { return !wb(p) })
	}
	panic("ends: " + n.Op)
}

func (n *Node) lineMatches(w []int, bot, eot bool) bool {
	s := make([]bool, len(w)+1)
	for i := range s {
		s[i] = true
	}
	for _, b := range n.ends(w, bot, eot, false, false, s) {
		if b {
			return true
		}
	}
	return false
}

// specEnds returns the ends of the matching lines.
func (n *Node) specEnds(lines [][]int, nl, bt, et bool) []int {
	res := []int{}
	off := 0
	for i, l := range lines {
		size := 0
		for _, x := range l {
			size += len(string(rune(x)))
		}
		if n.lineMatches(l, i == 0 && bt, i == len(lines)-1 && !nl && et) {
			res = append(res, off+size)
		}
		off += size + 1
	}
	return res
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC11(c *Ctx, idx int) {
	r := c.Rng
	rc := genRe(r, 3, r.Intn(5) > 0, true, false)
	small, sampled := rc, idx%c.Pick(64, 100) == 0
	if idx%2500 == 7 {
		rc, small = bigProgram(r)
		sampled = true
		c.Count("big_programs", 1)
	}
	re, err := regexp.Compile(rc.pat)
	if err != nil {
		return
	}
	c.Count("regexps", 1)
	for t := 0; t < 10; t++ {
		lines := small.textFor(r, 4)
		nl := r.Intn(2) == 0
		if lines[len(lines)-1] == "" {
			nl = true
		}
		text := strings.Join(lines, "\n")
		if nl {
			text += "\n"
		}
		if !rc.nwbOK(text) {
			continue
		}
		bt, et := r.Intn(4) > 0, r.Intn(4) > 0
		got := matchEnds(func(s string, bt, et bool) int { return re.Match([]byte(s), bt, et) }, text, bt, et)
		want := rc.re.specEnds(lineRunes(lines), nl, bt, et)
		g := got
		if nl && len(g) > 0 && g[len(g)-1] == len(text) {
			g = g[:len(g)-1]
		}
		ev := Event{"kind": "match", "re": rc.re, "pat": trunc(rc.pat, 2000), "lines": lineRunes(lines), "nl": nl,
			"orbits": orbitsOf(text), "bt": bt, "et": et, "ends": got}
		c.Screen(ev, !sameInts(g, want), t == 0 && sampled)
	}
}

// bigProgram makes an expression that compiles to thousands of instructions, and one to make texts for it from.
func bigProgram(r *rand.Rand) (big, small reCase) {
	small = genRe(r, 2, true, true, false)
	n := small.re.Sub[0]
	b := mk("cat")
	for k := []int{1, 2, 4, 9, 16, 17, 33, 66, 70}[r.Intn(9)]; k > 0; k-- {
		m := 1000
		if k == 1 {
			m = 1 + r.Intn(1000)
		}
		b.Sub = append(b.Sub, rep(lit(small.a.pick(r)), m, m))
	}
	if len(b.Sub) == 1 {
		b = b.Sub[0]
	}
	big = small
	switch r.Intn(4) {
	case 0:
		n = mk("alt", n, b)
	case 1:
		n = mk("cat", rep(mk("cap", b), 0, 1), mk("cap", n))
	case 2:
		n = mk("alt", b, n, mk("cat", b, n), mk("cat", mk("cap", n), lit(small.a.pick(r))))
	default:
		n = mk("alt", b, n)
	}
	big.re = grp(n, boolInt(big.fold), boolInt(big.ml))
	big.pat = "(?m)" + n.String()
	if big.fold {
		big.pat = "(?i)" + big.pat
	}
	return big, small
}

// bigStates makes an expression whose deterministic automaton has thousands of states.
func bigStates(r *rand.Rand) reCase {
	al := []alphabet{[]rune("abc"), []rune("xé-"), []rune("01 "), []rune("日月a")}[r.Intn(4)]
	any2 := func() *Node { return mk("alt", lit(al[0]), lit(al[1])) }
	n := mk("cat", rep(any2(), 0, -1), lit(al[0]))
	for k := 7 + r.Intn(6); k > 0; k-- {
		n.Sub = append(n.Sub, any2())
	}
	n.Sub = append(n.Sub, []*Node{lit(al[2]), mk("wb"), mk("cat", lit(al[2]), mk("dollar")), lits(string(al[2]) + string(al[0]))}[r.Intn(4)])
	if r.Intn(2) == 0 {
		n = mk("alt", n, mk("cat", mk("caret"), lit(al[2]), rep(any2(), 3, 9), lit(al[2])))
	}
	rc := reCase{a: al, ml: true}
	rc.re = grp(n, 0, 1)
	rc.pat = "(?m)" + n.String()
	return rc
}

func runC23(c *Ctx, idx int) {
	r := c.Rng
	rc := genRe(r, 3, r.Intn(5) > 0, true, false)
	n := 60 + r.Intn(200)
	if idx%40 == 0 {
		n = 4000
	}
	big := idx%16 == 1
	if big {
		rc = bigStates(r)
		n = 300
	}
	re, err := regexp.Compile(rc.pat)
	if err != nil {
		return
	}
	type call struct {
		lines []string
		nl    bool
		bt    bool
		et    bool
	}
	var calls []map[string]any
	suspicious := false
	first := map[string]int{}
	for k := 0; k < n; k++ {
		var cl call
		cl.lines = rc.textFor(r, 3)
		if big {
			cl.lines = nil
			for j := r.Intn(3); j >= 0; j-- {
				x := make([]rune, 20+r.Intn(60))
				for i := range x {
					x[i] = rc.a[r.Intn(2)]
					if r.Intn(20) == 0 {
						x[i] = rc.a[2]
					}
				}
				cl.lines = append(cl.lines, string(x))
			}
		}
		cl.nl = r.Intn(2) == 0 || cl.lines[len(cl.lines)-1] == ""
		cl.bt, cl.et = r.Intn(3) > 0, r.Intn(3) > 0
		text := strings.Join(cl.lines, "\n")
		if cl.nl {
			text += "\n"
		}
		if !rc.nwbOK(text) {
			continue
		}
		var got, str int
		if r.Intn(2) == 0 {
			got = re.Match([]byte(text), cl.bt, cl.et)
			str = re.MatchString(text, cl.bt, cl.et)
		} else {
			str = re.MatchString(text, cl.bt, cl.et)
			got = re.Match([]byte(text), cl.bt, cl.et)
		}
		fre, err := regexp.Compile(rc.pat)
		expect(err)
		fresh := fre.Match([]byte(text), cl.bt, cl.et)
		c.Count("calls", 1)
		key := text + string(rune('0'+boolInt(cl.bt))) + string(rune('0'+boolInt(cl.et)))
		bad := got != fresh || str != fresh
		if p, ok := first[key]; ok && p != got {
			bad = true
		}
		first[key] = got
		if bad {
			suspicious = true
		}
		if bad && len(calls) < 40 || len(calls) < 12 && r.Intn(1+n/30) == 0 {
			calls = append(calls, map[string]any{"lines": lineRunes(cl.lines), "nl": cl.nl, "bt": cl.bt, "et": cl.et,
				"got": got, "str": str, "fresh": fresh, "orbits": orbitsOf(text)})
		}
	}
	if len(calls) == 0 {
		return
	}
	c.Screen(Event{"kind": "session", "re": rc.re, "pat": trunc(rc.pat, 2000), "calls": calls, "length": n}, suspicious, idx%c.Pick(1, 3) == 0)
}
