package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/google/codesearch/regexp"
)

func init() {
	for _, p := range []string{"C12", "C13", "C14"} {
		props[p] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(2000, 10000) }, Run: runGrep}
	}
}

// gopts are the options of a search.
type gopts struct {
	N     bool `json:"n"`
	H     bool `json:"h"`
	C     bool `json:"c"`
	L     bool `json:"l"`
	Pre   int  `json:"pre"`
	Post  int  `json:"post"`
	Limit int  `json:"limit"`

	empty   bool // the empty pattern
	hostile bool // patterns with characters that mean something in URLs and markup
}

// gcase is a search of files made of lines from a table.
type gcase struct {
	re     *Node
	pat    string // with flags
	raw    string // without
	fold   bool
	o      gopts
	tab    []string
	files  []gfile
	caprun int
	ids    map[string]int
	fre    *Node // file name filter, if any
	fpat   string
}

// chosen reports whether the filter lets a file name pass.
func (g *gcase) chosen(name string) bool {
	return g.fre == nil || g.fre.lineMatches(runesOf(name), true, true)
}

type gfile struct {
	name string
	text [][2]int // table index (from 1), count
	nl   bool
}

func (g *gcase) line(s string) int {
	if g.ids == nil {
		g.ids = map[string]int{}
	}
	if id, ok := g.ids[s]; ok {
		return id
	}
	g.tab = append(g.tab, s)
	g.ids[s] = len(g.tab)
	return len(g.tab)
}

func (g *gcase) add(f *gfile, s string, n int) {
	if n <= 0 {
		return
	}
	id := g.line(s)
	if m := len(f.text); m > 0 && f.text[m-1][0] == id {
		f.text[m-1][1] += n
		return
	}
	f.text = append(f.text, [2]int{id, n})
}

// fatten puts a megabyte or two of lines that do not match into a file, so that it does not fit the buffer.
func (g *gcase) fatten(r *rand.Rand) bool {
	f := &g.files[r.Intn(len(g.files))]
	l := []string{"\tfiller of some length, not to be found, not to be found", "~~~~~~", strings.Repeat("7", 700), strings.Repeat("~ 7", 60)}[r.Intn(4)]
	for _, b := range []bool{false, true} {
		for _, e := range []bool{false, true} {
			if g.re.lineMatches(runesOf(l), b, e) {
				return false
			}
		}
	}
	size := 1<<20 + r.Intn(1<<20)
	if r.Intn(2) == 0 {
		size = 1<<20 + r.Intn(2000) - 1000
	}
	k := r.Intn(len(f.text) + 1)
	x := [2]int{g.line(l), size / (len(l) + 1)}
	f.text = append(f.text[:k:k], append([][2]int{x}, f.text[k:]...)...)
	return true
}

func (g *gcase) bytes(f gfile) []byte {
	var b []byte
	for _, x := range f.text {
		l := g.tab[x[0]-1] + "\n"
		b = append(b, bytes.Repeat([]byte(l), x[1])...)
	}
	if !f.nl && len(b) > 0 {
		b = b[:len(b)-1]
	}
	return b
}

// rle turns text into runs; bytes that are not valid UTF-8 become 0xdc00 plus the byte.
func rle(s string) [][2]int {
	res := [][2]int{}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		x := int(r)
		if r == utf8.RuneError && n == 1 {
			x = 0xdc00 + int(s[i])
		}
		i += n
		if k := len(res); k > 0 && res[k-1][0] == x {
			res[k-1][1]++
		} else {
			res = append(res, [2]int{x, 1})
		}
	}
	return res
}

func capRuns(s string, n int) []int {
	r := []int{}
	for _, x := range rle(s) {
		for k := 0; k < min(n, x[1]); k++ {
			r = append(r, x[0])
		}
	}
	return r
}

// fits is FitsBuffer of spec/GrepSpec.tla: the least capacity that fits.
func (g *gcase) fits(f gfile) int {
	var w []int
	for _, x := range f.text {
		for k := 0; k < x[1]; k++ {
			w = append(w, len(g.tab[x[0]-1])+1)
		}
	}
	m := g.o.Pre + 1 + g.o.Post
	need, sum := 1, 0
	for k := range w {
		sum += w[k]
		if k >= m {
			sum -= w[k-m]
		}
		need = max(need, sum+boolInt(m > 1))
	}
	return need
}

type gresult struct {
	out            string
	any, limited   bool
	matches        int
	matchLineCount int
}

// expect is Search of spec/GrepSpec.tla, for screening.
func (g *gcase) expect() gresult {
	var res gresult
	var out bytes.Buffer
	type mm [2][2]int8
	memo := make([]mm, len(g.tab))
	match := func(i int, b, e bool) bool {
		x := &memo[i-1][boolInt(b)][boolInt(e)]
		if *x == 0 {
			*x = 1
			if g.re.lineMatches(capRuns(g.tab[i-1], g.caprun), b, e) {
				*x = 2
			}
		}
		return *x == 2
	}
	chomp := func(s string) string { return strings.TrimRight(s, " \t\r") }
	for _, f := range g.files {
		if !g.chosen(f.name) {
			continue
		}
		var lines []int
		for _, x := range f.text {
			for k := 0; k < x[1]; k++ {
				lines = append(lines, x[0])
			}
		}
		n := len(lines)
		var ml []int
		for k := range lines {
			if match(lines[k], k == 0, k == n-1 && !f.nl) {
				ml = append(ml, k)
			}
		}
		if len(ml) == 0 {
			continue
		}
		res.any = true
		res.matchLineCount += len(ml)
		prefix := f.name + ":"
		if g.o.H {
			prefix = ""
		}
		full := func() bool { return g.o.Limit > 0 && res.matches >= g.o.Limit }
		if g.o.L {
			if full() {
				res.limited = true
				continue
			}
			res.matches++
			fmt.Fprintf(&out, "%s\n", f.name)
			continue
		}
		if g.o.C {
			res.matches += len(ml)
			fmt.Fprintf(&out, "%s: %d\n", f.name, len(ml))
			continue
		}
		for _, k := range ml {
			if full() {
				res.limited = true
				break
			}
			res.matches++
			if g.o.Pre+g.o.Post == 0 {
				if g.o.N {
					fmt.Fprintf(&out, "%s%d:%s\n", prefix, k+1, g.tab[lines[k]-1])
				} else {
					fmt.Fprintf(&out, "%s%s\n", prefix, g.tab[lines[k]-1])
				}
				continue
			}
			fmt.Fprintf(&out, "%s%d:\n", prefix, k+1)
			lo, hi := max(0, k-g.o.Pre), min(n-1, k+g.o.Post)
			m := chomp(g.tab[lines[k]-1])
			ind := m[:len(m)-len(strings.TrimLeft(m, " \t"))]
			for j := lo; j <= hi; j++ {
				l := chomp(g.tab[lines[j]-1])
				if l == "" {
					continue
				}
				i := 0
				for i < len(ind) && i < len(l) && l[i] == ind[i] {
					i++
				}
				ind = ind[:i]
			}
			for j := lo; j <= hi; j++ {
				l := chomp(g.tab[lines[j]-1])
				if l != "" {
					l = l[len(ind):]
				}
				if j == k {
					fmt.Fprintf(&out, "\t>>\t%s\n", l)
				} else {
					fmt.Fprintf(&out, "\t\t%s\n", l)
				}
			}
		}
	}
	res.out = out.String()
	return res
}

type grun struct {
	Via     string   `json:"via"`
	Cap     int      `json:"cap"`
	Small   bool     `json:"small"`
	Out     [][2]int `json:"out"`
	Matched bool     `json:"matched"`
	Matches int      `json:"matches"`
	Limited bool     `json:"limited"`
	Exit    int      `json:"exit"`
	Stderr  string   `json:"stderr"`
	ok      bool
}

// limit the size of what is recorded
func runsOf(s string) [][2]int {
	r := rle(s)
	if len(r) > 60000 {
		r = append(r[:60000:60000], [2]int{-1, 1})
	}
	return r
}

// onlyReader hides other methods of a reader.
type onlyReader struct{ io.Reader }

// lib searches with the library.
func (g *gcase) lib(r *rand.Rand, cap int, want gresult) grun {
	re, err := regexp.Compile(g.pat)
	if err != nil {
		panic(err)
	}
	var out, errs bytes.Buffer
	gr := regexp.Grep{Regexp: re, Stdout: &out, Stderr: &errs, L: g.o.L, C: g.o.C, N: g.o.N, H: g.o.H,
		PreContext: g.o.Pre, PostContext: g.o.Post, Limit: g.o.Limit}
	if cap > 0 {
		setGrepBuf(&gr, cap)
	}
	for _, f := range g.files {
		b := g.bytes(f)
		var rd io.Reader
		switch r.Intn(4) {
		case 0:
			rd = bytes.NewReader(b)
		case 1:
			rd = &oddReader{r, b, 1 + r.Intn(5), r.Intn(2) == 0, nil}
			if len(b) > 100000 {
				rd = &oddReader{r, b, 300000, r.Intn(2) == 0, nil}
			}
		case 2:
			rd = &oddReader{r, b, 1 + max(cap, 1000)*2, r.Intn(2) == 0, nil}
		default:
			rd = onlyReader{bytes.NewReader(b)}
		}
		gr.Reader(rd, f.name)
	}
	o := out.String()
	return grun{Via: "lib", Cap: cap, Small: cap > 0, Out: runsOf(o), Matched: gr.Match, Matches: gr.Matches, Limited: gr.Limited,
		Stderr: trunc(errs.String(), 300),
		ok:     o == want.out && gr.Match == want.any && gr.Matches == want.matches && gr.Limited == want.limited}
}

func (g *gcase) emit(c *Ctx, runs []grun, sample bool) {
	sus := false
	for _, x := range runs {
		sus = sus || !x.ok
	}
	if sus {
		// those that differ first
		var bad, good []grun
		for _, x := range runs {
			if x.ok {
				good = append(good, x)
			} else {
				bad = append(bad, x)
			}
		}
		runs = append(bad, good...)[:min(len(runs), 3)]
	}
	if !sus && !sample {
		c.Screen(nil, false, false)
		return
	}
	e := g.event()
	e["kind"], e["runs"] = "search", runs
	c.Screen(e, sus, sample)
}

// event describes the search.
func (g *gcase) event() Event {
	tab := [][][2]int{}
	for _, l := range g.tab {
		tab = append(tab, rle(l))
	}
	files := []Event{}
	for _, f := range g.files {
		t := f.text
		if t == nil {
			t = [][2]int{}
		}
		files = append(files, Event{"name": runesOf(f.name), "text": t, "nl": f.nl})
	}
	e := Event{"re": g.re, "pat": trunc(g.pat, 1000), "orbits": orbitsOf(g.capTexts()...), "opts": g.o, "tab": tab,
		"caprun": g.caprun, "files": files}
	if g.fre != nil {
		var names []string
		for _, f := range g.files {
			names = append(names, f.name)
		}
		e["fre"] = g.fre
		e["fpat"] = trunc(g.fpat, 1000)
		e["forbits"] = orbitsOf(names...)
	}
	return e
}

func (g *gcase) capTexts() []string {
	var r []string
	for _, l := range g.tab {
		if len(l) > 4000 {
			var b strings.Builder
			for _, x := range rle(l) {
				b.WriteRune(rune(x[0]))
			}
			l = b.String()
		}
		r = append(r, l)
	}
	return r
}

func (c *Ctx) grepOpts(r *rand.Rand) gopts {
	o := gopts{N: r.Intn(2) == 0, H: r.Intn(3) == 0}
	ctx := func() {
		switch r.Intn(4) {
		case 0:
			o.Pre = 1 + r.Intn(4)
		case 1:
			o.Post = 1 + r.Intn(4)
		default:
			o.Pre, o.Post = r.Intn(4), 1+r.Intn(3)
		}
		if r.Intn(10) == 0 {
			o.Pre *= 5
		}
	}
	switch c.Prop {
	case "C13":
		ctx()
	case "C14":
		switch r.Intn(4) {
		case 0:
			o.C, o.H = true, false
		case 1:
			o.L, o.H = true, false
			if r.Intn(3) == 0 {
				o.Limit = 1 + r.Intn(3)
			}
		default:
			o.Limit = 1 + r.Intn(6)
			if r.Intn(4) == 0 {
				o.Limit = 0
			}
		}
		if r.Intn(4) == 0 {
			ctx()
		}
	}
	return o
}

func runGrep(c *Ctx, idx int) {
	r := c.Rng
	gen := c.GenCases()
	if idx < len(gen) {
		var g struct {
			Text           []int
			Cap, Pre, Post int
		}
		must(json.Unmarshal(gen[idx], &g))
		var b []byte
		for _, x := range g.Text {
			b = append(b, byte(x))
		}
		k := gcase{re: grp(lit('x'), 0, 1), pat: "(?m)x", caprun: 100, o: gopts{N: true, Pre: g.Pre, Post: g.Post}}
		f := gfile{name: "f", nl: len(b) == 0 || b[len(b)-1] == '\n'}
		s := string(b)
		if f.nl && s != "" {
			s = s[:len(s)-1]
		}
		if len(b) > 0 {
			for _, l := range strings.Split(s, "\n") {
				k.add(&f, l, 1)
			}
		}
		k.files = []gfile{f}
		if k.fits(f) > g.Cap {
			return // fits only because its last line has no newline
		}
		want := k.expect()
		cap := g.Cap
		if setGrepBuf == nil {
			cap = 0
		}
		runs := []grun{k.lib(r, cap, want), k.lib(r, cap, want)}
		c.Count("generated_texts", 1)
		k.emit(c, runs, idx%c.Pick(5, 12) == 0)
		return
	}
	idx -= len(gen)
	switch m := idx % 16; {
	case m < 9:
		c.grepSmall(idx)
	case m < 11:
		c.grepBig(idx)
	case m < 14:
		c.grepCmd(idx, "cgrep")
	default:
		c.grepCmd(idx, "csearch")
	}
}

// decorate adds blanks to lines.
func decorate(r *rand.Rand, s string) string {
	if r.Intn(3) == 0 {
		return s
	}
	s = []string{"", " ", "  ", "\t", "\t\t", " \t", "\t ", "    "}[r.Intn(8)] + s
	if r.Intn(3) == 0 {
		s += []string{" ", "\t", "\r", " \r", "\t  ", "\r\t"}[r.Intn(6)]
	}
	return s
}

// smallCase makes a search of a few short files.
func (c *Ctx) smallCase(r *rand.Rand, names []string, o gopts) *gcase {
	for {
		rc := genRe(r, 3, true, r.Intn(3) == 0, false)
		if r.Intn(3) == 0 {
			// simple ones, for which the layout matters
			n := []*Node{mk("caret"), mk("dollar"), mk("cat", mk("caret"), mk("dollar")), lit('a'), mk("empty"), lits("ab"), mk("eot"), mk("bot"),
				mk("cat", lit('a'), mk("eot")), mk("cat", mk("bot"), lit('a'))}[r.Intn(10)]
			fold := r.Intn(4) == 0
			rc = reCase{re: grp(n, boolInt(fold), 1), a: alphabets[r.Intn(4)], fold: fold, ml: true}
			rc.pat = "(?m)" + n.String()
			if fold {
				rc.pat = "(?i)" + rc.pat
			}
		}
		if o.hostile && r.Intn(3) == 0 {
			// literals with spaces and what means something in URLs, forms and markup
			s := ""
			for k := 1 + r.Intn(3); k > 0; k-- {
				s += []string{" ", "a", "  ", "+", "%", "&", "#", "=", ";", "%41", "?", "\t", "b", "<", "\"", "'", "a", "/", ":"}[r.Intn(19)]
			}
			switch r.Intn(4) {
			case 0:
				s = " " + s
			case 1:
				s += " "
			}
			n := lits(s)
			rc = reCase{re: grp(n, 0, 1), a: []rune("ab  +%&#"), ml: true}
			rc.pat = "(?m)" + n.String()
		}
		if o.empty {
			n := mk("empty")
			rc = reCase{re: grp(n, boolInt(rc.fold), 1), a: rc.a, fold: rc.fold, ml: true, pat: "(?m)"}
			if rc.fold {
				rc.pat = "(?i)(?m)"
			}
		}
		raw := strings.TrimPrefix(rc.pat, "(?i)")
		raw = strings.TrimPrefix(raw, "(?m)")
		g := &gcase{re: rc.re, pat: rc.pat, raw: raw, fold: rc.fold, o: o, caprun: 1000000}
		ok := true
		dec := r.Intn(2) == 0 || o.Pre+o.Post > 0
		for _, nm := range names {
			f := gfile{name: nm, nl: r.Intn(3) > 0}
			if r.Intn(10) > 0 {
				m := 1 + r.Intn(12)
				for k, l := range rc.textFor(r, m) {
					if dec {
						l = decorate(r, l)
					}
					if r.Intn(150) == 0 {
						l = rc.longer(r, l)
						c.Count("long_lines", 1)
					}
					n := 1
					if r.Intn(6) == 0 {
						n = 1 + r.Intn(4)
					}
					g.add(&f, l, n)
					ok = ok && rc.nwbOK(l)
					_ = k
				}
				if g.tab[f.text[len(f.text)-1][0]-1] == "" {
					f.nl = true
				}
			} else {
				f.nl = true
			}
			g.files = append(g.files, f)
		}
		if ok {
			return g
		}
	}
}

func (c *Ctx) grepSmall(idx int) {
	r := c.Rng
	names := []string{"f", "dir/é.go", "b c", "-"}[:1+r.Intn(4)]
	g := c.smallCase(r, names, c.grepOpts(r))
	want := g.expect()
	if want.any {
		c.Count("searches_with_matches", 1)
	}
	runs := []grun{g.lib(r, 0, want)}
	if setGrepBuf != nil {
		need := 1
		for _, f := range g.files {
			need = max(need, g.fits(f))
		}
		for _, d := range []int{0, r.Intn(4), r.Intn(need + 3), r.Intn(2*need + 30)} {
			runs = append(runs, g.lib(r, need+d, want))
			c.Count("small_buffers", 1)
		}
	}
	if want.limited {
		c.Count("limited", 1)
	}
	g.emit(c, runs, idx%c.Pick(5, 12) == 0)
}

// grepBig searches texts larger than the buffer as it is.
func (c *Ctx) grepBig(idx int) {
	r := c.Rng
	o := c.grepOpts(r)
	lits3 := []string{"ndl", "x", "ab", "Q"}
	w := lits3[r.Intn(4)]
	n := []*Node{lits(w), mk("cat", mk("caret"), lits(w)), mk("cat", lits(w), mk("dollar")), mk("alt", lits(w), mk("cat", lits("end"), mk("eot"))),
		mk("alt", mk("cat", mk("bot"), lits("beg")), lits(w)), mk("cat", lits(w), mk("dollar"))}[r.Intn(6)]
	fold := r.Intn(3) == 0
	g := &gcase{re: grp(n, boolInt(fold), 1), pat: "(?m)" + n.String(), fold: fold, o: o, caprun: 12}
	g.raw = n.String()
	if fold {
		g.pat = "(?i)" + g.pat
	}
	fill := []string{"", "z", "  filler of some length\t", strings.Repeat("é", 300), strings.Repeat("-", 99), strings.Repeat("=", 5000), "ba ba"}
	special := []string{w, "  " + w, w + " ", "\t" + w + w, "z" + w + "z", strings.ToUpper(w), "beg", "end", " " + w + strings.Repeat("y", 900), strings.Repeat("y", 900) + w}
	const B = 1 << 20
	for k := 1 + r.Intn(2); k > 0; k-- {
		f := gfile{name: fmt.Sprintf("big%d", k), nl: r.Intn(2) == 0}
		size := 0
		add := func(s string, n int) {
			if n > 0 {
				g.add(&f, s, n)
				size += (len(s) + 1) * n
			}
		}
		cluster := func() {
			for j := 1 + r.Intn(12); j > 0; j-- {
				if r.Intn(2) == 0 {
					add(special[r.Intn(len(special))], 1)
				} else {
					add(fill[r.Intn(len(fill))], 1+r.Intn(2))
				}
			}
		}
		if r.Intn(2) == 0 {
			cluster()
		}
		long := r.Intn(3) == 0
		next := B
		for size < 2*B+B/2 {
			if long {
				// lines that nearly fill the buffer
				m := []int{B, B - 1, B / 2, B/2 + 1, 600000, 900000, B - 30, 350000}[r.Intn(8)]
				m = max(3, m/(1+o.Pre+o.Post)-boolInt(o.Pre+o.Post > 0)*2)
				l := strings.Repeat([]string{"m", "é", "y"}[r.Intn(3)], m)[:m]
				l = strings.ToValidUTF8(l, "e")
				switch r.Intn(4) {
				case 0:
					l = w + l[len(w)+1:] // one byte less, for the newline
				case 1:
					l = strings.ToValidUTF8(l[:len(l)-len(w)-1], "") + w
				default:
					l = strings.ToValidUTF8(l[:len(l)-1], "")
				}
				add(l, 1)
				if r.Intn(2) == 0 {
					add([]string{"", "z", w, "tail"}[r.Intn(4)], 1)
				}
				continue
			}
			// up to shortly before the next multiple of the buffer size
			fl := fill[r.Intn(len(fill))]
			room := next - size - r.Intn(400)
			add(fl, room/(len(fl)+1))
			if d := next - size; d > 2 && d < 100000 && r.Intn(2) == 0 {
				// exactly
				add(strings.Repeat("p", max(0, d-r.Intn(3))), 1)
			}
			cluster()
			if r.Intn(2) == 0 {
				cluster()
			}
			next += B
		}
		if r.Intn(2) == 0 {
			add(special[r.Intn(len(special))], 1)
		}
		if g.tab[f.text[len(f.text)-1][0]-1] == "" {
			f.nl = true
		}
		g.files = append(g.files, f)
	}
	for _, f := range g.files {
		if g.fits(f) > B {
			c.Count("big_skipped", 1)
			return
		}
	}
	want := g.expect()
	if want.matchLineCount > 2000 {
		c.Count("big_skipped", 1)
		return
	}
	c.Count("big_texts", 1)
	runs := []grun{g.lib(r, 0, want), g.lib(r, 0, want)}
	if idx%32 == 9 && g.o.Limit == 0 {
		runs = append(runs, g.command(c, "cgrep", want))
	}
	g.emit(c, runs, idx%c.Pick(40, 160) < 2)
}

// flags returns the command line flags for g's options.
func (g *gcase) flags(r *rand.Rand) []string {
	var a []string
	flag := func(b bool, s string) {
		if b {
			a = append(a, s)
		}
	}
	flag(g.fold, "-i")
	flag(g.o.N, "-n")
	flag(g.o.H, "-h")
	flag(g.o.C, "-c")
	flag(g.o.L, "-l")
	if g.o.Pre == g.o.Post && g.o.Pre > 0 && r.Intn(2) == 0 {
		a = append(a, "-C", fmt.Sprint(g.o.Pre))
	} else {
		if g.o.Pre > 0 {
			a = append(a, "-B", fmt.Sprint(g.o.Pre))
		}
		if g.o.Post > 0 {
			a = append(a, "-A", fmt.Sprint(g.o.Post))
		}
	}
	return a
}

// fewFiles in the environment of a command lets it have only a few files open at a time.
const fewFiles = "VERIF_FEW_FILES=1"

// execute runs a command of the code under test.
func execute(c *Ctx, dir string, stdin []byte, env []string, name string, args ...string) (string, string, int) {
	cmd := exec.Command(filepath.Join(c.Bin, name), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	if slices.Contains(env, fewFiles) {
		limitFiles(cmd, 40)
	}
	var out bytes.Buffer
	var errs tailWriter
	cmd.Stdout, cmd.Stderr = &out, &errs
	must(cmd.Start())
	t := time.AfterFunc(patience(), func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		didHang()
		return out.String(), "no end within a minute", -2
	}
	code := 0
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			must(err)
		}
		code = ee.ExitCode()
	}
	return out.String(), errs.tail(500), code
}

// command runs cgrep or csearch on g's files, which are written to a directory first.
func (g *gcase) command(c *Ctx, name string, want gresult) grun {
	r := c.Rng
	dir := c.Tmp("dir")
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	args := g.flags(r)
	var stdin []byte
	var env []string
	args = append(args, "--", g.raw)
	if name == "cgrep" {
		if len(g.files) == 1 && g.files[0].name == "<standard input>" {
			stdin = append([]byte{}, g.bytes(g.files[0])...)
		} else {
			for _, f := range g.files {
				if r.Intn(8) == 0 {
					args = append(args, "missing file")
				}
				p := filepath.Join(dir, f.name)
				must(os.MkdirAll(filepath.Dir(p), 0755))
				must(os.WriteFile(p, g.bytes(f), 0644))
				args = append(args, f.name)
			}
		}
	} else {
		if g.fre != nil {
			args = append([]string{"-f", g.fpat}, args...)
		}
		var fs []file
		for k := range g.files {
			f := &g.files[k]
			f.name = dir + "/" + f.name
			fs = append(fs, file{f.name, g.bytes(*f)})
		}
		writeFiles(fs)
		ix := c.Tmp("ix")
		defer os.Remove(ix)
		build(ix, []string{dir}, fs, buildOpt{})
		env = []string{"CSEARCHINDEX=" + ix}
		want = g.expect() // the names have changed
	}
	out, errs, code := execute(c, dir, stdin, env, name, args...)
	c.Count(name+"_runs", 1)
	return grun{Via: "cmd", Out: runsOf(out), Exit: code, Stderr: trunc(errs, 300), ok: out == want.out && code == 1-boolInt(want.any)}
}

func (c *Ctx) grepCmd(idx int, name string) {
	r := c.Rng
	o := c.grepOpts(r)
	o.Limit = 0
	pool := []string{"a", "a.txt", "a b", "b/c", "b/é", "b.go", "z"}
	var names []string
	for _, n := range pool {
		if r.Intn(2) == 0 {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		names = []string{"a"}
	}
	names = sortUnique(names)
	if name == "cgrep" && r.Intn(4) == 0 {
		names = []string{"<standard input>"}
	} else if name == "cgrep" {
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	}
	o.empty = name == "csearch" && o.L && r.Intn(5) == 0
	for {
		g := c.smallCase(r, names, o)
		if strings.Contains(g.raw, "\x00") {
			continue
		}
		ok := true
		if name == "csearch" {
			for _, f := range g.files {
				ok = ok && eligible(g.bytes(f)) == 1
				if g.raw == "" && o.L {
					// Empty files are listed as well, without a line that matches.
					ok = ok && len(g.bytes(f)) > 0
				}
			}
		}
		if !ok {
			continue
		}
		want := g.expect()
		if want.any {
			c.Count("commands_with_matches", 1)
		}
		run := g.command(c, name, want)
		if name == "csearch" && g.raw == "" && o.L {
			c.Count("empty_pattern_lists", 1)
		}
		g.emit(c, []grun{run}, idx%c.Pick(5, 12) == 0)
		return
	}
}

// writeFiles puts files and archives where their names say.
func writeFiles(fs []file) {
	for k := 0; k < len(fs); k++ {
		arch, _, ok := strings.Cut(fs[k].name, "\x01")
		must(os.MkdirAll(filepath.Dir(arch), 0755))
		if !ok {
			must(os.WriteFile(arch, fs[k].data, 0644))
			continue
		}
		j := k
		for j < len(fs) && strings.HasPrefix(fs[j].name, arch+"\x01") {
			j++
		}
		zipFile(arch, arch+"\x01", fs[k:j]).Close()
		k = j - 1
	}
}

func init() {
	props["C19"] = &Prop{N: func(c *Ctx) int { return c.Pick(960, 9600) }, Run: runC19, Net: true}
}

// nameFor makes a file name that the filter may match.
func nameFor(r *rand.Rand, rc reCase) string {
	b := 12
	s := ""
	switch r.Intn(4) {
	case 0:
		s = noise(r, rc.a, 6)
	case 1:
		s = rc.re.sample(r, rc.a, rc.fold, &b)
	default:
		s = noise(r, rc.a, 3) + rc.re.sample(r, rc.a, rc.fold, &b) + noise(r, rc.a, 3)
	}
	s = strings.Map(func(x rune) rune {
		if x < ' ' || x == utf8.RuneError {
			return 'c'
		}
		return x
	}, s)
	for len(s) > 100 {
		s = string([]rune(s)[:len([]rune(s))/2])
	}
	var parts []string
	for _, p := range strings.Split(s, "/") {
		if p != "" && p != "." && p != ".." {
			parts = append(parts, p)
		}
	}
	if len(parts) > 4 {
		parts = parts[:4]
	}
	return strings.Join(parts, "/")
}

// someFilter makes a filter and file names; no name is a directory of another.
func (c *Ctx) someFilter(r *rand.Rand, dir string, max int) (rc reCase, names []string) {
	for {
		rc = genRe(r, 2, false, true, r.Intn(2) == 0)
		if r.Intn(4) == 0 {
			n := []*Node{mk("cat", lits(".go"), mk("dollar")), mk("cat", mk("caret"), lit('/')), lits("/a"), mk("cat", mk("caret"), lit('a')), mk("cat", lits("b"), mk("eot")),
				lits("zip"), mk("cat", lit('p'), mk("any"), lit('a')), mk("empty"), mk("cat", mk("bot"), mk("dollar"))}[r.Intn(9)]
			fold := r.Intn(3) == 0
			rc = reCase{re: grp(n, boolInt(fold), 0), pat: n.String(), a: []rune("ab.goz/A"), fold: fold}
			if fold {
				rc.pat = "(?i)" + rc.pat
			}
		}
		if rc.pat == "" || strings.Contains(rc.pat, "\x00") {
			continue
		}
		seen := map[string]bool{}
		names = nil
		if r.Intn(6) == 0 {
			// names and filters that look as if they were to be decoded
			t := []string{"%62c", "a+b", "%2B", "a&b", "f=y", "a;b", "%25", "q#r", "a b", "&lt;", "%zz", "a?b", "%", "\"b"}
			x := t[r.Intn(len(t))]
			d, _ := url.QueryUnescape(x)
			fold := r.Intn(4) == 0
			n := lits(x)
			rc = reCase{re: grp(n, boolInt(fold), 0), pat: n.String(), a: []rune("ab%+& "), fold: fold}
			if fold {
				rc.pat = "(?i)" + rc.pat
			}
			names = append(names, "a"+x, "a"+html.UnescapeString(d), t[r.Intn(len(t))])
		}
		for k := 2 + r.Intn(max); k > 0; k-- {
			n := nameFor(r, rc)
			if r.Intn(6) == 0 {
				n = strings.TrimPrefix(somePath(r, 2), "/")
				if !utf8.ValidString(n) {
					continue
				}
			}
			if n == "" {
				continue
			}
			if r.Intn(8) == 0 {
				n += ".zip"
				for j := 1 + r.Intn(3); j > 0; j-- {
					if e := nameFor(r, rc); e != "" {
						names = append(names, n+"\x01"+e)
					}
				}
				continue
			}
			names = append(names, n)
		}
		var ok []string
		for _, n := range sortUnique(names) {
			arch, _, zip := strings.Cut(n, "\x01")
			bad := strings.HasSuffix(arch, ".zip") != zip || !rc.nwbOK(dir+"/"+n) || len(n) > 200
			for p := arch; strings.Contains(p, "/"); {
				p = p[:strings.LastIndexByte(p, '/')]
				bad = bad || seen[p] || strings.HasSuffix(p, ".zip")
			}
			for s := range seen {
				bad = bad || strings.HasPrefix(s, arch+"/")
			}
			if bad {
				continue
			}
			seen[arch] = true
			ok = append(ok, n)
		}
		names = ok
		if len(names) > 0 {
			return rc, names
		}
	}
}

func runC19(c *Ctx, idx int) {
	r := c.Rng
	o := gopts{N: r.Intn(2) == 0, L: r.Intn(3) == 0, C: r.Intn(6) == 0, H: false}
	if o.L {
		o.C = false
	}
	for {
		f, names := c.someFilter(r, c.Scratch, 10)
		var full []string
		full = append(full, names...)
		g := c.smallCase(r, full, o)
		g.fre, g.fpat = f.re, f.pat
		ok := g.raw != "" && !strings.Contains(g.raw, "\x00")
		for _, x := range g.files {
			ok = ok && eligible(g.bytes(x)) == 1
		}
		if !ok {
			continue
		}
		var run grun
		web := idx%3 == 2
		if web {
			dir := c.Tmp("dir")
			must(os.MkdirAll(dir, 0755))
			defer os.RemoveAll(dir)
			c.webFiles(g, dir)
			c.webSearch(g, idx%c.Pick(5, 12) == 0)
		} else {
			run = g.command(c, "csearch", g.expect())
		}
		want := g.expect()
		all := 0
		for _, x := range g.files {
			if g.chosen(x.name) {
				all++
			}
		}
		c.Count("files", len(g.files))
		c.Count("files_chosen", all)
		if want.any {
			c.Count("searches_with_matches", 1)
		}
		if !web {
			g.emit(c, []grun{run}, true)
		}
		return
	}
}
