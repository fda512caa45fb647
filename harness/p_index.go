package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strings"

	"github.com/google/codesearch/index"
)

func init() {
	props["C03"] = &Prop{N: func(c *Ctx) int { return c.Pick(800, 5000) }, Run: runC03}
	props["C04"] = &Prop{N: func(c *Ctx) int { return c.Pick(640, 6400) }, Run: runC04}
	props["C05"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(320, 4000) }, Run: runC05}
	props["C06"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(500, 6000) }, Run: runC06}
	props["C15"] = &Prop{N: func(c *Ctx) int { return c.Pick(320, 4000) }, Run: runC15}
	props["C20"] = &Prop{N: func(c *Ctx) int { return c.Pick(320, 4000) }, Run: runC20}
}

// ---- C03

func (c *Ctx) smallCorpus(n int) []file {
	r := c.Rng
	var names []string
	for k := 0; k < n; k++ {
		names = append(names, somePath(r, 3))
	}
	var fs []file
	for _, nm := range sortUnique(names) {
		fs = append(fs, file{nm, text(r, 30)})
	}
	return fs
}

func triString(t int) string { return string([]byte{byte(t >> 16), byte(t >> 8), byte(t)}) }

// randomQuery makes a query tree over the trigrams pool.
func randomQuery(r *rand.Rand, pool []int, depth int) *index.Query {
	k := r.Intn(12)
	if depth == 0 && k >= 10 {
		k = r.Intn(2)
	}
	switch {
	case k == 0:
		return &index.Query{Op: index.QAll}
	case k == 1:
		return &index.Query{Op: index.QNone}
	}
	q := &index.Query{Op: index.QAnd}
	if r.Intn(2) == 0 {
		q.Op = index.QOr
	}
	for j := r.Intn(4); j > 0; j-- {
		q.Trigram = append(q.Trigram, triString(pool[r.Intn(len(pool))]))
	}
	if r.Intn(2) == 0 {
		sort.Strings(q.Trigram)
		q.Trigram = slices.Compact(q.Trigram)
	}
	if depth > 0 {
		for j := r.Intn(4); j > 0; j-- {
			q.Sub = append(q.Sub, randomQuery(r, pool, depth-1))
		}
	}
	if len(q.Trigram)+len(q.Sub) == 0 {
		q.Trigram = []string{triString(pool[r.Intn(len(pool))])}
	}
	return q
}

// denseQuery makes a query tree that is mostly inner nodes, over few trigrams, so that the sets of files at
// its nodes overlap in all ways (and lists are narrowed and passed on often).
func denseQuery(r *rand.Rand, pool []int, depth int) *index.Query {
	if depth == 0 || r.Intn(8) == 0 {
		switch r.Intn(9) {
		case 0, 1, 2:
			return &index.Query{Op: index.QAll}
		case 3:
			return &index.Query{Op: index.QNone}
		}
	}
	q := &index.Query{Op: index.QAnd}
	if r.Intn(2) == 0 {
		q.Op = index.QOr
	}
	for j := [...]int{0, 0, 1, 1, 1, 2, 3}[r.Intn(7)]; j > 0; j-- {
		q.Trigram = append(q.Trigram, triString(pool[r.Intn(len(pool))]))
	}
	if depth > 0 {
		for j := [...]int{0, 1, 1, 2, 2, 2, 3}[r.Intn(7)]; j > 0; j-- {
			q.Sub = append(q.Sub, denseQuery(r, pool, depth-1))
		}
	}
	if len(q.Trigram)+len(q.Sub) == 0 {
		q.Trigram = []string{triString(pool[r.Intn(len(pool))])}
	}
	return q
}

// evalAbs evaluates a query on the driver's model, for screening.
func evalAbs(q *index.Query, f absFile) bool {
	has := func(t string) bool { return f.tri[int(t[0])<<16|int(t[1])<<8|int(t[2])] }
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	}
	and := q.Op == index.QAnd
	for _, t := range q.Trigram {
		if has(t) != and {
			return !and
		}
	}
	for _, s := range q.Sub {
		if evalAbs(s, f) != and {
			return !and
		}
	}
	return and
}

func (a *absIndex) ids(ok func(f absFile) bool) []int {
	r := []int{}
	for i, f := range a.files {
		if ok(f) {
			r = append(r, i)
		}
	}
	return r
}

// triPool: trigrams of the files, and others.
func triPool(r *rand.Rand, a *absIndex) []int {
	var pool []int
	all := sortedKeys(a.tris())
	for k := 0; k < 14 && len(all) > 0; k++ {
		pool = append(pool, all[r.Intn(len(all))])
	}
	// common ones, so that sets overlap
	cnt := map[int]int{}
	for _, f := range a.files {
		for t := range f.tri {
			cnt[t]++
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return cnt[all[i]] > cnt[all[j]] })
	for k := 0; k < 6 && k < len(all); k++ {
		pool = append(pool, all[k])
	}
	pool = append(pool, 1, 0xffffff, 0x616161, r.Intn(1<<24), pool2(all, r))
	return pool
}

func pool2(all []int, r *rand.Rand) int {
	if len(all) == 0 {
		return 0x7a7a7a
	}
	return (all[r.Intn(len(all))] + 1) & 0xffffff
}

// absJSON gives the files' trigrams restricted to those in use.
func absJSON(a *absIndex, pool []int) map[string]any {
	fs := []any{}
	in := map[int]bool{}
	for _, t := range pool {
		in[t] = true
	}
	for _, f := range a.files {
		tri := []int{}
		for _, t := range sortedKeys(f.tri) {
			if in[t] {
				tri = append(tri, t)
			}
		}
		fs = append(fs, map[string]any{"name": bytesOf(f.name), "tri": tri})
	}
	return map[string]any{"roots": pathsJSON(a.roots), "files": fs}
}

// queries runs random queries and list operations on a real index and returns them with their results.
func queries(r *rand.Rand, ix *index.Index, a *absIndex, pool []int, n int) (out []map[string]any, sus bool) {
	return queriesOf(r, ix, a, pool, n, randomQuery)
}

func queriesOf(r *rand.Rand, ix *index.Index, a *absIndex, pool []int, n int, query func(*rand.Rand, []int, int) *index.Query) (out []map[string]any, sus bool) {
	for k := 0; k < n; k++ {
		switch r.Intn(6) {
		case 0:
			t := pool[r.Intn(len(pool))]
			got := ix.PostingList(uint32(t))
			sus = sus || !sameInts(got, a.ids(func(f absFile) bool { return f.tri[t] }))
			out = append(out, map[string]any{"op": "list", "t": t, "arg": []int{}, "q": nullQuery, "got": append([]int{}, got...)})
		case 1, 2:
			t := pool[r.Intn(len(pool))]
			l := a.ids(func(f absFile) bool { return r.Intn(2) == 0 })
			if r.Intn(4) == 0 {
				l = a.ids(func(f absFile) bool { return true })
			}
			arg := append([]int{}, l...)
			in := map[int]bool{}
			for _, i := range arg {
				in[i] = true
			}
			var got []int
			op := "and"
			i := -1
			want := func(f absFile) bool { i++; return in[i] && f.tri[t] }
			if r.Intn(2) == 0 {
				op = "or"
				want = func(f absFile) bool { i++; return in[i] || f.tri[t] }
				got = ix.PostingOr(l, uint32(t))
			} else {
				got = ix.PostingAnd(l, uint32(t))
			}
			sus = sus || !sameInts(got, a.ids(want))
			out = append(out, map[string]any{"op": op, "t": t, "arg": arg, "q": nullQuery, "got": append([]int{}, got...)})
		default:
			q := query(r, pool, r.Intn(4))
			qj := queryJSON(q)
			got := ix.PostingQuery(q)
			sus = sus || !sameInts(got, a.ids(func(f absFile) bool { return evalAbs(q, f) }))
			out = append(out, map[string]any{"op": "query", "t": 0, "arg": []int{}, "q": qj, "got": append([]int{}, got...)})
		}
	}
	return
}

var nullQuery = map[string]any{"op": "none", "tri": []int{}, "sub": []int{}}

func runC03(c *Ctx, idx int) {
	if idx%200 == 57 {
		c.crowd(c.Rng.Intn(2), false, buildOpt{})
		return
	}
	r := c.Rng
	n := 1 + r.Intn(40)
	if idx%50 == 7 {
		n = 600
	}
	fs := c.smallCorpus(n)
	if idx%50 == 9 {
		fs = nil
	}
	dense := idx%2 == 0
	if dense {
		// few trigrams, each in about half of the files
		fs = nil
		for k := 1 + r.Intn(10); k > 0; k-- {
			f := file{name: fmt.Sprintf("/d/f%02d", 20-k)}
			for _, w := range []string{"abc", "def", "ghi", "jkl"} {
				if r.Intn(2) == 0 {
					f.data = append(f.data, w+" "...)
				}
			}
			fs = append(fs, f)
		}
	}
	a := expected([]string{"/"}, fs, nil)
	p := c.Tmp("ix")
	if idx%7 == 3 && len(fs) > 3 {
		// an index made by a merge
		h := len(fs) / 2
		p1, p2 := c.Tmp("a"), c.Tmp("b")
		var r1, r2 []string
		for _, f := range fs[:h] {
			r1 = append(r1, f.name)
		}
		for _, f := range fs[h:] {
			r2 = append(r2, f.name)
		}
		r1, r2 = outermost(r1), outermost(r2)
		build(p1, r1, fs[:h], buildOpt{})
		build(p2, r2, fs[h:], buildOpt{})
		index.Merge(p, p1, p2)
		x, y := expected(r1, fs[:h], nil), expected(r2, fs[h:], nil)
		a = mergeAbs(x, y)
		removeAll(p1, p2)
	} else {
		build(p, a.roots, fs, buildOpt{})
	}
	defer removeAll(p)
	ix := index.Open(p)
	pool := triPool(r, a)
	gen, rounds := randomQuery, 60
	if dense {
		rounds = 400
		pool = []int{0x616263, 0x646566, 0x676869, 0x6a6b6c, 0x7a7a7a}[:2+r.Intn(4)]
		gen = denseQuery
	}
	for k := 0; k < rounds; k++ {
		qs, sus := queriesOf(r, ix, a, pool, 10, gen)
		if dense {
			c.Count("dense_queries", len(qs))
		}
		c.Count("queries", len(qs))
		c.Screen(Event{"kind": "queries", "ix": absJSON(a, pool), "ops": qs}, sus, k == 0 || k == 1 && n < 100)
	}
}

// ---- C04

// someNames makes n names under /r, in path order.
func someNames(r *rand.Rand, n int) []string {
	var names []string
	switch r.Intn(4) {
	case 0:
		for k := 0; k < n; k++ {
			names = append(names, somePath(r, 4))
		}
	case 1: // long shared prefixes
		m := 80
		if n > 200 {
			m = 12
		}
		base := "/r/" + strings.Repeat(component(r), 1+r.Intn(m))
		if r.Intn(5) == 0 {
			// prefixes around a power of two
			m, n = 3, min(n, 20)
			w := 1 << (7 + r.Intn(4))
			if n <= 3 || r.Intn(8) == 0 {
				w, n = 1<<(11+r.Intn(4)), min(n, 3)
			}
			base = "/r/" + strings.Repeat("long/", w/5+10)
			base = base[:w+r.Intn(min(w/2, 40))]
			base = strings.TrimRight(base, "/")
		}
		for k := 0; k < n; k++ {
			s := base[:len(base)-r.Intn(min(len(base)-3, 20))]
			names = append(names, s+"/"+strings.Repeat(component(r), r.Intn(m))+fmt.Sprint(r.Intn(50)))
		}
	case 2: // dense
		for k := 0; k < n; k++ {
			names = append(names, fmt.Sprintf("/r/d%d/f%02d", r.Intn(3), r.Intn(2*n)))
		}
	default:
		for k := 0; k < n; k++ {
			s := somePath(r, 3)
			if r.Intn(3) == 0 && k < 100 {
				s += strings.Repeat("x", 100+r.Intn(60))
			}
			if r.Intn(40) == 0 && k < 50 {
				s += strings.Repeat("y", 16300+r.Intn(200))
			}
			names = append(names, s)
		}
	}
	var ok []string
	for _, s := range names {
		if validName(s) {
			ok = append(ok, s)
		}
	}
	return sortUnique(ok)
}

// badText makes a content that must not be indexed.
func badText(r *rand.Rand) []byte {
	b := text(r, 30)
	switch r.Intn(6) {
	case 0:
		return append(b, 0)
	case 1:
		return append(append(b, "ab"...), 0x80)
	case 2:
		return append(b, 0xff)
	case 3:
		return append(append(b, 0xc3), 'x')
	case 4:
		return append(b, bytes.Repeat([]byte("l"), 2001)...)
	default:
		return append([]byte{0}, b...)
	}
}

// emitIndex judges an index made of files, or only a slice of it if it is too large to be written out.
func (c *Ctx) emitIndex(kind string, roots []string, fs []file, failing map[int]bool, a *absIndex, ob *observed, sample bool) {
	sus := !ob.sameAs(a)
	size := 0
	for _, f := range fs {
		size += len(f.data) + len(f.name)
	}
	for _, p := range ob.Posts {
		size += len(p.IDs)
	}
	if !sus && !sample {
		c.Screen(nil, false, false)
		return
	}
	ct := newContents()
	if size < 60000 {
		e := Event{"kind": kind, "roots": pathsJSON(roots), "files": ct.files(fs, failing), "got": ob}
		e["contents"] = ct.list
		c.Screen(e, sus, sample)
		return
	}
	c.emitSlice(kind, a, ob, sus, sample)
}

func (c *Ctx) emitSlice(kind string, a *absIndex, ob *observed, sus, sample bool) {
	r := c.Rng
	var pick []int
	// trigrams that look wrong first
	in := map[int]bool{}
	seen := map[int][]int{}
	for _, p := range ob.Posts {
		seen[p.T] = p.IDs
	}
	want := map[int][]int{}
	for i, f := range a.files {
		for t := range f.tri {
			want[t] = append(want[t], i)
		}
	}
	for t := range want {
		if !sameInts(want[t], seen[t]) {
			pick = append(pick, t)
		}
	}
	for t := range seen {
		if len(want[t]) == 0 && len(seen[t]) > 0 {
			pick = append(pick, t)
		}
	}
	sort.Ints(pick)
	pick = pick[:min(len(pick), 5)]
	all := sortedKeys(a.tris())
	budget := 60000
	for k := 0; k < 60 && len(all) > 0 && budget > 0; k++ {
		t := all[r.Intn(len(all))]
		pick = append(pick, t)
		budget -= len(want[t])
	}
	for _, t := range pick {
		in[t] = true
	}
	posts := []obPost{}
	for _, p := range ob.Posts {
		if in[p.T] {
			posts = append(posts, p)
		}
	}
	c.Screen(Event{"kind": kind + "-slice", "ix": absJSON(a, pick), "trigrams": sortedKeys(in),
		"got": map[string]any{"roots": ob.Roots, "names": ob.Names, "posts": posts}}, sus, sample)
}

func someRoots(r *rand.Rand, names []string) []string {
	var roots []string
	for k := r.Intn(5); k > 0; k-- {
		s := somePath(r, 2)
		if len(names) > 0 && r.Intn(2) == 0 {
			s = names[r.Intn(len(names))]
		}
		roots = append(roots, s)
	}
	return outermost(roots)
}

func runC04(c *Ctx, idx int) {
	if idx%320 == 101 {
		c.crowd(0, false, buildOpt{})
		return
	}
	r := c.Rng
	o := buildOpt{readers: r, failing: map[int]bool{}}
	var fs []file
	n := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 48}[r.Intn(10)]
	if r.Intn(2) == 0 {
		n = r.Intn(70)
	}
	fam := idx % 16
	switch fam {
	case 0: // many files, few contents
		n = c.Pick(500+r.Intn(1500), 700+r.Intn(3000))
		var cl [][]byte
		for k := 2 + r.Intn(6); k > 0; k-- {
			cl = append(cl, text(r, 20))
		}
		for k, nm := range someNames(r, n) {
			x := cl[r.Intn(len(cl))]
			if r.Intn(2) == 0 {
				x = cl[k*len(cl)/n%len(cl)]
			}
			fs = append(fs, file{nm, x})
		}
		o.readers = nil
	case 1: // large files, many trigrams
		for _, nm := range someNames(r, 3+r.Intn(6)) {
			var b []byte
			switch r.Intn(3) {
			case 0: // longer than the reader's buffer
				b = bytes.Repeat(append(text(r, 60), '\n'), 1)
				b = bytes.Repeat(b, (1<<20)/max(1, len(b))+r.Intn(3))
				b = append(b, text(r, 40)...)
			case 1: // many distinct trigrams
				m := 3000 + r.Intn(12000)
				for k := 0; k < m; k++ {
					b = append(b, byte(' '+r.Intn(95)))
					if k%1000 == 999 {
						b = append(b, '\n')
					}
				}
			default:
				b = text(r, 200)
			}
			fs = append(fs, file{nm, b})
		}
	case 2: // gaps of all sizes between the files that contain something
		n = 200 + r.Intn(400)
		mark := []byte("#mark\n")
		next := 0
		for k, nm := range someNames(r, n) {
			d := []byte("plain\n")
			if k >= next {
				d = mark
				next = k + []int{1, 1, 2, 3, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129}[r.Intn(18)]
			}
			fs = append(fs, file{nm, d})
		}
	default:
		for _, nm := range someNames(r, n) {
			d := text(r, 60)
			switch {
			case r.Intn(8) == 0:
				d = badText(r)
			case r.Intn(8) == 0:
				d = d[:min(len(d), r.Intn(4))]
				if eligible(d) < 0 {
					d = nil
				}
			}
			if r.Intn(14) == 0 {
				nm = "/r/bad\x02name" + nm
			}
			if r.Intn(14) == 0 {
				o.failing[len(fs)] = true
			}
			fs = append(fs, file{nm, d})
		}
	}
	var names []string
	for _, f := range fs {
		names = append(names, f.name)
	}
	roots := someRoots(r, names)
	p := c.Tmp("ix")
	build(p, roots, fs, o)
	defer removeAll(p)
	a := expected(roots, fs, o.failing)
	tris := a.tris()
	// also what the skipped files contain
	for k, f := range fs {
		if (o.failing[k] || eligible(f.data) != 1) && len(f.data) < 4000 {
			for t := range trigramsOf(f.data) {
				tris[t] = true
			}
		}
	}
	ix, ob := readBack(p, tris, r)
	if fam == 3 && idx%c.Pick(128, 256) == 3 {
		// every three-byte sequence there is
		ob.Posts = []obPost{}
		for t := 0; t < 1<<24; t++ {
			if ids := ix.PostingList(uint32(t)); len(ids) > 0 {
				ob.Posts = append(ob.Posts, obPost{t, ids})
			}
		}
		c.Count("full_enumerations", 1)
	}
	c.Count("files", len(fs))
	c.emitIndex("build", roots, fs, o.failing, a, ob, fam > 1 && idx%c.Pick(3, 12) != 1 || idx%c.Pick(64, 256) == 0 || idx%c.Pick(32, 128) == 1)
}

// ---- C05

func runC05(c *Ctx, idx int) {
	r := c.Rng
	p := c.Tmp("ix")
	defer removeAll(p)
	if gen := c.GenCases(); idx < len(gen) {
		// A schedule made by TLC from ExtSort.tla: the files' trigrams, and when to spill.
		var g struct {
			Files []struct{ Lo, Hi int } `json:"files"`
			Cap   int                    `json:"cap"`
			Flush []int                  `json:"flush"` // files after which to spill explicitly
		}
		must(json.Unmarshal(gen[idx], &g))
		// Trigram i of the model is letters i, i+1, i+2 of this text, in the order of the model's Rank.
		letters := ""
		for i := 1; i <= 10; i++ {
			letters += string(rune('a' + (i*7+3)%11))
		}
		letters += "xy"
		var fs []file
		for k, f := range g.Files {
			var b []byte
			if f.Hi >= f.Lo {
				b = []byte(letters[f.Lo-1 : f.Hi+2])
			}
			fs = append(fs, file{fmt.Sprintf("/r/f%d", k), b})
		}
		fl := map[int]bool{}
		for _, k := range g.Flush {
			fl[k] = true
		}
		build(p, []string{"/r"}, fs, buildOpt{cap: g.Cap, flush: func(k int) bool { return fl[k+1] }})
		c.Count("model_files", len(fs))
		c.Count("model_spills", len(fl))
		a := expected([]string{"/r"}, fs, nil)
		_, ob := readBack(p, a.tris(), r)
		c.Count("generated_schedules", 1)
		c.emitIndex("build", a.roots, fs, nil, a, ob, true)
		return
	}
	idx -= len(c.GenCases())
	if idx < c.Pick(1, 3) {
		c.naturalSpill(p)
		return
	}
	if idx%160 == 57 {
		c.crowd(0, false, buildOpt{cap: 20000 + c.Rng.Intn(40000)})
		return
	}
	n := 1 + r.Intn(30)
	if r.Intn(10) == 0 {
		n = 300
	}
	var fs []file
	m := 10 + r.Intn(200)
	for _, nm := range someNames(r, n) {
		fs = append(fs, file{nm, text(r, m)})
	}
	a := expected([]string{"/r"}, fs, nil)
	total := 0
	for _, f := range a.files {
		total += len(f.tri)
	}
	var o buildOpt
	o.cap = 1 + r.Intn(40)
	switch r.Intn(4) {
	case 0:
		o.cap = 1 + r.Intn(3)
	case 1:
		o.cap = 1 + r.Intn(total+2)
	case 2:
		o.cap = max(1, total/(1+r.Intn(5))+r.Intn(3)-1)
	}
	if r.Intn(3) == 0 {
		k := 1 + r.Intn(4)
		o.flush = func(int) bool { return r.Intn(k) == 0 }
	}
	build(p, a.roots, fs, o)
	_, ob := readBack(p, a.tris(), r)
	c.Count("spilled_builds", 1)
	c.emitIndex("build", a.roots, fs, nil, a, ob, idx%c.Pick(2, 10) == 0)
}

// naturalSpill adds enough postings for the writer to spill by itself, in the middle of a file.
func (c *Ctx) naturalSpill(p string) {
	r := c.Rng
	// 8 Mi postings are needed: 19 contents of about 18000 trigrams each, used by 480 files.
	var cl [][]byte
	for k := 0; k < 19; k++ {
		var b []byte
		for len(b) < 20000 {
			b = append(b, byte(' '+r.Intn(95)))
			if len(b)%1500 == 0 {
				b = append(b, '\n')
			}
		}
		if eligible(b) != 1 {
			b = b[:19000]
		}
		cl = append(cl, b)
	}
	var fs []file
	for k := 0; k < 480; k++ {
		fs = append(fs, file{fmt.Sprintf("/r/f%04d", k), cl[r.Intn(len(cl))]})
	}
	build(p, []string{"/r"}, fs, buildOpt{})
	var clTri []map[int]bool
	for _, b := range cl {
		clTri = append(clTri, trigramsOf(b))
	}
	a := &absIndex{roots: []string{"/r"}}
	for _, f := range fs {
		for i := range cl {
			if &cl[i][0] == &f.data[0] {
				a.files = append(a.files, absFile{f.name, clTri[i]})
			}
		}
	}
	_, ob := readBack(p, a.tris(), r)
	c.Count("natural_spills", 1)
	c.emitSlice("build", a, ob, !ob.sameAs(a), true)
}

// ---- C06

var tricky = []string{"/a", "/a.b", "/a/b", "/a b", "/a-b", "/ab", "/a0", "/a/b/c", "/a/b.c", "/a.b/c", "/b", "/a!", "/a/", "/a\x7f", "/aé", "/a/a", "/A"}

// mergeInput makes roots and files under them.
func mergeInput(r *rand.Rand, salt int, universe []string) ([]string, []file) {
	var roots []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		roots = append(roots, universe[r.Intn(len(universe))])
	}
	if r.Intn(20) == 0 {
		roots = []string{"/"}
	}
	if r.Intn(8) == 0 {
		roots[0] += ".zip"
	}
	roots = outermost(roots)
	var names []string
	for _, u := range universe {
		if underAny(u, roots) && r.Intn(3) > 0 && u[len(u)-1] != '/' {
			names = append(names, u)
		}
	}
	for _, root := range roots {
		sub := root
		if sub[len(sub)-1] != '/' {
			sub += "/"
		}
		if strings.HasSuffix(root, ".zip") {
			for k := r.Intn(4); k > 0; k-- {
				names = append(names, root+"\x01"+[]string{"x", "x/y", "x.y", "a b", "x/z.zip"}[r.Intn(5)])
			}
			if r.Intn(2) == 0 {
				continue
			}
		}
		for k := r.Intn(5); k > 0; k-- {
			s := sub + component(r)
			switch r.Intn(4) {
			case 0:
				s += "/" + component(r)
			case 1:
				s += ".zip\x01" + component(r)
			}
			names = append(names, s)
		}
		if r.Intn(10) == 0 {
			for k := 0; k < 40; k++ {
				names = append(names, fmt.Sprintf("%sn%02d", sub, k))
			}
		}
		if r.Intn(16) == 0 {
			w := 1 << (7 + r.Intn(5))
			l := strings.Repeat("long/", w/5+1)[:w-r.Intn(30)]
			for k := 0; k < 3; k++ {
				names = append(names, fmt.Sprintf("%s%sn%02d", sub, l, r.Intn(20)))
			}
		}
		if r.Intn(4) == 0 && root != "/" && root[len(root)-1] != '/' {
			names = append(names, root)
		}
	}
	var fs []file
	for _, nm := range sortUnique(names) {
		d := []byte(fmt.Sprintf("v%d %s\n", salt, nm))
		switch r.Intn(6) {
		case 0:
			d = []byte("same\n")
		case 1:
			d = nil
		case 2:
			d = append(d, text(r, 40)...)
		}
		for i := range d {
			if d[i] == 1 {
				d[i] = 'Z'
			}
		}
		if eligible(d) != 1 {
			d = []byte("x\n")
		}
		fs = append(fs, file{nm, d})
	}
	return roots, fs
}

// genMerge merges a pair of indexes that TLC took from MergeImpl.tla.
func (c *Ctx) genMerge(raw json.RawMessage) {
	r := c.Rng
	type ints struct{ Roots, Names [][]int }
	var g struct{ Old, New ints }
	must(json.Unmarshal(raw, &g))
	str := func(x [][]int) []string {
		res := []string{}
		for _, s := range x {
			b := []byte{}
			for _, v := range s {
				if v == 'a' {
					b = append(b, "a.zip"...) // an archive's name, also that of a directory
					continue
				}
				b = append(b, byte(v))
			}
			res = append(res, string(b))
		}
		return res
	}
	ct := newContents()
	mk := func(x ints, salt string) (string, *absIndex, map[string]any) {
		roots := str(x.Roots)
		var fs []file
		for _, n := range str(x.Names) {
			fs = append(fs, file{n, []byte(salt + strings.ReplaceAll(n, "\x01", "Z"))})
		}
		p := c.Tmp(salt)
		build(p, roots, fs, buildOpt{})
		return p, expected(roots, fs, nil), map[string]any{"roots": pathsJSON(roots), "files": ct.files(fs, nil)}
	}
	p1, a1, j1 := mk(g.Old, "old")
	p2, a2, j2 := mk(g.New, "new")
	out := c.Tmp("m")
	index.Merge(out, p1, p2)
	defer removeAll(p1, p2, out)
	all := a1.tris()
	for t := range a2.tris() {
		all[t] = true
	}
	_, ob := readBack(out, all, r)
	c.Count("generated_merges", 1)
	c.Screen(Event{"kind": "merges", "contents": ct.list, "in": []any{j1, j2}, "got": []any{ob}}, !ob.sameAs(mergeAbs(a1, a2)), true)
}

func runC06(c *Ctx, idx int) {
	if gen := c.GenCases(); idx < len(gen) {
		c.genMerge(gen[idx])
		return
	}
	idx -= len(c.GenCases())
	if idx%250 == 57 {
		c.crowd(1+c.Rng.Intn(3), false, buildOpt{})
		return
	}
	r := c.Rng
	universe := tricky
	if idx%4 == 1 {
		universe = nil
		for k := 0; k < 12; k++ {
			universe = append(universe, somePath(r, 3))
		}
	}
	steps := 1 + r.Intn(3)
	if idx%6 == 0 {
		steps = 6 + r.Intn(4)
	}
	ct := newContents()
	var in []any
	var got []any
	roots, fs := mergeInput(r, 0, universe)
	cur := c.Tmp("m")
	build(cur, roots, fs, buildOpt{})
	a := expected(roots, fs, nil)
	in = append(in, map[string]any{"roots": pathsJSON(roots), "files": ct.files(fs, nil)})
	all := a.tris()
	sus := false
	for k := 1; k <= steps; k++ {
		roots, fs := mergeInput(r, k, universe)
		if r.Intn(6) == 0 {
			fs = nil
		}
		p := c.Tmp("n")
		var o buildOpt
		if r.Intn(5) == 0 {
			o.cap = 5
		}
		build(p, roots, fs, o)
		b := expected(roots, fs, nil)
		for t := range b.tris() {
			all[t] = true
		}
		out := c.Tmp("m")
		index.Merge(out, cur, p)
		a = mergeAbs(a, b)
		_, ob := readBack(out, all, r)
		in = append(in, map[string]any{"roots": pathsJSON(roots), "files": ct.files(fs, nil)})
		// write down the posting lists of some trigrams only, all of them if they are not many
		sus = sus || !ob.sameAs(a)
		got = append(got, ob)
		removeAll(p, cur)
		cur = out
		c.Count("merges", 1)
	}
	removeAll(cur)
	c.Screen(Event{"kind": "merges", "contents": ct.list, "in": in, "got": got}, sus, idx%c.Pick(2, 12) == 0)
}

// ---- C15

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func runC15(c *Ctx, idx int) {
	if idx%160 == 57 {
		c.crowd(c.Rng.Intn(2), false, buildOpt{})
		return
	}
	r := c.Rng
	if idx%2 == 0 {
		// pairs of paths
		var pool []string
		for k := 0; k < 14; k++ {
			s := somePath(r, 4)
			switch r.Intn(5) {
			case 0:
				s = tricky[r.Intn(len(tricky))]
			case 1:
				s = s[r.Intn(len(s)):]
			case 2:
				s += string([]byte{byte(1 + r.Intn(255))})
			case 3:
				b := make([]byte, r.Intn(5))
				for i := range b {
					b[i] = "/a.\x01\xff0"[r.Intn(6)]
				}
				s = string(b)
			}
			pool = append(pool, s)
		}
		pairs := []any{}
		sus := false
		for i, p := range pool {
			for j := 0; j < len(pool); j++ {
				q := pool[j]
				if r.Intn(3) > 0 && i != j {
					continue
				}
				got := sign(index.MakePath(p).Compare(index.MakePath(q)))
				want := 0
				if pathLess(p, q) {
					want = -1
				} else if pathLess(q, p) {
					want = 1
				}
				sus = sus || got != want
				pairs = append(pairs, map[string]any{"p": bytesOf(p), "q": bytesOf(q), "got": got})
				c.Count("comparisons", 1)
			}
		}
		c.Screen(Event{"kind": "compare", "pairs": pairs}, sus, true)
		return
	}
	n := []int{1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 100, 160}[r.Intn(15)]
	if idx%20 == 1 {
		n = 1000 + r.Intn(2000)
	}
	names := someNames(r, n)
	var fs []file
	for _, nm := range names {
		fs = append(fs, file{nm, []byte("x\n")})
	}
	p := c.Tmp("ix")
	defer removeAll(p)
	if r.Intn(3) == 0 && n > 3 {
		// through a merge
		h := 1 + r.Intn(len(fs))
		h = min(h, len(fs))
		p1, p2 := c.Tmp("a"), c.Tmp("b")
		build(p1, []string{"/"}, fs[:h], buildOpt{})
		var rs []string
		for _, f := range fs[h:] {
			rs = append(rs, f.name)
		}
		rs = outermost(rs)
		build(p2, rs, fs[h:], buildOpt{})
		index.Merge(p, p1, p2)
		var m []string
		for _, f := range fs[:h] {
			if !underAny(f.name, rs) {
				m = append(m, f.name)
			}
		}
		for _, f := range fs[h:] {
			m = append(m, f.name)
		}
		names = sortUnique(m)
		removeAll(p1, p2)
	} else {
		build(p, []string{"/"}, fs, buildOpt{})
	}
	ix := index.Open(p)
	c.nameProbes(ix, names, true)
}

// nameProbes reads names in every way there is.
func (c *Ctx) nameProbes(ix *index.Index, names []string, sample bool) {
	r := c.Rng
	n := len(names)
	sus := false
	probes := []any{}
	add := func(op string, lo, hi int, got []string) {
		want := names[lo:min(hi, n)]
		if !slices.Equal(got, want) {
			sus = true
		}
		c.Count("name_probes", 1)
		probes = append(probes, map[string]any{"op": op, "lo": lo, "hi": hi, "got": pathsJSON(got)})
	}
	collect := func(lo, hi int) []string {
		var got []string
		for p := range ix.Names(lo, hi) {
			got = append(got, p.String())
			if len(got) > n+5 {
				break
			}
		}
		return got
	}
	add("names", 0, n, collect(0, n))
	for k := 0; k < min(n, 200); k++ {
		i := k
		if n > 200 {
			i = r.Intn(n)
		}
		add("name", i, i+1, []string{ix.Name(i).String()})
	}
	for k := 0; k < 40; k++ {
		lo := r.Intn(n + 1)
		hi := lo + r.Intn(min(n-lo, 40)+1)
		if lo == hi && lo == n {
			continue
		}
		if r.Intn(2) == 0 {
			add("names", lo, hi, collect(lo, hi))
			continue
		}
		var got []string
		for rd := ix.NamesAt(lo, hi); rd.Valid() && len(got) < n+5; rd.Next() {
			got = append(got, rd.Path().String())
		}
		add("namesAt", lo, hi, got)
	}
	nn := [][]int{}
	for _, s := range names {
		nn = append(nn, bytesOf(s))
	}
	c.Screen(Event{"kind": "names", "names": nn, "probes": probes}, sus, sample)
}

// ---- C20

// encodeV1 writes an index in the older format as documented.
func encodeV1(out string, a *absIndex) {
	var b bytes.Buffer
	u32 := func(x int) { binary.Write(&b, binary.BigEndian, uint32(x)) }
	b.WriteString("csearch index 1\n")
	roots := b.Len()
	for _, r := range a.roots {
		b.WriteString(r)
		b.WriteByte(0)
	}
	b.WriteByte(0)
	names := b.Len()
	var offs []int
	for _, f := range a.files {
		offs = append(offs, b.Len()-names)
		b.WriteString(f.name)
		b.WriteByte(0)
	}
	offs = append(offs, b.Len()-names)
	b.WriteByte(0)
	posts := b.Len()
	type ent struct{ t, n, off int }
	var ents []ent
	ids := map[int][]int{}
	for i, f := range a.files {
		for t := range f.tri {
			ids[t] = append(ids[t], i)
		}
	}
	for _, t := range append(sortedKeys(ids), 0xffffff) {
		ents = append(ents, ent{t, len(ids[t]), b.Len() - posts})
		b.Write([]byte{byte(t >> 16), byte(t >> 8), byte(t)})
		last := -1
		for _, id := range ids[t] {
			b.Write(binary.AppendUvarint(nil, uint64(id-last)))
			last = id
		}
		b.WriteByte(0)
	}
	nidx := b.Len()
	for _, o := range offs {
		u32(o)
	}
	pidx := b.Len()
	for _, e := range ents {
		b.Write([]byte{byte(e.t >> 16), byte(e.t >> 8), byte(e.t)})
		u32(e.n)
		u32(e.off)
	}
	for _, o := range []int{roots, names, posts, nidx, pidx} {
		u32(o)
	}
	b.WriteString("\ncsearch trailr\n")
	must(os.WriteFile(out, b.Bytes(), 0666))
}

func formatOf(p string) int {
	data, err := os.ReadFile(p)
	expect(err)
	switch {
	case bytes.HasSuffix(data, []byte("\ncsearch trlr 2\n")) && bytes.HasPrefix(data, []byte("csearch index 2\n")):
		return 2
	case bytes.HasSuffix(data, []byte("\ncsearch trailr\n")):
		return 1
	}
	return 0
}

// farV1 is an older index of many files, with lists that have wide gaps, alone and merged.
func (c *Ctx) farV1() {
	r := c.Rng
	n := []int{16390, 16400, 16900, 17500}[r.Intn(4)] + r.Intn(100)
	special := map[int]int{0: 0, n - 1: 0, 1: 1, 129: 1, n - 2: 1}
	for k := 0; k < 12; k++ {
		special[r.Intn(n)] = r.Intn(6)
	}
	for k := 0; k < 2; k++ {
		i := r.Intn(n)
		special[i], special[min(n-1, i+[]int{127, 128, 129, 16383, 16384, 16385}[r.Intn(6)])] = 2+k, 2+k
	}
	var fs, nfs []file
	for i := 0; i < n; i++ {
		d := "common\n"
		if k, ok := special[i]; ok {
			d = fmt.Sprintf("common\nodd %d%d%d\n", k, k, k)
		} else if i%7 == 3 {
			d = "\n"
		}
		fs = append(fs, file{fmt.Sprintf("/a/%05d", i), []byte(d)})
	}
	for k := 0; k < 3; k++ {
		nfs = append(nfs, file{fmt.Sprintf("/b/%d", k), []byte(fmt.Sprintf("odd %d%d%d\n", k, k, k))})
	}
	a, b := expected([]string{"/a"}, fs, nil), expected([]string{"/b"}, nfs, nil)
	p, q, m := c.Tmp("a"), c.Tmp("b"), c.Tmp("m")
	defer removeAll(p, q, m)
	encodeV1(p, a)
	if r.Intn(2) == 0 {
		encodeV1(q, b)
	} else {
		build(q, b.roots, nfs, buildOpt{})
	}
	ix, ob := readBack(p, a.tris(), r)
	pool := sortedKeys(a.tris())
	qs, sus := queries(r, ix, a, pool, 3)
	c.Screen(Event{"kind": "v1-slice", "ix": absJSON(a, pool), "got": ob, "ops": qs, "format": formatOf(p)}, sus || !ob.sameAs(a) || formatOf(p) != 1, true)
	if r.Intn(2) == 0 {
		index.Merge(m, p, q)
		am := mergeAbs(a, b)
		_, ob := readBack(m, am.tris(), r)
		pool := sortedKeys(am.tris())
		c.Screen(Event{"kind": "v1merge-slice", "in": []any{absJSON(a, pool), absJSON(b, pool)}, "got": ob, "format": formatOf(m)}, !ob.sameAs(am) || formatOf(m) != 2, true)
	}
	c.Count("far_lists", 1)
}

func runC20(c *Ctx, idx int) {
	if idx%160 == 57 {
		c.crowd(1+c.Rng.Intn(2), true, buildOpt{})
		return
	}
	r := c.Rng
	if idx%c.Pick(64, 500) == 9 {
		c.farV1()
		return
	}
	universe := tricky
	if r.Intn(2) == 0 {
		universe = nil
		for k := 0; k < 14; k++ {
			universe = append(universe, somePath(r, 3))
		}
	}
	mkIndex := func(p string, roots []string, fs []file, how int) int {
		a := expected(roots, fs, nil)
		switch how {
		case 0:
			build(p, roots, fs, buildOpt{})
			return 2
		case 1:
			encodeV1(p, a)
		case 2: // the writer's own older format
			if setWriteVersion == nil {
				encodeV1(p, a)
				break
			}
			setWriteVersion(1)
			build(p, roots, fs, buildOpt{})
			setWriteVersion(2)
		}
		return 1
	}
	how1, how2 := r.Intn(3), r.Intn(3)
	if how1+how2 == 0 {
		how1 = 1
	}
	r1, f1 := mergeInput(r, 1, universe)
	r2, f2 := mergeInput(r, 2, universe)
	a1, a2 := expected(r1, f1, nil), expected(r2, f2, nil)
	p1, p2, pm := c.Tmp("a"), c.Tmp("b"), c.Tmp("m")
	defer removeAll(p1, p2, pm)
	v1 := mkIndex(p1, r1, f1, how1)
	v2 := mkIndex(p2, r2, f2, how2)
	all := a1.tris()
	for t := range a2.tris() {
		all[t] = true
	}
	ct := newContents()
	// the single indexes
	for k, p := range []string{p1, p2} {
		a, fs, roots, v := a1, f1, r1, v1
		if k == 1 {
			a, fs, roots, v = a2, f2, r2, v2
		}
		if v != 1 {
			continue
		}
		ix, ob := readBack(p, all, r)
		pool := triPool(r, a)
		qs, sus := queries(r, ix, a, pool, 12)
		ctk := newContents()
		e := Event{"kind": "v1", "roots": pathsJSON(roots), "files": ctk.files(fs, nil), "got": ob, "ops": qs, "format": formatOf(p)}
		e["contents"] = ctk.list
		c.Count("v1_indexes", 1)
		c.Screen(e, sus || !ob.sameAs(a) || formatOf(p) != 1, idx%c.Pick(2, 12) == 0)
		if k == 0 && len(a.files) > 0 {
			var nm []string
			for _, f := range a.files {
				nm = append(nm, f.name)
			}
			c.nameProbes(ix, nm, idx%c.Pick(4, 24) == 0)
		}
	}
	// their merge
	index.Merge(pm, p1, p2)
	am := mergeAbs(a1, a2)
	ix, ob := readBack(pm, all, r)
	pool := triPool(r, am)
	qs, sus := queries(r, ix, am, pool, 8)
	e := Event{"kind": "v1merge", "in": []any{
		map[string]any{"roots": pathsJSON(r1), "files": ct.files(f1, nil)},
		map[string]any{"roots": pathsJSON(r2), "files": ct.files(f2, nil)}},
		"got": []any{ob}, "format": formatOf(pm), "ops": qs, "from": []int{v1, v2}}
	e["contents"] = ct.list
	c.Count("v1_merges", 1)
	c.Screen(e, sus || !ob.sameAs(am) || formatOf(pm) != 2, idx%c.Pick(2, 12) == 0)
	if setWriteVersion != nil {
		setWriteVersion(2)
	}
}
