package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/google/codesearch/index"
)

// Indexes of very many files (spec/Crowd.tla): more than fit into sixteen bits.

// block stands for the files name + seven digits, for the numbers from lo to hi-1.
type block struct {
	name   string
	lo, hi int
	data   []byte
	fail   bool
}

func (b block) expand(fs []file, failing map[int]bool) []file {
	for k := b.lo; k < b.hi; k++ {
		if b.fail {
			failing[len(fs)] = true
		}
		fs = append(fs, file{fmt.Sprintf("%s%07d", b.name, k), b.data})
	}
	return fs
}

func blocksJSON(ct *contents, bs []block) []any {
	r := []any{}
	for _, b := range bs {
		r = append(r, map[string]any{"name": bytesOf(b.name), "lo": b.lo, "hi": b.hi, "c": ct.add(b.data), "fail": b.fail})
	}
	return r
}

// idRuns gives a list of ids by its maximal runs.
func idRuns(ids []int) [][]int {
	r := [][]int{}
	for k, id := range ids {
		if k > 0 && ids[k-1]+1 == id {
			r[len(r)-1][1]++
		} else {
			r = append(r, []int{id, id + 1})
		}
		if len(r) > 5000 {
			break
		}
	}
	return r
}

// nameRuns gives a list of names by maximal runs.
func nameRuns(names []string) []any {
	r := []any{}
	var last map[string]any
	for _, s := range names {
		d, n := s, -2
		if len(s) > 7 {
			if x, err := strconv.Atoi(s[len(s)-7:]); err == nil && x >= 0 && !strings.ContainsAny(s[len(s)-7:], "+-") {
				d, n = s[:len(s)-7], x
			}
		}
		if last != nil && last["d"] == d && last["hi"] == n {
			last["hi"] = n + 1
			continue
		}
		last = map[string]any{"d": d, "name": bytesOf(d), "lo": n, "hi": n + 1}
		r = append(r, last)
		if len(r) > 5000 {
			break
		}
	}
	for _, x := range r {
		delete(x.(map[string]any), "d")
	}
	return r
}

// someBlocks makes blocks in directories of dir, n files altogether.
func (c *Ctx) someBlocks(dir string, n int, cl [][]byte) []block {
	r := c.Rng
	var bs []block
	total, d, at := 0, 0, 0
	for total < n {
		k := 1 + r.Intn(1+n/2)
		switch {
		case r.Intn(3) == 0:
			k = 1 + r.Intn(5)
		case r.Intn(3) == 0 && total < 65536:
			k = 65536 - total + r.Intn(3) - 1
		case total > 65500 && total < 65600:
			k = 1 + r.Intn(20)
		}
		k = max(1, min(k, n-total))
		b := block{name: fmt.Sprintf("%s/d%d/", dir, d), lo: at, hi: at + k, data: cl[r.Intn(len(cl))]}
		if k < 1000 && r.Intn(12) == 0 {
			b.fail = true
		}
		if k < 1000 && r.Intn(12) == 0 {
			b.data = []byte("bad\x00")
		}
		if b.fail || string(b.data) == "bad\x00" {
			n += k
		}
		bs = append(bs, b)
		total += k
		at += k + r.Intn(3)/2
		if r.Intn(3) == 0 && d < 9 {
			d, at = d+1, r.Intn(50)
		}
	}
	return bs
}

// crowd builds an index of more than 65536 files, merges others into it and reads the results.
func (c *Ctx) crowd(merges int, v1 bool, o buildOpt) {
	r := c.Rng
	var cl [][]byte
	for _, w := range []string{"abcd ", "bcde ", "xyz\n", "", "q", "abc xyz\n", "zz\xc3\xa9\n"} {
		if r.Intn(4) > 0 {
			cl = append(cl, []byte(w))
		}
	}
	cl = append(cl, []byte("abc\n"), text(r, 12))
	ct := newContents()
	in, got := []any{}, []any{}
	pool := map[int]bool{0x616263: true, 0x78797a: true}
	sus := false
	cur := ""
	var a *absIndex
	var ix *index.Index
	for k := 0; k <= merges; k++ {
		roots := []string{"/c/b", "/c/d"}
		var bs []block
		if k == 0 {
			n := 66000 + r.Intn(6000)
			if r.Intn(2) == 0 && merges > 0 {
				n = 40000 + r.Intn(9000)
			}
			bs = c.someBlocks("/c/b", n, cl)
			bs = append(bs, c.someBlocks("/c/d", 1+r.Intn(40), cl)...)
		} else {
			root := []string{"/c/a", "/c/b/d0", "/c/c", "/c/e"}[r.Intn(4)]
			roots = []string{root}
			n := 1 + r.Intn(300)
			if r.Intn(2) == 0 {
				n = 30000 + r.Intn(9000)
			}
			bs = c.someBlocks(root, n, cl)
		}
		var fs []file
		oo := o
		oo.failing = map[int]bool{}
		oo.readers = r
		for _, b := range bs {
			fs = b.expand(fs, oo.failing)
		}
		b := expected(roots, fs, oo.failing)
		for t := range b.tris() {
			pool[t] = true
		}
		p, out := c.Tmp("p"), c.Tmp("m")
		if v1 && r.Intn(2) == 0 {
			encodeV1(p, b)
		} else {
			build(p, roots, fs, oo)
		}
		if k == 0 {
			a, cur = b, p
		} else {
			index.Merge(out, cur, p)
			a = mergeAbs(a, b)
			removeAll(cur, p)
			cur = out
		}
		in = append(in, map[string]any{"roots": pathsJSON(roots), "files": blocksJSON(ct, bs)})
		c.Count("crowd_files", len(fs))
		ix = index.Open(cur)
		var ob map[string]any
		var s bool
		ob, s = c.crowdRead(ix, a, pool)
		got = append(got, ob)
		sus = sus || s
	}
	defer removeAll(cur)
	ops, s := c.crowdOps(ix, a, sortedKeys(pool))
	c.Count("crowds", 1)
	c.Screen(Event{"kind": "crowd", "in": in, "got": got, "contents": ct.list, "ops": ops}, sus || s, true)
}

func (c *Ctx) crowdRead(ix *index.Index, a *absIndex, pool map[int]bool) (map[string]any, bool) {
	r := c.Rng
	sus := false
	roots := []string{}
	for p := range ix.Roots().All() {
		roots = append(roots, p.String())
	}
	read := func(lo, hi int, at bool) []string {
		var s []string
		if at {
			for rd := ix.NamesAt(lo, hi); rd.Valid() && len(s) < len(a.files)+9; rd.Next() {
				s = append(s, rd.Path().String())
			}
		} else {
			for p := range ix.Names(lo, hi) {
				if s = append(s, p.String()); len(s) > len(a.files)+9 {
					break
				}
			}
		}
		w := a.files[min(lo, len(a.files)):min(hi, len(a.files))]
		sus = sus || len(s) != len(w)
		for k := range w {
			sus = sus || s[k] != w[k].name
			if sus {
				break
			}
		}
		return s
	}
	n := len(ix.PostingQuery(&index.Query{Op: index.QAll}))
	names := read(0, n, false)
	sus = sus || n != len(a.files)
	probes := []any{}
	for k := 0; k < 60 && n > 0; k++ {
		lo := r.Intn(n)
		if r.Intn(3) == 0 {
			lo = max(0, min(n-1, []int{16384, 32768, 65536, 65536, 65535, n - 1}[r.Intn(6)]+r.Intn(5)-2))
		}
		hi := lo + 1
		var s []string
		if k%3 == 0 {
			hi = min(n, lo+r.Intn(40))
			s = read(lo, hi, r.Intn(2) == 0)
		} else {
			s = []string{ix.Name(lo).String()}
			sus = sus || lo >= len(a.files) || a.files[lo].name != s[0]
		}
		probes = append(probes, map[string]any{"lo": lo, "hi": hi, "got": nameRuns(s)})
	}
	posts := []any{}
	for _, t := range append(sortedKeys(pool), 1, 0x7a7a7b) {
		ids := ix.PostingList(uint32(t))
		sus = sus || !sameInts(ids, a.ids(func(f absFile) bool { return f.tri[t] }))
		posts = append(posts, map[string]any{"t": t, "runs": idRuns(ids)})
	}
	return map[string]any{"roots": pathsJSON(roots), "names": nameRuns(names), "probes": probes, "posts": posts}, sus
}

// crowdOps runs queries, judged block by block.
func (c *Ctx) crowdOps(ix *index.Index, a *absIndex, pool []int) ([]any, bool) {
	r := c.Rng
	sus := false
	ops := []any{}
	for k := 0; k < 40; k++ {
		t := pool[r.Intn(len(pool))]
		if k%4 == 0 {
			ids := append([]int{}, ix.PostingList(uint32(t))...)
			sus = sus || !sameInts(ids, a.ids(func(f absFile) bool { return f.tri[t] }))
			ops = append(ops, map[string]any{"op": "list", "t": t, "arg": []int{}, "q": nullQuery, "got": idRuns(ids)})
			continue
		}
		q := randomQuery(r, pool, r.Intn(3))
		qj := queryJSON(q)
		ids := ix.PostingQuery(q)
		sus = sus || !sameInts(ids, a.ids(func(f absFile) bool { return evalAbs(q, f) }))
		ops = append(ops, map[string]any{"op": "query", "t": 0, "arg": []int{}, "q": qj, "got": idRuns(ids)})
	}
	return ops, sus
}
