package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/bits"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/google/codesearch/index"
)

func init() {
	props["C21"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(400, 4000) }, Run: runC21}
	props["C09"] = &Prop{N: func(c *Ctx) int { return c.Pick(200, 1600) }, Run: runC09, Timeout: 300 * time.Second}
	helpers["tryindex"] = tryIndex
}

// ---- an encoder of the documented format, independent of the code under test

func bitsOf(x uint64) []int {
	r := []int{}
	for ; x > 0; x >>= 1 {
		r = append(r, int(x&1))
	}
	return r
}

type bitWriter struct {
	b []byte
	n int
}

func (w *bitWriter) bit(x uint64) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	w.b[w.n/8] |= byte(x) << (w.n % 8)
	w.n++
}

func (w *bitWriter) delta(d uint64) {
	if d == 0 {
		d = 16
	} else if d >= 16 {
		d++
	}
	lg := bits.Len64(d) - 1
	for range lg {
		w.bit(0)
	}
	w.bit(1)
	for i := range lg {
		w.bit(d >> i & 1)
	}
}

func encodeList(ids []int) []byte {
	var w bitWriter
	last := -1
	for _, id := range ids {
		w.delta(uint64(id - last))
		last = id
	}
	w.delta(0)
	return w.b
}

func triBytes(t int) []byte { return []byte{byte(t >> 16), byte(t >> 8), byte(t)} }

type v2opt struct {
	pad       func(n int) int // zero bytes to add at offset n between sections
	shorter   *rand.Rand      // do not always share the longest prefix
	lastEntry bool            // the last list has an entry in the index
	slack     *rand.Rand      // blocks of the posting index are not always filled
}

func pathsV2(names []string, grouped bool, r *rand.Rand) (b []byte, offs []int) {
	last := ""
	for k, s := range names {
		pre := 0
		for pre < len(s) && pre < len(last) && s[pre] == last[pre] {
			pre++
		}
		if grouped && k%16 == 0 {
			pre = 0
			offs = append(offs, len(b))
		}
		if k == 0 {
			pre = 0
		}
		if r != nil && pre > 0 && r.Intn(3) == 0 {
			pre = r.Intn(pre)
		}
		b = binary.AppendUvarint(b, uint64(pre))
		b = binary.AppendUvarint(b, uint64(len(s)-pre))
		b = append(b, s[pre:]...)
		last = s
	}
	return
}

type plist struct {
	t   int
	ids []int
}

func encodeV2(roots, names []string, posts []plist, o v2opt) []byte {
	b := []byte("csearch index 2\n")
	pad := func() {
		if o.pad != nil {
			b = append(b, make([]byte, o.pad(len(b)))...)
		}
	}
	u64 := func(x int) { b = binary.BigEndian.AppendUint64(b, uint64(x)) }
	f := [8]int{0: len(b), 1: len(roots)}
	rb, _ := pathsV2(roots, false, o.shorter)
	b = append(b, rb...)
	pad()
	f[2], f[3] = len(b), len(names)
	nb, offs := pathsV2(names, true, o.shorter)
	b = append(b, nb...)
	pad()
	f[4], f[5] = len(b), len(posts)+1
	var idx, block []byte
	last := 0
	for _, p := range append(slices.Clone(posts), plist{0xffffff, nil}) {
		off := len(b) - f[4]
		b = append(b, triBytes(p.t)...)
		b = append(b, encodeList(p.ids)...)
		if p.t == 0xffffff && !o.lastEntry {
			break
		}
		ent := func(base int) []byte {
			e := triBytes(p.t)
			e = binary.AppendUvarint(e, uint64(len(p.ids)))
			return binary.AppendUvarint(e, uint64(off-base))
		}
		e := ent(last)
		if len(block)+len(e) > 256 || len(block) > 0 && o.slack != nil && o.slack.Intn(20) == 0 {
			idx = append(idx, append(block, make([]byte, 256-len(block))...)...)
			block = nil
			e = ent(0)
		}
		block = append(block, e...)
		last = off
	}
	if len(block) > 0 {
		idx = append(idx, append(block, make([]byte, 256-len(block))...)...)
	}
	pad()
	f[6] = len(b)
	for _, x := range offs {
		u64(x)
	}
	pad()
	f[7] = len(b)
	b = append(b, idx...)
	for _, x := range f {
		u64(x)
	}
	return append(b, "\ncsearch trlr 2\n"...)
}

// ---- C21

func (a *absIndex) lists() []plist {
	ids := map[int][]int{}
	for i, f := range a.files {
		for t := range f.tri {
			ids[t] = append(ids[t], i)
		}
	}
	var res []plist
	for _, t := range sortedKeys(ids) {
		res = append(res, plist{t, ids[t]})
	}
	return res
}

func listsJSON(l []plist) []any {
	r := []any{}
	for _, p := range l {
		r = append(r, map[string]any{"t": p.t, "ids": append([]int{}, p.ids...)})
	}
	return r
}

// readEverything reads an index with the real reader.
func readEverything(path string, posts []plist, nnames int, r *rand.Rand) map[string]any {
	ix := index.Open(path)
	roots, names, byid, gp := [][]int{}, [][]int{}, [][]int{}, []any{}
	for p := range ix.Roots().All() {
		roots = append(roots, bytesOf(p.String()))
	}
	for p := range ix.Names(0, nnames) {
		names = append(names, bytesOf(p.String()))
	}
	for i := 0; i < nnames; i++ {
		byid = append(byid, bytesOf(ix.Name(i).String()))
	}
	probe := map[int]bool{1: true, 0xfffffe: true, 0xffffff: true}
	for _, p := range posts {
		probe[p.t] = true
		if r.Intn(4) == 0 {
			probe[(p.t+1)&0xffffff] = true
			probe[max(1, p.t-1)] = true
		}
	}
	for _, t := range sortedKeys(probe) {
		gp = append(gp, map[string]any{"t": t, "ids": append([]int{}, ix.PostingList(uint32(t))...)})
	}
	return map[string]any{"roots": roots, "names": names, "byid": byid, "posts": gp}
}

func fileBytes(p string) []int {
	b, err := os.ReadFile(p)
	expect(err)
	return bytesOf(string(b))
}

func runC21(c *Ctx, idx int) {
	r := c.Rng
	p := c.Tmp("ix")
	defer removeAll(p)
	if gen := c.GenCases(); idx < len(gen) {
		// a file encoded by the specification
		var g struct {
			Roots, Names [][]int
			Posts        []struct {
				T   int
				Ids []int
			}
			Bytes []int
		}
		must(json.Unmarshal(gen[idx], &g))
		b := make([]byte, len(g.Bytes))
		for i, x := range g.Bytes {
			b[i] = byte(x)
		}
		must(os.WriteFile(p, b, 0666))
		var posts []plist
		for _, x := range g.Posts {
			posts = append(posts, plist{x.T, x.Ids})
		}
		c.Count("encoded_by_specification", 1)
		if g.Roots == nil {
			g.Roots = [][]int{}
		}
		if g.Names == nil {
			g.Names = [][]int{}
		}
		c.Emit(Event{"kind": "read", "roots": g.Roots, "names": g.Names, "posts": listsJSON(posts), "bytes": g.Bytes,
			"got": readEverything(p, posts, len(g.Names), r)})
		return
	}
	idx -= len(c.GenCases())
	switch idx % 8 {
	case 0, 1, 2, 3: // written by the real writer
		n := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 49, 64, 80}[r.Intn(13)]
		var fs []file
		var cl [][]byte
		for k := 1 + r.Intn(6); k > 0; k-- {
			cl = append(cl, text(r, 1+r.Intn(60)))
		}
		for k, nm := range someNames(r, n) {
			d := cl[r.Intn(len(cl))]
			if r.Intn(3) == 0 {
				d = cl[k*len(cl)/max(n, k+1)]
			}
			if len(nm) > 2000 {
				nm = nm[:2000]
				if len(fs) > 0 && !pathLess(fs[len(fs)-1].name, nm) {
					continue
				}
			}
			fs = append(fs, file{nm, d})
		}
		fs = sortFiles(fs)
		var names []string
		for _, f := range fs {
			names = append(names, f.name)
		}
		roots := someRoots(r, names)
		for k := range roots {
			if len(roots[k]) > 2000 {
				roots = nil
				break
			}
		}
		var o buildOpt
		if r.Intn(3) == 0 {
			o.cap = 1 + r.Intn(60)
		}
		if idx%8 < 3 {
			build(p, roots, fs, o)
			ct := newContents()
			e := Event{"kind": "written", "roots": pathsJSON(roots), "files": ct.files(fs, nil), "bytes": fileBytes(p)}
			e["contents"] = ct.list
			c.Count("written", 1)
			c.Emit(e)
			return
		}
		universe := tricky
		if r.Intn(2) == 0 {
			universe = nil
			for k := 0; k < 20; k++ {
				universe = append(universe, somePath(r, 3))
			}
		}
		r1, f1 := mergeInput(r, 1, universe)
		r2, f2 := mergeInput(r, 2, universe)
		p1, p2 := c.Tmp("a"), c.Tmp("b")
		build(p1, r1, f1, buildOpt{})
		build(p2, r2, f2, buildOpt{})
		index.Merge(p, p1, p2)
		removeAll(p1, p2)
		ct := newContents()
		e := Event{"kind": "written-merge", "in": []any{
			map[string]any{"roots": pathsJSON(r1), "files": ct.files(f1, nil)},
			map[string]any{"roots": pathsJSON(r2), "files": ct.files(f2, nil)}}, "bytes": fileBytes(p)}
		e["contents"] = ct.list
		c.Count("written_merges", 1)
		c.Emit(e)
	case 4, 5: // encoded by the driver
		a := c.syntheticIndex()
		o := v2opt{lastEntry: r.Intn(4) > 0}
		switch r.Intn(3) {
		case 0:
			o.pad = func(n int) int { return -n & 15 }
		case 1:
			o.pad = func(n int) int { return r.Intn(40) }
		}
		if r.Intn(3) == 0 {
			o.shorter = r
		}
		if r.Intn(3) == 0 {
			o.slack = r
		}
		b := encodeV2(a.roots, a.names, a.posts, o)
		must(os.WriteFile(p, b, 0666))
		c.Count("encoded_by_driver", 1)
		c.Emit(Event{"kind": "read", "roots": pathsJSON(a.roots), "names": pathsJSON(a.names), "posts": listsJSON(a.posts),
			"bytes": bytesOf(string(b)), "got": readEverything(p, a.posts, len(a.names), r)})
	case 6: // deltas of all magnitudes
		if encodeDeltas == nil {
			return
		}
		var deltas []int
		bs := []any{}
		for k := 1 + r.Intn(60); k > 0; k-- {
			x := 0
			switch r.Intn(4) {
			case 0:
				x = r.Intn(40)
			case 1:
				x = 1<<uint(r.Intn(56)) + r.Intn(3) - 1
			case 2:
				x = int(r.Int63() >> uint(8+r.Intn(54)))
			default:
				x = 1 + r.Intn(20)
			}
			deltas = append(deltas, x)
			bs = append(bs, bitsOf(uint64(x)))
		}
		f, err := os.Create(p)
		must(err)
		encodeDeltas(f, deltas)
		f.Close()
		enc, err := os.ReadFile(p)
		must(err)
		var w bitWriter
		for _, d := range deltas {
			w.delta(uint64(d))
		}
		dec := []any{}
		for _, d := range decodeDeltas(w.b, len(deltas)) {
			dec = append(dec, bitsOf(uint64(d)))
		}
		c.Count("deltas", len(deltas))
		c.Emit(Event{"kind": "gamma", "deltas": bs, "enc": bytesOf(string(enc)), "dec": dec})
	case 7:
		if idx%16 == 7 {
			c.sparseFile(p)
		} else {
			c.farWriter()
		}
	}
}

func sortFiles(fs []file) []file {
	slices.SortStableFunc(fs, func(a, b file) int {
		if pathLess(a.name, b.name) {
			return -1
		}
		if pathLess(b.name, a.name) {
			return 1
		}
		return 0
	})
	return slices.CompactFunc(fs, func(a, b file) bool { return a.name == b.name })
}

type synth struct {
	roots, names []string
	posts        []plist
}

// syntheticIndex: an index that no files need to exist for.
func (c *Ctx) syntheticIndex() synth {
	r := c.Rng
	var a synth
	n := []int{0, 1, 15, 16, 17, 31, 32, 33, 64, 65, 150}[r.Intn(11)]
	for _, s := range someNames(r, n) {
		if len(s) < 1000 {
			a.names = append(a.names, s)
		}
	}
	n = len(a.names)
	a.roots = nil
	for _, s := range someRoots(r, a.names) {
		a.roots = append(a.roots, s)
	}
	t := 0
	if n == 0 {
		return a
	}
	for k := r.Intn(150); k > 0; k-- {
		t += 1 + r.Intn([]int{1, 3, 300, 70000, 1000000}[r.Intn(5)])
		if t >= 0xffffff {
			break
		}
		var ids []int
		id := r.Intn(n)
		step := 1 + r.Intn([]int{1, 2, 16, 20, 40}[r.Intn(5)])
		for id < n {
			ids = append(ids, id)
			id += 1 + r.Intn(step)
		}
		a.posts = append(a.posts, plist{t, ids})
	}
	return a
}

// sparseFile: sections, and posting lists, more than 4 GB apart.
func (c *Ctx) sparseFile(p string) {
	r := c.Rng
	a := c.syntheticIndex()
	if len(a.posts) > 40 {
		a.posts = a.posts[:40]
	}
	f, err := os.Create(p)
	must(err)
	put := func(off int64, b []byte) {
		_, err := f.WriteAt(b, off)
		must(err)
	}
	hole := func() int64 {
		if r.Intn(3) == 0 {
			return int64(r.Intn(100))
		}
		return 1<<31 + int64(r.Intn(1<<20))<<uint(r.Intn(13))
	}
	put(0, []byte("csearch index 2\n"))
	off := int64(16)
	var fields [8]int64
	rb, _ := pathsV2(a.roots, false, nil)
	fields[0], fields[1] = off, int64(len(a.roots))
	put(off, rb)
	off += int64(len(rb)) + hole()
	nb, noffs := pathsV2(a.names, true, nil)
	fields[2], fields[3] = off, int64(len(a.names))
	put(off, nb)
	off += int64(len(nb)) + hole()
	fields[4], fields[5] = off, int64(len(a.posts)+1)
	var idx, block []byte
	last := int64(0)
	posts := []any{}
	for _, l := range append(slices.Clone(a.posts), plist{0xffffff, nil}) {
		if r.Intn(6) == 0 {
			off += hole()
		}
		b := append(triBytes(l.t), encodeList(l.ids)...)
		put(off, b)
		rel := off - fields[4]
		ent := func(base int64) []byte {
			e := binary.AppendUvarint(triBytes(l.t), uint64(len(l.ids)))
			return binary.AppendUvarint(e, uint64(rel-base))
		}
		e := ent(last)
		if len(block)+len(e) > 256 {
			idx = append(idx, append(block, make([]byte, 256-len(block))...)...)
			block = nil
			e = ent(0)
		}
		block = append(block, e...)
		last = rel
		if l.t != 0xffffff {
			posts = append(posts, map[string]any{"t": l.t, "ids": append([]int{}, l.ids...), "off": bitsOf(uint64(rel)), "b": bytesOf(string(b))})
		}
		off += int64(len(b))
	}
	idx = append(idx, append(block, make([]byte, 256-len(block))...)...)
	off += hole()
	fields[6] = off
	var ni []byte
	for _, x := range noffs {
		ni = binary.BigEndian.AppendUint64(ni, uint64(x))
	}
	put(off, ni)
	off += int64(len(ni)) + hole()
	fields[7] = off
	put(off, idx)
	off += int64(len(idx))
	var tr []byte
	fb := []any{}
	for _, x := range fields {
		tr = binary.BigEndian.AppendUint64(tr, uint64(x))
		fb = append(fb, bitsOf(uint64(x)))
	}
	tr = append(tr, "\ncsearch trlr 2\n"...)
	put(off, tr)
	f.Close()
	ix := index.Open(p)
	roots, names, gp := [][]int{}, [][]int{}, []any{}
	for q := range ix.Roots().All() {
		roots = append(roots, bytesOf(q.String()))
	}
	for q := range ix.Names(0, len(a.names)) {
		names = append(names, bytesOf(q.String()))
	}
	for _, l := range a.posts {
		gp = append(gp, map[string]any{"t": l.t, "ids": append([]int{}, ix.PostingList(uint32(l.t))...)})
	}
	c.Count("sparse_files", 1)
	c.Emit(Event{"kind": "sparse", "roots": pathsJSON(a.roots), "names": pathsJSON(a.names), "posts": posts, "fields": fb,
		"rootsB": bytesOf(string(rb)), "namesB": bytesOf(string(nb)), "indexB": bytesOf(string(idx)), "trailer": bytesOf(string(tr)),
		"got": map[string]any{"roots": roots, "names": names, "posts": gp}})
}

func (c *Ctx) farWriter() {
	if farIndex == nil {
		return
	}
	r := c.Rng
	d, err := os.Create(c.Tmp("d"))
	must(err)
	x, err := os.Create(c.Tmp("x"))
	must(err)
	defer func() { d.Close(); x.Close(); removeAll(d.Name(), x.Name()) }()
	var gaps []int64
	var counts []int
	for k := 1 + r.Intn(70); k > 0; k-- {
		g := int64(0)
		switch r.Intn(4) {
		case 0:
			g = 1<<uint(r.Intn(38)) + int64(r.Intn(3)) - 1
		case 1:
			g = int64(r.Intn(1000))
		}
		gaps = append(gaps, g)
		counts = append(counts, 1+r.Intn(30))
	}
	base := int64(0)
	if r.Intn(2) == 0 {
		base = 1<<32 + int64(r.Intn(1<<30))
	}
	offs, name := farIndex(d, x, base, gaps, counts)
	ents := []any{}
	for k := range offs {
		ents = append(ents, map[string]any{"t": k + 1, "count": counts[k], "off": bitsOf(uint64(offs[k]))})
	}
	c.Count("far_lists", len(offs))
	c.Emit(Event{"kind": "far", "entries": ents, "indexB": fileBytes(name)})
}

// ---- C09

// tryIndex reads lines "op path [length]" and answers each with "ok" or "bad".
func tryIndex(args []string) {
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Split(strings.TrimSuffix(line, "\n"), "\t")
		func() {
			res := "bad"
			defer func() {
				if e := recover(); e != nil {
					res = "bad"
				}
				fmt.Println(res)
			}()
			if f[0] == "cut" {
				var n int64
				fmt.Sscan(f[2], &n)
				if os.Truncate(f[1], n) != nil {
					os.Exit(3)
				}
			}
			ix := index.Open(f[1])
			if ix == nil {
				return
			}
			if f[0] == "check" && ix.Check() != nil {
				return
			}
			res = "ok"
		}()
	}
}

// trier runs index operations in a subprocess, which may well end.
type trier struct {
	c   *Ctx
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (t *trier) do(op string, args ...string) bool {
	if t.cmd == nil {
		t.cmd = exec.Command(os.Args[0], "tryindex")
		var err error
		t.in, err = t.cmd.StdinPipe()
		must(err)
		o, err := t.cmd.StdoutPipe()
		must(err)
		t.out = bufio.NewReader(o)
		must(t.cmd.Start())
	}
	io.WriteString(t.in, op+"\t"+strings.Join(args, "\t")+"\n")
	s, err := t.out.ReadString('\n')
	if err != nil {
		// it ended: refused
		t.in.Close()
		err := t.cmd.Wait()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			must(fmt.Errorf("helper failed"))
		}
		t.cmd = nil
		t.c.Count("ended", 1)
		return false
	}
	return s == "ok\n"
}

func (t *trier) close() {
	if t.cmd != nil {
		t.in.Close()
		t.cmd.Wait()
	}
}

// someIndex makes an index with the real code, by building, merging or both, in either format.
func (c *Ctx) someIndex(p string, small bool) {
	r := c.Rng
	n := r.Intn(40)
	if small {
		n = r.Intn(6)
	}
	switch r.Intn(4) {
	case 0, 1:
		var fs []file
		m := 60
		if small {
			m = 12
		}
		for _, nm := range someNames(r, n) {
			if len(nm) > 200 && small {
				continue
			}
			fs = append(fs, file{nm, text(r, m)})
		}
		var o buildOpt
		if r.Intn(2) == 0 {
			o.cap = 1 + r.Intn(100)
		}
		build(p, []string{"/"}, fs, o)
	default:
		universe := tricky
		cur := c.Tmp("s")
		r1, f1 := mergeInput(r, 1, universe)
		if small && len(f1) > 4 {
			f1 = f1[:4]
		}
		build(cur, r1, f1, buildOpt{})
		for k := 1 + r.Intn(3); k > 0; k-- {
			r2, f2 := mergeInput(r, 2, universe)
			if small && len(f2) > 4 {
				f2 = f2[:4]
			}
			nx, out := c.Tmp("t"), c.Tmp("u")
			build(nx, r2, f2, buildOpt{})
			index.Merge(out, cur, nx)
			removeAll(cur, nx)
			cur = out
		}
		must(os.Rename(cur, p))
	}
}

func runC09(c *Ctx, idx int) {
	r := c.Rng
	p := c.Tmp("ix")
	defer removeAll(p)
	t := &trier{c: c}
	defer t.close()
	switch idx % 4 {
	case 0: // cut short
		c.someIndex(p, r.Intn(2) == 0)
		if setWriteVersion != nil && r.Intn(5) == 0 {
			setWriteVersion(1)
			build(p, []string{"/a"}, []file{{"/a/b", text(r, 30)}, {"/a/c", text(r, 30)}}, buildOpt{})
			setWriteVersion(2)
		}
		data, err := os.ReadFile(p)
		expect(err)
		size := len(data)
		lens := map[int]bool{0: true, 1: true, 15: true, 16: true, 17: true, 80: true, 79: true, 95: true, 96: true}
		for k := 0; k < 120; k++ {
			lens[max(0, size-1-k)] = true
		}
		for k := 0; k < 150; k++ {
			lens[r.Intn(size)] = true
		}
		for k := 256; k < size; k += max(256, size/40) {
			lens[size-k] = true
		}
		ls := sortedKeys(lens)
		slices.Reverse(ls)
		q := c.Tmp("cut")
		must(os.WriteFile(q, data, 0666))
		if !t.do("open", q) {
			panic("a complete index is refused")
		}
		cuts := []any{}
		for _, l := range ls {
			if l >= size {
				continue
			}
			cuts = append(cuts, map[string]any{"len": l, "refused": !t.do("cut", q, fmt.Sprint(l))})
			c.Count("cuts", 1)
		}
		// csearch gives no answer either
		for k := 0; k < 2; k++ {
			l := ls[r.Intn(len(ls))]
			must(os.WriteFile(q, data[:min(l, size)], 0666))
			if l >= size {
				continue
			}
			var out bytes.Buffer
			cmd := exec.Command(filepath.Join(c.Bin, "csearch"), ".")
			cmd.Env = append(os.Environ(), "CSEARCHINDEX="+q)
			cmd.Stdout = &out
			must(cmd.Start())
			t := time.AfterFunc(patience(), func() { cmd.Process.Kill() })
			err := cmd.Wait()
			if !t.Stop() {
				didHang()
			}
			code := cmd.ProcessState.ExitCode()
			cuts = append(cuts, map[string]any{"len": l, "refused": err != nil && code != 0 && code != 1 && out.Len() == 0})
			c.Count("csearch_on_cut", 1)
		}
		removeAll(q)
		c.Emit(Event{"kind": "truncated", "size": size, "cuts": cuts})
	case 1: // built ones
		for k := 0; k < 4; k++ {
			c.someIndex(p, false)
			res := "ok"
			if !t.do("check", p) {
				res = "bad"
			}
			c.Count("checked", 1)
			c.Screen(Event{"kind": "built", "check": res}, res != "ok", k == 0)
		}
		if idx == 1 {
			// many blocks of posting index
			var fs []file
			for k := 0; k < 60; k++ {
				fs = append(fs, file{fmt.Sprintf("/r/%03d", k), bigText(r)})
			}
			build(p, []string{"/r"}, fs, buildOpt{})
			res := "ok"
			if !t.do("check", p) {
				res = "bad"
			}
			c.Count("checked", 1)
			c.Emit(Event{"kind": "built", "check": res})
		}
	default: // altered ones
		many := idx%16 == 2
		if many {
			// lists of many files
			var fs []file
			words := []string{"abcd\n", "abcde\n", "xyz\n"}
			for k, n := 0, []int{126, 127, 128, 129, 200, 255, 256, 257, 300}[r.Intn(9)]; k < n; k++ {
				d := words[0]
				switch r.Intn(40) {
				case 0:
					d = words[r.Intn(3)]
				case 1:
					d = "\n"
				}
				fs = append(fs, file{fmt.Sprintf("/r/%03d", k), []byte(d)})
			}
			build(p, []string{"/r"}, fs, buildOpt{})
			c.Count("many_files_altered", 1)
		} else {
			c.someIndex(p, true)
		}
		data, err := os.ReadFile(p)
		expect(err)
		if len(data) > 6000 {
			return
		}
		res := "ok"
		if !t.do("check", p) {
			res = "bad"
		}
		f := func(k int) int { return int(binary.BigEndian.Uint64(data[len(data)-80+8*k:])) }
		postData, nameIndex, postIndex, end := f(4), f(6), f(7), len(data)-80
		// the entries
		type entry struct{ at, off, count, clen int }
		var ents []entry
		for b := postIndex; b < end; b += 256 {
			off := 0
			for q := b; q+3 <= b+256 && data[q]|data[q+1]|data[q+2] != 0; {
				n1, l1 := binary.Uvarint(data[q+3:])
				n2, l2 := binary.Uvarint(data[q+3+l1:])
				off += int(n2)
				ents = append(ents, entry{q, postData + off, int(n1), l1})
				q += 3 + l1 + l2
			}
		}
		if len(ents) == 0 {
			return
		}
		changes := []any{}
		q := c.Tmp("alt")
		for k := 0; k < 40; k++ {
			e := ents[r.Intn(len(ents))]
			if many && e.count < 100 && r.Intn(3) > 0 {
				continue
			}
			at := map[int]byte{}
			set := func(o int, b byte) {
				if o >= postData && o < nameIndex || o >= postIndex && o < end {
					at[o] = b
				}
			}
			switch r.Intn(7) {
			case 0: // the list's trigram
				o := e.off + r.Intn(3)
				set(o, data[o]^byte(1<<r.Intn(8)))
			case 1: // the entry's trigram
				o := e.at + r.Intn(3)
				set(o, data[o]^byte(1<<r.Intn(8)))
			case 2: // the number of files
				if e.clen == 1 {
					set(e.at+3, byte(max(0, e.count+[]int{1, -1, 1, 2, -2, r.Intn(100)}[r.Intn(6)])))
				} else {
					set(e.at+3, data[e.at+3]^byte(1<<r.Intn(7)))
				}
			case 3: // the end of the list: before the next one
				nx := len(data)
				for _, g := range ents {
					if g.off > e.off && g.off < nx {
						nx = g.off
					}
				}
				if nx == len(data) {
					nx = nameIndex
				}
				for j := 1 + r.Intn(2); j > 0; j-- {
					o := nx - j
					set(o, data[o]^byte(1<<r.Intn(8)))
				}
			case 4: // anywhere in the lists
				for j := 1 + r.Intn(3); j > 0; j-- {
					o := postData + r.Intn(max(1, nameIndex-postData))
					set(o, byte(r.Intn(256)))
				}
			case 5: // the offset
				o := e.at + 3 + e.clen
				set(o, data[o]^byte(1<<r.Intn(7)))
			case 6: // the deltas
				o := e.off + 3
				set(o, data[o]^byte(1<<r.Intn(8)))
			}
			if len(at) == 0 {
				continue
			}
			d := slices.Clone(data)
			aj := []any{}
			for _, o := range sortedKeys(at) {
				d[o] = at[o]
				aj = append(aj, map[string]any{"off": o, "b": int(at[o])})
			}
			must(os.WriteFile(q, d, 0666))
			cr := "ok"
			if !t.do("check", q) {
				cr = "bad"
			}
			os.Remove(q)
			c.Count("alterations", 1)
			c.Count("alterations_"+cr, 1)
			changes = append(changes, map[string]any{"at": aj, "check": cr})
		}
		c.Emit(Event{"kind": "altered", "bytes": bytesOf(string(data)), "check": res, "changes": changes})
	}
}

// bigText has some thousands of trigrams.
func bigText(r *rand.Rand) []byte {
	var b []byte
	for k := 0; k < 3000; k++ {
		b = append(b, byte(' '+r.Intn(95)))
		if k%500 == 499 {
			b = append(b, '\n')
		}
	}
	return b
}
