package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"slices"
	"time"
	"unicode/utf8"

	"github.com/google/codesearch/index"
)

func init() {
	props["C10"] = &Prop{N: func(c *Ctx) int { return nPairs + c.Pick(3, 6) + c.Pick(320, 3200) }, Run: runC10, Timeout: 300 * time.Second}
}

// seg is b repeated n times.
type seg struct {
	b []byte
	n int
}
type segJSON struct {
	B []int `json:"b"`
	N int   `json:"n"`
}

func segBytes(ss []seg) []byte {
	var r []byte
	for _, s := range ss {
		r = append(r, bytes.Repeat(s.b, s.n)...)
	}
	return r
}

func segsJSON(ss []seg) []segJSON {
	r := []segJSON{}
	for _, s := range ss {
		r = append(r, segJSON{bytesOf(string(s.b)), s.n})
	}
	return r
}

// segReader reads segments without holding them in memory.
type segReader struct {
	ss  []seg
	off int // in the first segment's current copy
}

func (s *segReader) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) && len(s.ss) > 0 {
		x := &s.ss[0]
		if x.n == 0 {
			s.ss = s.ss[1:]
			continue
		}
		m := copy(p[n:], x.b[s.off:])
		n += m
		s.off += m
		if s.off == len(x.b) {
			s.off = 0
			x.n--
		}
	}
	if n == 0 && len(s.ss) == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func cloneSegs(ss []seg) []seg { return append([]seg{}, ss...) }

// contexts of the byte pairs.
var pairContexts = []struct {
	pre, suf []byte
	pad      int // bytes before pre, so that the pair straddles a read
}{
	{nil, nil, 0},
	{[]byte("ab"), []byte("cd"), 0},
	{[]byte("\n"), []byte{0x80}, 0},
	{[]byte("a"), []byte{0xbf, 0xbf}, 0},
	{[]byte("é"), []byte{0x90, 0x80, 0x80}, 0},
	{[]byte{0xe2, 0x82}, nil, 0},
	{[]byte{0xf0}, []byte{0x9f, 0x98}, 0},
	{nil, []byte("\n"), 0},
}

var nPairs = len(pairContexts)

func runC10(c *Ctx, idx int) {
	log.SetOutput(io.Discard)
	defer log.SetOutput(os.Stderr)
	if idx < nPairs {
		runPairs(c, idx)
		return
	}
	idx -= nPairs
	if big := c.Pick(3, 6); idx < big {
		runBig(c, idx)
		return
	} else {
		idx -= big
	}
	runFiles(c, idx)
}

func runPairs(c *Ctx, idx int) {
	pc := pairContexts[idx]
	p := c.Tmp("ix")
	defer removeAll(p)
	ix := index.Create(p)
	r := c.Rng
	for x := 0; x < 256; x++ {
		for y := 0; y < 256; y++ {
			d := append(append(append([]byte{}, pc.pre...), byte(x), byte(y)), pc.suf...)
			var rd io.Reader = bytes.NewReader(d)
			if r.Intn(2) == 0 {
				rd = &oddReader{r, d, 1 + r.Intn(3), r.Intn(2) == 0, nil}
			}
			ix.Add(fmt.Sprintf("/%02x/%02x", x, y), rd)
		}
	}
	ix.Flush()
	acc := make([][]int, 256)
	for k := range acc {
		acc[k] = []int{}
	}
	rix := index.Open(p)
	n := len(rix.PostingQuery(&index.Query{Op: index.QAll}))
	for nm := range rix.Names(0, n) {
		var x, y int
		if _, err := fmt.Sscanf(nm.String(), "/%02x/%02x", &x, &y); err != nil {
			panic("unexpected name " + nm.String())
		}
		acc[x] = append(acc[x], y)
	}
	for x := range acc {
		c.Emit(Event{"kind": "pairs", "pre": bytesOf(string(append(append([]byte{}, pc.pre...), byte(x)))), "suf": bytesOf(string(pc.suf)), "acc": acc[x]})
		c.Count("pairs", 256)
	}
}

// runBig: files around 1 GB.
func runBig(c *Ctx, idx int) {
	r := c.Rng
	const gb = 1 << 30
	line := append(bytes.Repeat([]byte("0123456789abcdef"), 127-r.Intn(3)), '\n')
	size := gb + []int{0, 1, -1, 2, 1 << 20, 4095}[idx]
	ss := []seg{{line, size / len(line)}}
	if rest := size % len(line); rest > 0 {
		ss = append(ss, seg{bytes.Repeat([]byte("z"), rest), 1})
	}
	p := c.Tmp("ix")
	defer removeAll(p)
	ix := index.Create(p)
	ix.Add("/a", bytes.NewReader([]byte("before\n")))
	ix.Add("/b", &segReader{ss: cloneSegs(ss)})
	ix.Add("/c", bytes.NewReader([]byte("after zzz\n")))
	ix.Flush()
	c.Count("gigabyte_files", 1)
	rix := index.Open(p)
	acc := false
	n := len(rix.PostingQuery(&index.Query{Op: index.QAll}))
	for nm := range rix.Names(0, n) {
		acc = acc || nm.String() == "/b"
	}
	c.Emit(Event{"kind": "one", "segs": segsJSON(ss), "acc": acc})
	files := []secFile{{"/a", []seg{{[]byte("before\n"), 1}}, false}, {"/b", ss, false}, {"/c", []seg{{[]byte("after zzz\n"), 1}}, false}}
	tris := map[int]bool{}
	for _, f := range files {
		for t := range trigramsOf(capped(f.segs)) {
			tris[t] = true
		}
	}
	_, ob := readBack(p, tris, r)
	c.Emit(Event{"kind": "files", "roots": [][]int{}, "files": secJSON(files), "got": ob})
}

type secFile struct {
	name string
	segs []seg
	fail bool
}

func secJSON(fs []secFile) []Event {
	res := []Event{}
	for _, f := range fs {
		res = append(res, Event{"name": bytesOf(f.name), "segs": segsJSON(f.segs), "fail": f.fail})
	}
	return res
}

func capped(ss []seg) []byte {
	var t []byte
	for _, s := range ss {
		t = append(t, bytes.Repeat(s.b, min(s.n, 3))...)
	}
	return t
}

// distinct makes valid text with exactly n distinct trigrams.
func distinct(r *rand.Rand, n int, uni bool) []byte {
	seen := map[int]bool{}
	var b []byte
	line := 0
	for len(seen) < n {
		m := len(b)
		if line > 60+r.Intn(1800) {
			b = append(b, '\n')
			line = 0
		} else if uni && r.Intn(3) == 0 {
			b = utf8.AppendRune(b, rune(0x80+r.Intn(0x3000)))
		} else {
			b = append(b, byte(' '+r.Intn(95)))
		}
		line += len(b) - m
		var fresh []int
		for i := max(0, m-2); i+3 <= len(b); i++ {
			if t := int(b[i])<<16 | int(b[i+1])<<8 | int(b[i+2]); !seen[t] && !slices.Contains(fresh, t) {
				fresh = append(fresh, t)
			}
		}
		if len(seen)+len(fresh) > n {
			b = b[:m]
			continue
		}
		for _, t := range fresh {
			seen[t] = true
		}
	}
	return b
}

// lineOf makes a line of n bytes (its newline included if nl).
func lineOf(r *rand.Rand, n int, nl bool) []seg {
	if nl {
		n--
	}
	var ss []seg
	if r.Intn(2) == 0 && n >= 3 {
		// multi-byte
		ss = append(ss, seg{[]byte("日"), n / 3})
		n %= 3
	}
	if n > 0 {
		ss = append(ss, seg{[]byte{"ab ~"[r.Intn(4)]}, n})
	}
	if nl {
		ss = append(ss, seg{[]byte("\n"), 1})
	}
	return ss
}

var lineLengths = []int{1, 2, 1998, 1999, 2000, 2001, 2002, 2003, 4000, 4096, 65536}

// someSegs makes a content of a family; the families differ in which limit they are near.
func someSegs(r *rand.Rand, fam int) []seg {
	var ss []seg
	short := func() seg { return seg{append(text(r, 12), '\n'), 1} }
	switch fam {
	case 0: // line lengths
		for k := r.Intn(3); k > 0; k-- {
			ss = append(ss, short())
		}
		n := lineLengths[r.Intn(len(lineLengths))]
		if r.Intn(3) > 0 {
			n = 1999 + r.Intn(4)
		}
		// possibly across the end of the reader's buffer
		if r.Intn(4) == 0 {
			pad := 1<<20 - r.Intn(2100) - len(segBytes(ss))
			ss = append(ss, seg{[]byte("pad pad\n"), pad / 8}, seg{[]byte("\n"), pad % 8})
		}
		last := r.Intn(2) == 0
		ss = append(ss, lineOf(r, n, !last)...)
		if !last {
			for k := r.Intn(3); k > 0; k-- {
				ss = append(ss, short())
			}
		}
	case 1: // NUL somewhere
		k := r.Intn(5)
		if k != 0 {
			ss = append(ss, short(), seg{[]byte("xyz\n"), []int{0, 1, 10, 1 << 18, 1<<18 - 1, 1<<18 + 1}[r.Intn(6)]})
			if k == 1 {
				ss = append(ss, seg{[]byte("abc")[:r.Intn(4)], 1})
			}
		}
		ss = append(ss, seg{[]byte{0}, 1 + r.Intn(2)})
		if r.Intn(2) == 0 {
			ss = append(ss, short())
		}
	case 2: // a pair across the end of a read
		bad := [][]byte{[]byte("a\x80"), []byte("\xc3a"), []byte("\xff"), []byte("a\xf8"), []byte("\xe2\x82\xf9"), []byte("é"), []byte("日本"), []byte("\U0001f600"), {0xc3, 0xc3}, {0xbf, 0xff}}
		pre := (1 << 20) - r.Intn(4)
		ss = append(ss, seg{[]byte("pad pad\n"), pre / 8}, seg{[]byte("b"), pre % 8}, seg{bad[r.Intn(len(bad))], 1}, short())
	case 3: // short
		d := text(r, 3)
		d = d[:min(len(d), r.Intn(5))]
		ss = append(ss, seg{d, 1})
	case 4: // invalid in other ways
		bad := []string{"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf0\x80\x80\x80", "\xc3", "a\xe2\x82", "\xe2\x82\n", "é\x80", "\x80", "\xbf\xbf", "\xef\xbf\xbe", "\xed\x9f\xbf", "\xee\x80\x80"}
		ss = append(ss, seg{[]byte(bad[r.Intn(len(bad))]), 1})
		if r.Intn(2) == 0 {
			ss = append([]seg{short()}, ss...)
		}
		if r.Intn(2) == 0 {
			ss = append(ss, short())
		}
	default:
		ss = append(ss, seg{text(r, 40), 1 + r.Intn(3)})
		if r.Intn(3) == 0 {
			ss = append(ss, seg{text(r, 10), r.Intn(5)})
		}
	}
	return ss
}

var badNames = []string{"", "\n", "a\nb", "/a\x01b", "/r/x.zip\x01entry", "\x1f", "/r/tab\there", "/r/\x00", "x\x1f", "\x02/y", "/r/cr\r"}
var oddNames = []string{" ", "/r/ x", "/r/\x7f", "/r/\xff\xfe", "/r/é", "~", "/r/x.zip", "/r/a\x80", "/r/!"}

func runFiles(c *Ctx, idx int) {
	r := c.Rng
	var fs []secFile
	n := 2 + r.Intn(14)
	names := []string{}
	for range n {
		nm := somePath(r, 3)
		switch r.Intn(8) {
		case 0:
			nm = badNames[r.Intn(len(badNames))]
		case 1:
			nm = oddNames[r.Intn(len(oddNames))]
		case 2:
			nm += "\x01"[:r.Intn(2)]
		}
		names = append(names, nm)
	}
	names = sortUnique(names)
	tri := -1
	if idx%4 == 0 {
		tri = r.Intn(len(names))
	}
	heavy := 0
	dir := ""
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
		}
	}()
	for k, nm := range names {
		f := secFile{name: nm}
		fam := r.Intn(8)
		if fam == 0 || fam == 2 || fam == 1 {
			if heavy++; heavy > 3 {
				fam = 5
			}
		}
		if k == tri {
			m := 19998 + r.Intn(5)
			if r.Intn(8) == 0 {
				m = 30000
			}
			d := distinct(r, m, r.Intn(2) == 0)
			f.segs = []seg{{d, 1}}
			if r.Intn(3) == 0 {
				// more of the same trigrams
				f.segs = append(f.segs, seg{d[:bytes.IndexByte(d, '\n')+1], 0})
			}
			c.Count("near_trigram_limit", 1)
		} else {
			f.segs = someSegs(r, fam)
		}
		f.fail = r.Intn(8) == 0
		fs = append(fs, f)
	}
	p := c.Tmp("ix")
	defer removeAll(p)
	ix := index.Create(p)
	ix.LogSkip = r.Intn(2) == 0
	ix.Verbose = r.Intn(2) == 0
	ix.Zip = r.Intn(3) == 0
	if setPostCap != nil && r.Intn(3) == 0 {
		setPostCap(ix, 5+r.Intn(200))
	}
	roots := []string{}
	for k := range fs {
		f := &fs[k]
		d := segBytes(f.segs)
		if f.fail && r.Intn(3) == 0 && validName(f.name) {
			// not there, or a directory, instead of a failing reader
			dir = c.Tmp("d")
			must(os.MkdirAll(dir+"/sub", 0755))
			f.name = dir
			if r.Intn(2) == 0 {
				f.name = dir + "/missing"
			}
			ix.AddFile(f.name)
			c.Count("unreadable", 1)
			continue
		}
		if f.fail {
			d = d[:r.Intn(len(d)+1)]
			c.Count("failing_readers", 1)
		}
		if r.Intn(6) == 0 && !f.fail && validName(f.name) && !(ix.Zip && len(f.name) > 4 && f.name[len(f.name)-4:] == ".zip") {
			// a real file given to Add
			t := c.Tmp("f")
			must(os.WriteFile(t, d, 0644))
			o, err := os.Open(t)
			must(err)
			ix.Add(f.name, o)
			o.Close()
			os.Remove(t)
			c.Count("real_files", 1)
			continue
		}
		ix.Add(f.name, someReader(r, d, f.fail))
	}
	ix.Flush()
	c.Count("files", len(fs))
	// the trigrams of all files, those that should have been skipped included
	tris := map[int]bool{}
	for _, f := range fs {
		t := trigramsOf(capped(f.segs))
		m := 0
		for _, k := range sortedKeys(t) {
			if m++; f.fail && m > 300 {
				break
			}
			tris[k] = true
		}
	}
	_, ob := readBack(p, tris, r)
	sus := c.filesSuspicious(fs, ob)
	size := 0
	for _, f := range fs {
		size += len(capped(f.segs))
	}
	c.Screen(Event{"kind": "files", "roots": pathsJSON(roots), "files": secJSON(fs), "got": ob}, sus, size < 12000 || idx%c.Pick(16, 160) == 0)
}

// filesSuspicious compares with the driver's own transcription.
func (c *Ctx) filesSuspicious(fs []secFile, ob *observed) bool {
	a := &absIndex{}
	for _, f := range fs {
		e := eligible(segBytes(f.segs))
		if e < 0 && slices.ContainsFunc(ob.Names, func(x []int) bool { return slices.Equal(x, bytesOf(f.name)) }) {
			e = 1
		}
		if validName(f.name) && !f.fail && e == 1 {
			a.files = append(a.files, absFile{f.name, trigramsOf(segBytes(f.segs))})
		}
	}
	return !ob.sameAs(a)
}
