package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"io"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/google/codesearch/index"
)

// file is a file to be indexed.
type file struct {
	name string
	data []byte
}

// abstract index, the driver's own model, for making scenarios and for screening.
type absFile struct {
	name string
	tri  map[int]bool
}
type absIndex struct {
	roots []string
	files []absFile
}

func key(b byte) byte {
	if b == '/' {
		return 0
	}
	return b
}

// pathLess is PathLess of spec/Paths.tla.
func pathLess(p, q string) bool {
	for i := 0; i < len(p) && i < len(q); i++ {
		if a, b := key(p[i]), key(q[i]); a != b {
			return a < b
		}
	}
	return len(p) < len(q)
}

func under(p, root string) bool {
	if p == root {
		return true
	}
	return root != "" && len(p) > len(root) && strings.HasPrefix(p, root) &&
		(root[len(root)-1] == '/' || p[len(root)] == '/' || p[len(root)] == 1)
}

func underAny(p string, roots []string) bool {
	for _, r := range roots {
		if under(p, r) {
			return true
		}
	}
	return false
}

func sortPaths(p []string) {
	sort.SliceStable(p, func(i, j int) bool { return pathLess(p[i], p[j]) })
}

func outermost(roots []string) []string {
	var res []string
	for i, r := range roots {
		ok := true
		for j, s := range roots {
			if i != j && r != s && under(r, s) || r == s && j < i {
				ok = false
			}
		}
		if ok {
			res = append(res, r)
		}
	}
	sortPaths(res)
	return res
}

func trigramsOf(data []byte) map[int]bool {
	m := map[int]bool{}
	for i := 0; i+3 <= len(data); i++ {
		m[int(data[i])<<16|int(data[i+1])<<8|int(data[i+2])] = true
	}
	return m
}

// eligible is Eligible of spec/TextFilter.tla: 1 yes, 0 no, -1 free.
func eligible(data []byte) int {
	line := 0
	for i, b := range data {
		if b == 0 || b >= 0xf8 {
			return 0
		}
		if i > 0 {
			x := data[i-1]
			cont := b&0xc0 == 0x80
			if x < 0x80 && cont || x >= 0xc0 && !cont {
				return 0
			}
		}
		line++
		if line > 2000 {
			return 0
		}
		if b == '\n' {
			line = 0
		}
	}
	if len(data) > 20000 && len(trigramsOf(data)) > 20000 {
		return 0
	}
	if !utf8.Valid(data) {
		return -1
	}
	return 1
}

// validStored is ValidStored of spec/TextFilter.tla.
func validStored(n string) bool {
	a, e, ok := strings.Cut(n, "\x01")
	if !ok {
		return validName(n)
	}
	return validName(a) && validName(e) && strings.HasSuffix(a, ".zip")
}

func validName(n string) bool {
	for i := range len(n) {
		if n[i] < ' ' {
			return false
		}
	}
	return n != ""
}

// oddReader delivers data in pieces of odd sizes.
type oddReader struct {
	r       *rand.Rand
	data    []byte
	max     int
	eofWith bool // io.EOF together with the last piece
	err     error
}

func (o *oddReader) Read(p []byte) (int, error) {
	if len(o.data) == 0 {
		if o.err != nil {
			return 0, o.err
		}
		return 0, io.EOF
	}
	n := 1 + o.r.Intn(o.max)
	n = min(n, len(p), len(o.data))
	copy(p, o.data[:n])
	o.data = o.data[n:]
	if len(o.data) == 0 && o.eofWith {
		if o.err != nil {
			return n, o.err
		}
		return n, io.EOF
	}
	return n, nil
}

var errOdd = errors.New("read failed")

func someReader(r *rand.Rand, data []byte, fail bool) io.Reader {
	var err error
	if fail {
		err = errOdd
	}
	switch r.Intn(5) {
	case 0:
		return &oddReader{r, data, 1, false, err}
	case 1:
		return &oddReader{r, data, 7, r.Intn(2) == 0, err}
	case 2:
		return &oddReader{r, data, 5000, r.Intn(2) == 0, err}
	}
	if fail {
		return &oddReader{r, data, 1 << 20, r.Intn(2) == 0, err}
	}
	return bytes.NewReader(data)
}

type buildOpt struct {
	cap     int              // spill capacity, 0: the usual
	flush   func(k int) bool // explicit spill after the k-th file
	readers *rand.Rand       // odd readers
	failing map[int]bool
}

// build makes an index with the real writer.
func build(out string, roots []string, files []file, o buildOpt) {
	ix := index.Create(out)
	if o.cap > 0 && setPostCap != nil {
		setPostCap(ix, o.cap)
	}
	var rs []index.Path
	for _, r := range roots {
		rs = append(rs, index.MakePath(r))
	}
	ix.AddRoots(rs)
	for k := 0; k < len(files); k++ {
		f := files[k]
		if arch, _, ok := strings.Cut(f.name, "\x01"); ok {
			// the entries of an archive
			j := k
			for j < len(files) && strings.HasPrefix(files[j].name, arch+"\x01") {
				j++
			}
			ix.Zip = true
			z := zipFile(out+".z", arch+"\x01", files[k:j])
			ix.Add(arch, z)
			z.Close()
			os.Remove(out + ".z")
			k = j - 1
			continue
		}
		ix.Zip = false
		var rd io.Reader = bytes.NewReader(f.data)
		if o.readers != nil {
			rd = someReader(o.readers, f.data, o.failing[k])
		}
		ix.Add(f.name, rd)
		if o.flush != nil && flushPost != nil && o.flush(k) {
			flushPost(ix)
		}
	}
	ix.Flush()
}

// zipFile writes the files, less the prefix of their names, to an archive and opens it.
func zipFile(path, prefix string, files []file) *os.File {
	w, err := os.Create(path)
	must(err)
	z := zip.NewWriter(w)
	for i := range files {
		// not in order
		f := files[(i*7+3)%len(files)]
		if len(files)%7 == 0 {
			f = files[len(files)-1-i]
		}
		e, err := z.CreateHeader(&zip.FileHeader{Name: f.name[len(prefix):], Method: uint16(8 * (i % 2))})
		must(err)
		_, err = e.Write(f.data)
		must(err)
	}
	must(z.Close())
	must(w.Close())
	f, err := os.Open(path)
	must(err)
	return f
}

// observed is what was read from a real index.
type observed struct {
	Roots [][]int  `json:"roots"`
	Names [][]int  `json:"names"`
	Posts []obPost `json:"posts"`
}
type obPost struct {
	T   int   `json:"t"`
	IDs []int `json:"ids"`
}

// readBack reads roots, names, and the posting lists of the given trigrams (and some others).
func readBack(path string, tris map[int]bool, r *rand.Rand) (*index.Index, *observed) {
	ix := index.Open(path)
	ob := &observed{Roots: [][]int{}, Names: [][]int{}, Posts: []obPost{}}
	for p := range ix.Roots().All() {
		ob.Roots = append(ob.Roots, bytesOf(p.String()))
	}
	n := len(ix.PostingQuery(&index.Query{Op: index.QAll}))
	for p := range ix.Names(0, n) {
		ob.Names = append(ob.Names, bytesOf(p.String()))
	}
	probe := map[int]bool{}
	for t := range tris {
		probe[t] = true
	}
	if r != nil {
		k := 0
		for t := range tris {
			// neighbours and random ones
			probe[(t+r.Intn(3)-1)&0xffffff] = true
			if k++; k > 40 {
				break
			}
		}
		for range 10 {
			probe[r.Intn(1<<24)] = true
		}
		probe[0xffffff] = true
		probe[0xfffffe] = true
		probe[1] = true
		probe[0] = true
	}
	for _, t := range sortedKeys(probe) {
		ids := ix.PostingList(uint32(t))
		if len(ids) == 0 && !tris[t] && r.Intn(8) > 0 {
			continue
		}
		ob.Posts = append(ob.Posts, obPost{t, append([]int{}, ids...)})
	}
	return ix, ob
}

// sameAs compares an observation with the driver's model.
func (ob *observed) sameAs(a *absIndex) bool {
	if len(ob.Names) != len(a.files) || len(ob.Roots) != len(a.roots) {
		return false
	}
	for i := range ob.Names {
		if !slices.Equal(ob.Names[i], bytesOf(a.files[i].name)) {
			return false
		}
	}
	for i := range ob.Roots {
		if !slices.Equal(ob.Roots[i], bytesOf(a.roots[i])) {
			return false
		}
	}
	seen := map[int]bool{}
	for _, p := range ob.Posts {
		seen[p.T] = true
		j := 0
		for i, f := range a.files {
			if f.tri[p.T] {
				if j >= len(p.IDs) || p.IDs[j] != i {
					return false
				}
				j++
			}
		}
		if j != len(p.IDs) {
			return false
		}
	}
	for _, f := range a.files {
		for t := range f.tri {
			if !seen[t] {
				return false
			}
		}
	}
	return true
}

func (a *absIndex) tris() map[int]bool {
	m := map[int]bool{}
	for _, f := range a.files {
		for t := range f.tri {
			m[t] = true
		}
	}
	return m
}

// expected is what an index of these files should be (contents of doubtful eligibility must not occur).
func expected(roots []string, files []file, failing map[int]bool) *absIndex {
	a := &absIndex{roots: roots}
	for k, f := range files {
		if validStored(f.name) && !failing[k] && eligible(f.data) == 1 {
			a.files = append(a.files, absFile{f.name, trigramsOf(f.data)})
		}
	}
	return a
}

func mergeAbs(a, b *absIndex) *absIndex {
	m := &absIndex{roots: outermost(append(append([]string{}, a.roots...), b.roots...))}
	for _, f := range a.files {
		if !underAny(f.name, b.roots) {
			m.files = append(m.files, f)
		}
	}
	m.files = append(m.files, b.files...)
	sort.SliceStable(m.files, func(i, j int) bool { return pathLess(m.files[i].name, m.files[j].name) })
	return m
}

// contents shares equal contents among files.
type contents struct {
	list [][]int
	ids  map[string]int
}

func newContents() *contents { return &contents{list: [][]int{}, ids: map[string]int{}} }

func (c *contents) add(data []byte) int {
	id, ok := c.ids[string(data)]
	if !ok {
		c.list = append(c.list, bytesOf(string(data)))
		id = len(c.list) // from 1
		c.ids[string(data)] = id
	}
	return id
}

type fileJSON struct {
	Name []int `json:"name"`
	C    int   `json:"c"`
	Fail bool  `json:"fail"`
}

func (c *contents) files(fs []file, failing map[int]bool) []fileJSON {
	r := []fileJSON{}
	for k, f := range fs {
		r = append(r, fileJSON{bytesOf(f.name), c.add(f.data), failing[k]})
	}
	return r
}

func pathsJSON(p []string) [][]int {
	r := [][]int{}
	for _, x := range p {
		r = append(r, bytesOf(x))
	}
	return r
}

// component makes a path component of the kinds that sort around '/'.
func component(r *rand.Rand) string {
	pool := []string{"a", "b", "a.b", "a b", "a-b", "a!", "ab", "aa", "a0", "A", "a\x7f", "é", "日", "a~", ".b", "#a", "a~", "c", "z", "a\x80"}
	return pool[r.Intn(len(pool))]
}

func somePath(r *rand.Rand, depth int) string {
	s := ""
	for k := 1 + r.Intn(depth); k > 0; k-- {
		s += "/" + component(r)
	}
	if r.Intn(12) == 0 {
		s += ".zip"
	}
	return s
}

// sortUnique sorts names and removes duplicates.
func sortUnique(names []string) []string {
	sortPaths(names)
	return slices.Compact(names)
}

// text makes a small text over few trigrams.
func text(r *rand.Rand, max int) []byte {
	al := []string{"abc", "ab\n", "xyz \n", "aé日\n", "abcdefghijklmnopqrstuvwxyz\n", "\x01\x02\x7f\n", "\U0001f600\U0010ffffa"}[r.Intn(7)]
	rs := []rune(al)
	var b []byte
	for k := r.Intn(max + 1); k > 0; k-- {
		b = utf8.AppendRune(b, rs[r.Intn(len(rs))])
	}
	return b
}

func removeAll(paths ...string) {
	for _, p := range paths {
		os.Remove(p)
	}
}
