package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
)

// Histories of changes to a file tree and runs of cindex (CodeSearch.tla).

func init() {
	props["C07"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(1200, 12000) }, Run: runC07}
	props["C18"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(1000, 10000) }, Run: runC18}
}

type entry struct {
	name string
	data []byte
	ok   bool // can be read
}

type sysNode struct {
	kind string // dir file arch other
	ok   bool
	data []byte
	ents []entry
}

// world is a file tree at base, an index, and what is recorded about them. Paths are relative to base: "/" is base.
type world struct {
	c                        *Ctx
	r                        *rand.Rand
	base, ixdir, ixname, tmp string
	home                     bool // the index is found by $HOME
	uid                      int
	fs                       map[string]sysNode
	cont                     *contents
	archs                    []any
	ops                      []Event
	tris                     map[int]bool
	roots                    []string // as the driver thinks
	exists                   bool
	files                    []file // in the index, as the driver thinks
	sus                      bool
	textNames                bool                      // names that are text only
	texts                    func(r *rand.Rand) []byte // contents
	stamps                   map[string]int            // if the effects of commands are watched
	around                   []string                  // directories to watch as well; the first is the home and working directory
	nofile                   int                       // how many files a command may have open
}

func newWorld(c *Ctx) *world {
	w := &world{c: c, r: c.Rng, fs: map[string]sysNode{"/": {kind: "dir", ok: true}}, cont: newContents(), archs: []any{}, tris: map[int]bool{}, texts: sysText}
	w.base = c.Tmp("tree")
	w.ixdir = c.Tmp("ixdir")
	w.tmp = c.Tmp("tmp")
	w.ixname = "index"
	for _, d := range []string{w.base, w.ixdir, w.tmp} {
		must(os.MkdirAll(d, 0755))
	}
	return w
}

func (w *world) close() {
	filepath.Walk(w.base, func(p string, info os.FileInfo, err error) error {
		if info != nil && info.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(w.base)
	os.RemoveAll(w.ixdir)
	os.RemoveAll(w.tmp)
}

func (w *world) real(v string) string {
	if v == "/" {
		return w.base
	}
	return w.base + v
}

func (w *world) virt(p string) []int {
	if p == w.base {
		return bytesOf("/")
	}
	if rest, ok := strings.CutPrefix(p, w.base); ok && rest != "" && rest[0] == '/' {
		return bytesOf(rest)
	}
	return bytesOf(p)
}

func (w *world) ix() string { return filepath.Join(w.ixdir, w.ixname) }

func inDir(p, d string) bool {
	return p != d && (d == "/" || strings.HasPrefix(p, d+"/"))
}

func parentOf(v string) string {
	d := v[:strings.LastIndexByte(v, '/')]
	if d == "" {
		return "/"
	}
	return d
}

// put makes a node, on disk and in the record. Its parent must be a directory.
func (w *world) put(v string, n sysNode) {
	p := w.real(v)
	must(os.RemoveAll(p))
	for q := range w.fs {
		if inDir(q, v) {
			delete(w.fs, q)
		}
	}
	w.fs[v] = n
	c := 0
	mode := os.FileMode(0644)
	switch n.kind {
	case "dir":
		must(os.Mkdir(p, 0755))
		if !n.ok {
			must(os.Chmod(p, []os.FileMode{0, 0444}[w.r.Intn(2)]))
		}
	case "file":
		if !n.ok {
			mode = 0
		}
		must(os.WriteFile(p, n.data, mode))
		c = w.cont.add(n.data)
		for t := range trigramsOf(n.data) {
			w.tris[t] = true
		}
	case "arch":
		must(os.WriteFile(p, w.archive(n.ents), 0644))
		a := []any{}
		for _, e := range n.ents {
			a = append(a, Event{"name": bytesOf(e.name), "c": w.cont.add(e.data), "ok": e.ok})
			for t := range trigramsOf(e.data) {
				w.tris[t] = true
			}
		}
		w.archs = append(w.archs, a)
		c = len(w.archs)
	case "other":
		switch w.r.Intn(4) {
		case 0:
			must(syscall.Mkfifo(p, 0644))
		case 1:
			must(os.Symlink("nowhere", p))
		default:
			// a link to something that is there
			var to []string
			for q := range w.fs {
				if q != v {
					to = append(to, q)
				}
			}
			sort.Strings(to)
			must(os.Symlink(w.real(to[w.r.Intn(len(to))]), p))
		}
	}
	w.note(Event{"op": "put", "path": bytesOf(v), "kind": n.kind, "ok": n.ok, "c": c})
}

// archive makes a zip archive; entries that are not ok cannot be read.
func (w *world) archive(ents []entry) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	if w.r.Intn(5) == 0 {
		z.SetComment("a comment")
	}
	for _, e := range ents {
		h := &zip.FileHeader{Name: e.name, Method: uint16(8 * w.r.Intn(2)), Modified: time.Unix(1e9, 0)}
		if !e.ok {
			// an unknown method, or a wrong checksum
			h.CompressedSize64 = uint64(len(e.data))
			h.UncompressedSize64 = uint64(len(e.data))
			h.Method = 99
			if w.r.Intn(2) == 0 {
				h.Method = 0
				h.CRC32 = 1
			}
			f, err := z.CreateRaw(h)
			must(err)
			_, err = f.Write(e.data)
			must(err)
			continue
		}
		f, err := z.CreateHeader(h)
		must(err)
		_, err = f.Write(e.data)
		must(err)
	}
	must(z.Close())
	return b.Bytes()
}

func (w *world) del(v string) {
	must(os.RemoveAll(w.real(v)))
	for q := range w.fs {
		if q == v || inDir(q, v) {
			delete(w.fs, q)
		}
	}
	w.note(Event{"op": "del", "path": bytesOf(v)})
}

func (w *world) move(from, to string) {
	must(os.RemoveAll(w.real(to)))
	must(os.Rename(w.real(from), w.real(to)))
	m := map[string]sysNode{}
	for q, n := range w.fs {
		switch {
		case q == from || inDir(q, from):
			m[to+q[len(from):]] = n
		case q == to || inDir(q, to):
		default:
			m[q] = n
		}
	}
	w.fs = m
	w.note(Event{"op": "move", "path": bytesOf(from), "to": bytesOf(to)})
}

// env is the environment of the commands.
func (w *world) env() []string {
	e := []string{"TMPDIR=" + w.tmp}
	if w.home {
		return append(e, "CSEARCHINDEX=", "HOME="+w.ixdir)
	}
	if w.around != nil {
		e = append(e, "HOME="+w.around[0])
	}
	return append(e, "CSEARCHINDEX="+w.ix())
}

// arg renders a path as an argument in directory cwd.
func (w *world) arg(v, cwd string) string {
	abs := w.real(v)
	s := abs
	if w.r.Intn(3) == 0 {
		if rel, err := filepath.Rel(cwd, abs); err == nil {
			s = rel
			if w.r.Intn(3) == 0 {
				s = "./" + s
			}
		}
	}
	switch w.r.Intn(8) {
	case 0:
		s += "/"
	case 1:
		s += "/."
	case 2:
		s = strings.Replace(s, "/", "//", 1)
	}
	if strings.HasPrefix(s, "-") {
		s = "./" + s
	}
	return s
}

// patience is how long a command may take. Once one did not end (which is an alarm), less.
func patience() time.Duration {
	if impatient.Load() {
		return 3 * time.Second
	}
	return 60 * time.Second
}

var impatient atomic.Bool
var hangs atomic.Int32

// didHang notes that a command did not end. After some of them there is enough evidence.
func didHang() {
	if noteHang() {
		panic("commands do not end")
	}
}

func noteHang() bool {
	impatient.Store(true)
	return hangs.Add(1) >= maxHangs
}

const maxHangs = 5

// runAs is execute with a user id.
func (w *world) exec(cwd, name string, args ...string) (string, string, int) {
	c := w.c
	cmd := exec.Command(filepath.Join(c.Bin, name), args...)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), w.env()...)
	if w.uid > 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(w.uid), Gid: uint32(w.uid)}}
	}
	if w.nofile > 0 {
		limitFiles(cmd, w.nofile)
	}
	var out bytes.Buffer
	var errs tailWriter
	cmd.Stdout, cmd.Stderr = &out, &errs
	must(cmd.Start())
	t := time.AfterFunc(patience(), func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		didHang()
		return out.String(), "no end within a minute", -2
	}
	if err == nil {
		return out.String(), errs.tail(500), 0
	}
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		must(err)
	}
	return out.String(), errs.tail(500), ee.ExitCode()
}

// note records an operation.
func (w *world) note(op Event) {
	if w.stamps != nil {
		op["after"] = w.snapshot()
	}
	w.ops = append(w.ops, op)
}

// limitFiles lets a command have no more than n open files at a time.
func limitFiles(cmd *exec.Cmd, n int) {
	cmd.Args = append([]string{"sh", "-c", fmt.Sprintf("ulimit -n %d && exec \"$0\" \"$@\"", n), cmd.Path}, cmd.Args[1:]...)
	cmd.Path = "/bin/sh"
}

// many makes a directory of n files or archives, many more than may be open at a time.
func (w *world) many(n int, zips bool) {
	w.nofile = 40
	d := w.newName()
	for w.has(d) {
		d = w.newName()
	}
	w.put(d, sysNode{kind: "dir", ok: true})
	var t [][]byte
	var es [][]entry
	for k := 0; k < 3; k++ {
		t = append(t, w.texts(w.r))
		es = append(es, []entry{{"e", t[k], true}, {"f/g", t[w.r.Intn(len(t))], true}})
	}
	for k := 0; k < n; k++ {
		if zips {
			w.put(fmt.Sprintf("%s/%d.zip", d, k), sysNode{kind: "arch", ok: true, ents: es[w.r.Intn(3)]})
		} else {
			w.put(fmt.Sprintf("%s/%d", d, k), sysNode{kind: "file", ok: true, data: t[w.r.Intn(3)]})
		}
	}
	w.c.Count("crowded_histories", 1)
}

// deep makes a long chain of directories, with something at some of them and at the end.
func (w *world) deep(zips bool) {
	r := w.r
	d := w.newName()
	for w.has(d) {
		d = w.newName()
	}
	n, long := 30+r.Intn(60), 0
	if r.Intn(3) == 0 {
		n, long = 5+r.Intn(10), 150+r.Intn(90)
	}
	for k := 0; k < n; k++ {
		w.put(d, sysNode{kind: "dir", ok: true})
		if r.Intn(n) < 4 || k == n-1 {
			w.put(d+"/f", sysNode{kind: "file", ok: true, data: w.texts(r)})
			if zips {
				w.put(d+"/z.zip", sysNode{kind: "arch", ok: true, ents: w.someEntries(r)})
			}
		}
		d += "/" + string(rune('a'+r.Intn(3))) + strings.Repeat("n", long)
	}
	w.c.Count("deep_trees", 1)
}

// vast makes an archive with very many entries.
func (w *world) vast() {
	r := w.r
	v := w.newName() + ".zip"
	for w.has(v) {
		v = w.newName() + ".zip"
	}
	var t [][]byte
	for k := 0; k < 3; k++ {
		t = append(t, w.texts(r))
	}
	var es []entry
	for k, n := 0, 100+r.Intn(250); k < n; k++ {
		name := fmt.Sprint(k)
		if k%7 == 0 {
			name = fmt.Sprint("d/", n-k)
		}
		es = append(es, entry{name, t[r.Intn(3)], true})
	}
	w.put(v, sysNode{kind: "arch", ok: true, ents: es})
	w.c.Count("vast_archives", 1)
}

// asNobody lets the commands run as an unprivileged user, if that is possible here.
func (w *world) asNobody() bool {
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	if os.Getuid() != 0 || cmd.Run() != nil {
		return false
	}
	for _, d := range append([]string{w.ixdir, w.tmp}, w.around...) {
		if os.Chown(d, 65534, 65534) != nil {
			return false
		}
	}
	w.uid = 65534
	if _, _, code := w.exec("/", "cindex", "-reset"); code != 0 {
		w.uid = 0
		return false
	}
	return true
}

// run runs cindex and records what it left.
func (w *world) run(args []string, reset, zip bool) {
	cwd := w.base
	if w.r.Intn(3) == 0 {
		var dirs []string
		for q, n := range w.fs {
			if n.kind == "dir" && n.ok {
				dirs = append(dirs, q)
			}
		}
		sort.Strings(dirs)
		cwd = w.real(dirs[w.r.Intn(len(dirs))])
		if w.uid > 0 {
			cwd = w.base
		}
	}
	var a []string
	if reset {
		a = append(a, "-reset")
	}
	if zip {
		a = append(a, "-zip")
	}
	for _, f := range []string{"-check", "-verbose", "-stats"} {
		if w.r.Intn(6) == 0 {
			a = append(a, f)
		}
	}
	var vargs [][]int
	for _, v := range args {
		vargs = append(vargs, bytesOf(v))
		a = append(a, w.arg(v, cwd))
	}
	_, errs, code := w.exec(cwd, "cindex", a...)
	w.c.Count("runs", 1)
	op := Event{"op": "run", "args": nonNil(vargs), "reset": reset, "zip": zip, "exit": code, "stderr": trunc(errs, 300), "cmd": strings.ToValidUTF8(strings.Join(a, " "), "?")}
	w.observe(op)
	w.note(op)
	w.think(args, reset, zip)
	if !w.thinks(op) {
		w.sus = true
	}
}

// hidden reports whether an element of v that does not lie above root is hidden.
func hidden(v, root string) bool {
	up := ""
	if root != "/" {
		up = parentOf(root)
	}
	if up == "/" {
		up = ""
	}
	for _, e := range strings.Split(strings.TrimPrefix(v, up), "/") {
		if e != "" && (strings.Contains(".#~", e[:1]) || e[len(e)-1] == '~') {
			return true
		}
	}
	return false
}

// think is RunIndex of spec/CodeSearch.tla, for screening.
func (w *world) think(args []string, reset, zip bool) {
	if reset {
		w.roots, w.files, w.exists = nil, nil, false
		if len(args) == 0 {
			return
		}
	}
	w.exists = true
	R := outermost(args)
	if len(args) == 0 {
		R = w.roots
	}
	var fs []file
	for _, f := range w.files {
		if !underAny(f.name, R) {
			fs = append(fs, f)
		}
	}
	for _, root := range R {
		if !w.has(root) {
			continue
		}
		for v, n := range w.fs {
			if v != root && !inDir(v, root) || hidden(v, root) || !n.ok || !validName(v) {
				continue
			}
			ok := true
			for d := v; d != "/"; {
				d = parentOf(d)
				ok = ok && w.fs[d].ok
			}
			if !ok {
				continue
			}
			switch {
			case n.kind == "file" && eligible(n.data) == 1:
				fs = append(fs, file{v, n.data})
			case n.kind == "arch" && zip && strings.HasSuffix(v, ".zip"):
				for _, e := range n.ents {
					if e.ok && validName(e.name) && eligible(e.data) == 1 {
						fs = append(fs, file{v + "\x01" + e.name, e.data})
					}
				}
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return pathLess(fs[i].name, fs[j].name) })
	w.files = fs
	w.roots = outermost(append(append([]string{}, w.roots...), R...))
}

// thinks reports whether a run left what the driver thinks it should.
func (w *world) thinks(op Event) bool {
	if op["exit"] != 0 || op["exists"] != w.exists || len(op["left"].([]string)) > 0 {
		return false
	}
	if !w.exists {
		return true
	}
	a := &absIndex{roots: w.roots}
	for _, f := range w.files {
		a.files = append(a.files, absFile{f.name, trigramsOf(f.data)})
	}
	list := op["list"].([][]int)
	if op["listexit"] != 0 || len(list) != len(w.roots) {
		return false
	}
	for k := range list {
		if stringOf(list[k]) != w.roots[k] {
			return false
		}
	}
	return op["got"].(*observed).sameAs(a)
}

// search runs csearch and records what it printed. All files in the index must be as they were when indexed.
func (w *world) search(rc reCase, o gopts) {
	raw := strings.TrimPrefix(strings.TrimPrefix(rc.pat, "(?i)"), "(?m)")
	g := &gcase{re: rc.re, pat: rc.pat, raw: raw, fold: rc.fold, o: o, caprun: 1000000}
	if strings.Contains(raw, "\x00") {
		return
	}
	for _, f := range w.files {
		if raw == "" && o.L && len(f.data) == 0 {
			return // listed, without a line that matches
		}
		if !rc.nwbOK(string(f.data)) {
			return
		}
		gf := gfile{name: f.name, nl: true}
		if s := string(f.data); s != "" {
			gf.nl = strings.HasSuffix(s, "\n")
			for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				g.add(&gf, l, 1)
			}
		}
		g.files = append(g.files, gf)
	}
	want := g.expect()
	args := append(g.flags(w.r), "--", raw)
	out, errs, code := w.exec("/", "csearch", args...)
	out = strings.ReplaceAll(out, w.base, "")
	w.c.Count("searches", 1)
	if want.any {
		w.c.Count("searches_with_matches", 1)
	}
	var all []string
	for _, f := range w.files {
		all = append(all, string(f.data))
	}
	op := Event{"op": "search", "re": rc.re, "pat": trunc(rc.pat, 2000), "orbits": orbitsOf(all...), "o": o, "out": runsOf(out), "exit": code, "stderr": trunc(errs, 300)}
	if out != want.out || code != 1-boolInt(want.any) {
		if w.sus {
			return // one is enough
		}
		w.sus = true
		// this one instead of the others
		w.ops = slices.DeleteFunc(w.ops, func(e Event) bool { return e["op"] == "search" })
		w.ops = append(w.ops, op)
		return
	}
	if !w.sus {
		w.ops = append(w.ops, op)
	}
}

// trim leaves only a few of the searches, for judging.
func (w *world) trim(n int) {
	if w.sus {
		return
	}
	k := 0
	for _, o := range w.ops {
		k += boolInt(o["op"] == "search")
	}
	w.ops = slices.DeleteFunc(w.ops, func(e Event) bool {
		if e["op"] == "search" && k > n && w.r.Intn(2) == 0 {
			k--
			return true
		}
		return false
	})
}

func nonNil[T any](x []T) []T {
	if x == nil {
		return []T{}
	}
	return x
}

func (w *world) observe(op Event) {
	st, err := os.Stat(w.ix())
	op["exists"] = err == nil
	left := []string{}
	for _, d := range []string{w.ixdir, w.tmp} {
		es, err := os.ReadDir(d)
		must(err)
		for _, e := range es {
			if d == w.ixdir && (e.Name() == w.ixname || d == w.base && w.has("/"+e.Name())) {
				continue
			}
			left = append(left, trunc(e.Name(), 100))
		}
	}
	op["left"] = left
	list := [][]int{}
	got := &observed{Roots: [][]int{}, Names: [][]int{}, Posts: []obPost{}}
	if err == nil && st.Size() > 0 {
		out, _, code := w.exec("/", "cindex", "-list")
		op["listexit"] = code
		if out != "" {
			for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
				list = append(list, w.virt(l))
			}
		}
		if code == 0 {
			_, got = readBack(w.ix(), w.tris, w.r)
			for k, n := range got.Names {
				got.Names[k] = w.virt(stringOf(n))
			}
			for k, n := range got.Roots {
				got.Roots[k] = w.virt(stringOf(n))
			}
		}
	} else {
		op["listexit"] = -1
	}
	op["list"] = list
	op["got"] = got
}

func (w *world) has(v string) bool { _, ok := w.fs[v]; return ok }

func stringOf(b []int) string {
	s := make([]byte, len(b))
	for k, x := range b {
		s[k] = byte(x)
	}
	return string(s)
}

func (w *world) event(kind string) Event {
	return Event{"kind": kind, "contents": w.cont.list, "arch": w.archs, "ops": w.ops}
}

// ---- generation

func sysText(r *rand.Rand) []byte {
	switch r.Intn(12) {
	case 0:
		return []byte("bin\x00ary\n")
	case 1:
		return []byte("not \xff utf-8\n")
	case 2:
		return bytes.Repeat([]byte("long "), 401)
	case 3:
		return nil
	}
	return text(r, 24)
}

func (w *world) paths(f func(v string, n sysNode) bool) []string {
	var s []string
	for v, n := range w.fs {
		if f(v, n) {
			s = append(s, v)
		}
	}
	sort.Strings(s)
	return s
}

func (w *world) pick(s []string) string { return s[w.r.Intn(len(s))] }

func (w *world) usableDirs() []string {
	return w.paths(func(v string, n sysNode) bool { return n.kind == "dir" && n.ok })
}

func (w *world) newName() string {
	for {
		n := component(w.r)
		switch w.r.Intn(30) {
		case 0:
			n = "x\x01y"
		case 1:
			n = "t\tb"
		case 2:
			n = "~a"
		case 3:
			n = "a#"
		case 4:
			n = "a."
		case 5:
			n = strings.Repeat("n", 200)
		}
		v := w.pick(w.usableDirs())
		if v != "/" {
			v += "/" + n
		} else {
			v = "/" + n
		}
		if w.r.Intn(8) == 0 {
			// a name that goes on where another ends
			if d := w.pick(w.paths(func(string, sysNode) bool { return true })); d != "/" {
				v = d + w.pick([]string{"a", "0", ".", "-", " ", "aa", "~"})
				if p := parentOf(v); !w.has(p) || w.fs[p].kind != "dir" || !w.fs[p].ok {
					continue
				}
			}
		}
		if w.textNames && !utf8.ValidString(v) {
			continue
		}
		if strings.Count(v, "/") < 6 && len(v) < 600 && !strings.HasSuffix(v, ".zip") {
			return v
		}
	}
}

func (w *world) someEntries(r *rand.Rand) []entry {
	seen := map[string]bool{}
	var es []entry
	for k := r.Intn(6); k > 0; k-- {
		n := strings.TrimPrefix(somePath(r, 3), "/")
		switch r.Intn(11) {
		case 10:
			n = []string{"./" + n, n + "//x", "b/../" + n, n + "/.", "./../" + n, "//" + n}[r.Intn(6)]
		case 0:
			n = "../" + n
		case 1:
			n = "/" + n
		case 2:
			n = "x\x01y"
		case 3:
			n = "in.zip"
		case 4:
			n = ".hidden"
		}
		if seen[n] || w.textNames && !utf8.ValidString(n) {
			continue
		}
		seen[n] = true
		es = append(es, entry{n, w.texts(r), r.Intn(8) > 0})
	}
	// entries that cannot be read must not be empty: those are not missed
	for k := range es {
		if len(es[k].data) == 0 {
			es[k].ok = true
		}
	}
	return es
}

// change changes something.
func (w *world) change(zips bool) {
	r := w.r
	switch k := r.Intn(12); {
	case k < 6:
		w.put(w.newName(), sysNode{kind: "file", ok: w.uid == 0 || r.Intn(3) > 0, data: w.texts(r)})
	case k < 8:
		v := w.newName()
		if r.Intn(8) == 0 {
			v += ".zip"
		}
		w.put(v, sysNode{kind: "dir", ok: w.uid == 0 || r.Intn(4) > 0})
	case k < 9:
		v := w.newName()
		if zips && r.Intn(3) > 0 {
			w.put(v+".zip", sysNode{kind: "arch", ok: true, ents: w.someEntries(r)})
		} else {
			w.put(v, sysNode{kind: "other", ok: true})
		}
	case k < 10:
		fs := w.paths(func(v string, n sysNode) bool { return n.kind == "file" || n.kind == "arch" })
		if len(fs) > 0 {
			v := w.pick(fs)
			n := w.fs[v]
			n.data = w.texts(r)
			n.ents = w.someEntries(r)
			w.put(v, n)
		}
	case k < 11:
		fs := w.paths(func(v string, n sysNode) bool { return v != "/" })
		if len(fs) > 0 {
			w.del(w.pick(fs))
		}
	default:
		fs := w.paths(func(v string, n sysNode) bool { return v != "/" && n.kind != "arch" })
		if len(fs) > 0 {
			from, to := w.pick(fs), w.newName()
			if from == to || inDir(to, from) || inDir(from, to) {
				return
			}
			if w.has(to) && w.fs[to].kind == "dir" {
				return
			}
			w.move(from, to)
		}
	}
}

// someArgs chooses paths to index.
func (w *world) someArgs() []string {
	r := w.r
	var a []string
	for k := r.Intn(4); k > 0; k-- {
		var v string
		switch r.Intn(8) {
		case 0:
			v = w.pick(w.paths(func(v string, n sysNode) bool { return true }))
		case 1:
			v = w.newName()
		case 2:
			if len(w.roots) > 0 {
				v = w.pick(w.roots)
			}
		case 3:
			if len(w.roots) > 0 {
				// beside a root, with a name that continues it
				v = w.pick(w.roots)
				if v == "/" {
					v = "/a"
				}
				v += []string{".", "!", "a", "/a", "/b", "~"}[r.Intn(6)]
			}
		case 4:
			if len(w.roots) > 0 && r.Intn(3) == 0 {
				if v = w.pick(w.roots); v != "/" {
					v = parentOf(v)
				}
			}
		default:
			v = w.pick(w.usableDirs())
			if v == "/" && r.Intn(3) > 0 {
				v = w.pick(w.usableDirs())
			}
		}
		if v == "" || strings.ContainsFunc(v, func(x rune) bool { return x < ' ' }) || len(v) > 500 || strings.HasSuffix(v, "/.") || v != filepath.Clean(v) {
			continue
		}
		a = append(a, v)
		if r.Intn(10) == 0 {
			a = append(a, v)
		}
	}
	return a
}

func (w *world) someRun(zip bool) {
	r := w.r
	args := w.someArgs()
	if !w.exists && len(args) == 0 {
		args = []string{w.pick(w.usableDirs())}
	}
	if strings.ContainsFunc(strings.Join(args, ""), func(x rune) bool { return x < ' ' }) {
		args = []string{"/"}
	}
	reset := len(args) > 0 && r.Intn(6) == 0 || len(args) == 0 && r.Intn(8) == 0
	w.run(args, reset, zip)
}

func runC07(c *Ctx, idx int) {
	r := c.Rng
	w := newWorld(c)
	defer w.close()
	gen := c.GenCases()
	if idx < len(gen) {
		w.replay(gen[idx])
		c.Count("generated_histories", 1)
		c.Emit(w.event("history"))
		return
	}
	switch r.Intn(8) {
	case 0:
		w.home = true
		w.ixname = ".csearchindex"
	case 1:
		w.ixdir = w.base
		w.ixname = ".csearchindex"
	case 2, 3:
		if w.asNobody() {
			c.Count("unprivileged_histories", 1)
		}
	}
	for k := 3 + r.Intn(12); k > 0; k-- {
		w.change(r.Intn(3) == 0)
	}
	if idx%40 == 13 {
		w.many(70, idx%80 == 13)
	}
	if idx%40 == 23 {
		w.deep(idx%80 == 23)
	}
	zips := r.Intn(3) == 0 || idx%80 == 13
	for k := 2 + r.Intn(5); k > 0; k-- {
		w.someRun(zips && r.Intn(2) == 0)
		for j := r.Intn(5); j > 0; j-- {
			w.change(r.Intn(3) == 0)
		}
	}
	w.someRun(zips)
	c.Count("histories", 1)
	c.Screen(w.event("history"), w.sus, idx%c.Pick(5, 20) == 0 || w.special(idx))
}

// replay does what TLC generated.
func (w *world) replay(raw json.RawMessage) {
	var h struct {
		Ops []struct {
			Op, Kind   string
			Path, To   []int
			C          int
			Args       [][]int
			Reset, Zip bool
		}
	}
	must(json.Unmarshal(raw, &h))
	texts := [][]byte{nil, []byte("one two\n"), []byte("two three four\n"), []byte("five\n"), []byte("no\x00ne\n")}
	for _, o := range h.Ops {
		switch o.Op {
		case "put":
			n := sysNode{kind: o.Kind, ok: true}
			switch o.Kind {
			case "file":
				n.data = texts[o.C]
			case "arch":
				n.ents = []entry{{"b", texts[1], true}, {"a/b", texts[3], true}, {"a.", texts[4], true}}
			}
			w.put(stringOf(o.Path), n)
		case "del":
			w.del(stringOf(o.Path))
		case "move":
			w.move(stringOf(o.Path), stringOf(o.To))
		case "run":
			var a []string
			for _, x := range o.Args {
				a = append(a, stringOf(x))
			}
			w.r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
			w.run(a, o.Reset, o.Zip)
		}
	}
}

// special reports whether TLC should judge a history in any case: those with many files, deep trees or large archives are rare.
func (w *world) special(idx int) bool {
	return idx >= 100 && idx < 200 && (idx%40 == 13 || idx%40 == 23 || idx%80 == 33)
}
