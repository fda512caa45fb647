package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"
)

// Commands and the index they work on (C31).

func init() {
	props["C31"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(700, 6000) }, Run: runC31, Net: true}
}

// places are directories below top with indexes in them.
type places struct {
	*world
	top     string
	dirs    [][]string // where they are
	ro      map[string]bool
	spoiled map[[32]byte]string
	known   map[string]int // stamps
	table   []any
}

var placeNames = []string{".csearchindex", "index", "an index", "ix.1", "x~", "%41"}

func (p *places) path(at []string) string { return filepath.Join(p.top, filepath.Join(at...)) }

func (p *places) mkdir(at ...string) {
	d := p.path(at)
	must(os.MkdirAll(d, 0755))
	if p.uid > 0 {
		must(os.Chown(d, p.uid, p.uid))
	}
	p.dirs = append(p.dirs, at)
	p.did(Event{"op": "mkdir", "at": at})
}

type indexAt struct {
	At []string `json:"at"`
	S  int      `json:"s"`
}

// indexes looks for indexes in all directories.
func (p *places) indexes() []indexAt {
	res := []indexAt{}
	for _, d := range p.dirs {
		es, err := os.ReadDir(p.path(d))
		must(err)
		for _, e := range es {
			at := append(slices.Clone(d), e.Name())
			if p.isDir(at) || strings.HasSuffix(e.Name(), "~") && !slices.Contains(placeNames, e.Name()) {
				continue // a leftover of a command that failed
			}
			res = append(res, indexAt{at, p.stampOf(at)})
		}
	}
	return res
}

func (p *places) isDir(at []string) bool {
	return slices.ContainsFunc(p.dirs, func(d []string) bool { return slices.Equal(d, at) })
}

// stampOf stands for all there is to know about an index.
func (p *places) stampOf(at []string) int {
	f := p.path(at)
	st, err := os.Lstat(f)
	must(err)
	s := fmt.Sprint(st.Mode(), st.ModTime().UnixNano())
	if x, ok := st.Sys().(*syscall.Stat_t); ok {
		s += fmt.Sprint(" ", x.Ctim, x.Ino)
	}
	b := []byte{}
	if st.Mode().IsRegular() {
		b, err = os.ReadFile(f)
		must(err)
	}
	sum := sha256.Sum256(b)
	s += fmt.Sprintf(" %x", sum)
	if p.known[s] == 0 {
		p.known[s] = len(p.known) + 1
		row := Event{"st": "sound", "got": 0}
		if w := p.spoiled[sum]; w != "" {
			row["st"] = w
		} else if !st.Mode().IsRegular() || len(b) < 100 {
			row["st"] = "odd"
		} else {
			_, got := readBack(f, p.tris, p.r)
			for k, n := range got.Names {
				got.Names[k] = p.virt(stringOf(n))
			}
			for k, n := range got.Roots {
				got.Roots[k] = p.virt(stringOf(n))
			}
			row["got"] = got
		}
		p.table = append(p.table, row)
	}
	return p.known[s]
}

func (p *places) state(at []string) string {
	if _, err := os.Lstat(p.path(at)); err != nil {
		return "none"
	}
	return p.table[p.stampOf(at)-1].(Event)["st"].(string)
}

func (p *places) did(op Event) {
	op["after"] = p.indexes()
	p.ops = append(p.ops, op)
}

// follow adds what became of the index to the last changes of the tree.
func (p *places) follow(n int) {
	for _, o := range p.ops[n:] {
		if o["after"] == nil {
			o["after"] = p.indexes()
		}
	}
}

// order is a command to be: where, with which index and what else.
type order struct {
	op         string
	cwd, home  []string
	named, abs bool
	ix         []string // elements of the path of the index
	at         []string // where that is
	list       bool
	reset      bool
	check      bool
	usage      bool
	args       []string
}

func (p *places) env(o *order) []string {
	env := slices.DeleteFunc(os.Environ(), func(s string) bool { return strings.HasPrefix(s, "CSEARCHINDEX=") })
	home := p.path(o.home)
	if p.r.Intn(5) == 0 {
		home += "/"
	}
	env = append(env, "TMPDIR="+p.tmp, "HOME="+home)
	switch {
	case o.named && o.abs:
		env = append(env, "CSEARCHINDEX="+p.top+"/"+strings.Join(o.ix, "/"))
	case o.named:
		env = append(env, "CSEARCHINDEX="+strings.Join(o.ix, "/"))
	case p.r.Intn(2) == 0:
		env = append(env, "CSEARCHINDEX=")
	}
	return env
}

// names makes up the path of an index at at.
func (p *places) names(o *order, at []string) {
	r := p.r
	o.named = true
	o.abs = r.Intn(2) == 0
	if o.abs {
		o.ix = slices.Clone(at)
	} else {
		k := 0
		for k < len(at)-1 && k < len(o.cwd) && at[k] == o.cwd[k] {
			k++
		}
		if r.Intn(4) == 0 {
			k = r.Intn(k + 1)
		}
		o.ix = nil
		for range len(o.cwd) - k {
			o.ix = append(o.ix, "..")
		}
		o.ix = append(o.ix, at[k:]...)
	}
	if r.Intn(4) == 0 {
		k := r.Intn(len(o.ix))
		if o.abs || k > 0 {
			o.ix = slices.Insert(o.ix, k, "")
		}
	}
	if r.Intn(4) == 0 {
		o.ix = slices.Insert(o.ix, r.Intn(len(o.ix)), ".")
	}
	o.at = at
}

func (p *places) command(o *order) {
	env := p.env(o)
	op := Event{"op": o.op, "cwd": nonNil(o.cwd), "home": nonNil(o.home), "named": o.named, "abs": o.abs, "ix": nonNil(o.ix),
		"list": o.list, "reset": o.reset, "check": o.check, "usage": o.usage}
	vargs := [][]int{}
	var a []string
	var clean []string // what else the command writes
	cwd := p.path(o.cwd)
	switch o.op {
	case "cindex":
		for _, f := range []struct {
			on bool
			s  string
		}{{o.list, "-list"}, {o.reset, "-reset"}, {o.check, "-check"}, {o.usage, p.pick([]string{"-nosuchflag", "-reset=x", "-zipp"})},
			{p.r.Intn(6) == 0, "-verbose"}, {p.r.Intn(6) == 0, "-stats"}} {
			if f.on {
				a = append(a, f.s)
			}
		}
		if p.r.Intn(10) == 0 {
			a = append(a, "-cpuprofile", p.tmp+"/profile")
			clean = append(clean, p.tmp+"/profile")
		}
		p.r.Shuffle(len(a), func(i, j int) {
			if !slices.Contains(a, "-cpuprofile") {
				a[i], a[j] = a[j], a[i]
			}
		})
		for _, v := range o.args {
			vargs = append(vargs, bytesOf(v))
			a = append(a, p.arg(v, cwd))
		}
	case "csearch":
		a = append(a, "-l", "needle")
	}
	op["args"] = vargs
	if o.op == "csweb" {
		p.web(o, op, env, cwd)
	} else {
		cmd := exec.Command(filepath.Join(p.c.Bin, o.op), a...)
		cmd.Dir = cwd
		cmd.Env = env
		if p.uid > 0 {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(p.uid), Gid: uint32(p.uid)}}
		}
		var out bytes.Buffer
		var errs tailWriter
		cmd.Stdout, cmd.Stderr = &out, &errs
		must(cmd.Start())
		t := time.AfterFunc(patience(), func() { cmd.Process.Kill() })
		err := cmd.Wait()
		if !t.Stop() {
			didHang()
		}
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			must(err)
		}
		op["exit"] = cmd.ProcessState.ExitCode()
		op["stderr"] = trunc(errs.tail(300), 300)
		lines := [][]int{}
		if s := out.String(); s != "" && (o.op == "csearch" || o.list) {
			for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				lines = append(lines, p.virt(l))
			}
		}
		op["out"] = lines
	}
	for _, f := range clean {
		os.Remove(f)
	}
	op["cmd"] = strings.ToValidUTF8(strings.Join(a, " "), "?")
	p.c.Count("commands", 1)
	if op["exit"] != 0 {
		p.c.Count("commands_that_fail", 1)
	}
	if !o.named {
		p.c.Count("home_indexes", 1)
	} else if !o.abs {
		p.c.Count("relative_indexes", 1)
	}
	p.did(op)
}

// web starts a csweb and asks it.
func (p *places) web(o *order, op Event, env []string, cwd string) {
	w := p.c.startWeb(env, cwd, p.uid)
	defer w.stop()
	resp := w.get("/", url.Values{"q": {"needle"}})
	p.c.Count("webs", 1)
	lines := [][]int{}
	op["exit"] = 1
	if resp.code == 200 {
		op["exit"] = 0
		parts, _ := parsePage(resp.body)
		for _, l := range elements(parts, "a", "href") {
			if k := strings.LastIndexByte(l.text, ':'); k >= 0 {
				lines = append(lines, p.virt(l.text[:k]))
			}
		}
	}
	op["out"] = lines
}

func runC31(c *Ctx, idx int) {
	w := newWorld(c)
	w.textNames = true
	defer w.close()
	p := &places{world: w, ro: map[string]bool{}, spoiled: map[[32]byte]string{}, known: map[string]int{}}
	p.top = c.Tmp("top")
	must(os.MkdirAll(p.top, 0755))
	defer os.RemoveAll(p.top)
	if w.asNobody() {
		c.Count("unprivileged", 1)
	}
	w.texts = func(*rand.Rand) []byte { return []byte(fmt.Sprintf("a needle %d\n", w.r.Intn(40))) }
	if gen := c.GenCases(); idx < len(gen) {
		p.replay(gen[idx])
		c.Count("generated_sessions", 1)
	} else {
		p.session()
		c.Count("sessions", 1)
	}
	e := w.event("places")
	e["table"] = nonNil(p.table)
	for _, d := range p.dirs {
		os.Chmod(p.path(d), 0755)
	}
	c.Screen(e, false, true)
}

func (p *places) session() {
	r := p.r
	p.mkdir("h1")
	p.mkdir("h2")
	p.mkdir("h1", "sub")
	if r.Intn(2) == 0 {
		p.mkdir("h2", "x y")
	}
	p.edit("/a", "dir")
	p.edit("/b", "dir")
	p.edit("/a/f", "file")
	p.edit("/b/f", "file")
	var locs [][]string
	for _, d := range p.dirs {
		locs = append(locs, append(slices.Clone(d), ".csearchindex"))
		for k := r.Intn(3); k > 0; k-- {
			locs = append(locs, append(slices.Clone(d), p.pick(placeNames)))
		}
	}
	dirs := func() []string { return p.paths(func(v string, n sysNode) bool { return n.kind == "dir" }) }
	for k := 16 + r.Intn(16); k > 0; k-- {
		switch x := r.Intn(16); {
		case x < 3:
			d := p.pick(dirs())
			if d == "/" {
				d = ""
			}
			v := d + "/" + p.pick([]string{"f", "g", "h", "a", "b.c", "d e"})
			if r.Intn(4) == 0 && p.has(v) {
				p.drop(v)
			} else if !p.has(v) {
				p.edit(v, p.pick([]string{"file", "file", "dir"}))
			}
		case x == 3:
			at := locs[r.Intn(len(locs))]
			switch p.state(at) {
			case "sound":
				p.spoil(at, p.pick([]string{"bad", "cut"}))
			case "bad", "cut":
				p.remove(at)
			}
		case x == 4:
			from, to := locs[r.Intn(len(locs))], locs[r.Intn(len(locs))]
			if p.state(from) != "none" && !slices.Equal(from, to) && !p.ro[p.path(to[:len(to)-1])] {
				p.copyTo(from, to)
			}
		case x == 5:
			p.chmod(p.dirs[r.Intn(len(p.dirs))])
		case x < 8 && len(p.ro) > 0:
			p.unlock()
		default:
			p.someCommand(locs)
		}
	}
}

func (p *places) someCommand(locs [][]string) {
	r := p.r
	o := &order{op: "cindex"}
	o.home = p.dirs[r.Intn(len(p.dirs))]
	o.cwd = p.dirs[r.Intn(len(p.dirs))]
	if r.Intn(3) == 0 {
		o.cwd = nil
	}
	if r.Intn(3) == 0 {
		o.at = append(slices.Clone(o.home), ".csearchindex")
	} else {
		at := locs[r.Intn(len(locs))]
		if is := p.indexes(); len(is) > 0 && r.Intn(2) == 0 {
			at = is[r.Intn(len(is))].At
		}
		if r.Intn(20) == 0 {
			at = append(slices.Clone(at[:len(at)-1]), "nowhere", "index")
		}
		p.names(o, at)
	}
	st := p.state(o.at)
	switch x := r.Intn(9); {
	case x == 0 || x == 1:
		o.op = "csearch"
		if st == "bad" {
			return
		}
	case x == 2 && r.Intn(4) == 0:
		if st != "sound" {
			return
		}
		o.op = "csweb"
	default:
		o.list = r.Intn(6) == 0
		o.reset = r.Intn(6) == 0
		o.check = r.Intn(4) == 0
		o.usage = r.Intn(25) == 0
		for k := r.Intn(4); k > 0; k-- {
			o.args = append(o.args, p.pick(p.paths(func(v string, n sysNode) bool { return true })))
		}
		if len(o.args) > 0 && r.Intn(10) == 0 {
			o.args = append(o.args, "/nosuch")
		}
		if o.reset && !o.list && len(o.args) > 0 && st != "none" && p.ro[p.path(o.at[:len(o.at)-1])] {
			return
		}
		if st == "bad" && !o.usage && !(o.reset && !o.list) {
			o.check = true
		}
	}
	p.command(o)
}

func (p *places) edit(v, kind string) {
	n := len(p.ops)
	node := sysNode{kind: kind, ok: true}
	if kind == "file" {
		node.data = p.texts(nil)
	}
	p.put(v, node)
	p.follow(n)
}

func (p *places) drop(v string) {
	n := len(p.ops)
	p.del(v)
	p.follow(n)
}

func (p *places) write(at []string, b []byte) {
	f := p.path(at)
	must(os.WriteFile(f, b, 0644))
	if p.uid > 0 {
		must(os.Chown(f, p.uid, p.uid))
	}
}

func (p *places) spoil(at []string, st string) {
	b, err := os.ReadFile(p.path(at))
	must(err)
	if st == "cut" {
		b = b[:p.r.Intn(len(b))]
		switch p.r.Intn(4) {
		case 0:
			b = b[:max(0, len(b)-1-p.r.Intn(3))]
		case 1:
			b = b[:0]
		}
	} else {
		b = wrongList(b, p.r.Intn(1000))
		if b == nil {
			return
		}
	}
	p.write(at, b)
	p.spoiled[sha256.Sum256(b)] = st
	p.c.Count("spoiled_"+st, 1)
	p.did(Event{"op": "spoil", "at": at, "st": st})
}

// wrongList changes the trigram at the head of a posting list, or returns nil.
func wrongList(data []byte, n int) []byte {
	f := func(k int) int { return int(binary.BigEndian.Uint64(data[len(data)-80+8*k:])) }
	postData, postIndex, end := f(4), f(7), len(data)-80
	var at []int
	for b := postIndex; b < end; b += 256 {
		off := 0
		for q := b; q+3 <= b+256 && data[q]|data[q+1]|data[q+2] != 0; {
			_, l1 := binary.Uvarint(data[q+3:])
			n2, l2 := binary.Uvarint(data[q+3+l1:])
			off += int(n2)
			at = append(at, postData+off)
			q += 3 + l1 + l2
		}
	}
	if len(at) == 0 {
		return nil
	}
	data = slices.Clone(data)
	data[at[n%len(at)]+n%3] ^= 64
	return data
}

func (p *places) remove(at []string) {
	must(os.Remove(p.path(at)))
	p.did(Event{"op": "remove", "at": at})
}

func (p *places) copyTo(from, to []string) {
	b, err := os.ReadFile(p.path(from))
	must(err)
	p.write(to, b)
	p.did(Event{"op": "copy", "at": from, "to": to})
}

// chmod makes a directory read-only, or writable again.
func (p *places) chmod(at []string) {
	if p.uid == 0 {
		return
	}
	d := p.path(at)
	p.ro[d] = !p.ro[d]
	mode, perm := "rw", os.FileMode(0755)
	if p.ro[d] {
		mode, perm = "ro", 0555
		p.c.Count("read_only", 1)
	}
	must(os.Chmod(d, perm))
	p.did(Event{"op": "chmod", "at": at, "mode": mode})
}

// unlock makes a directory writable again.
func (p *places) unlock() {
	for _, d := range p.dirs {
		if p.ro[p.path(d)] {
			p.chmod(d)
			return
		}
	}
}

// replay does what TLC generated.
func (p *places) replay(raw json.RawMessage) {
	var h struct {
		Ops []struct {
			Op, Kind, St, Mode        string
			At, To, Cwd, Home, Ix     []string
			Path                      []int
			C                         int
			Named, Abs                bool
			List, Reset, Check, Usage bool
			Args                      [][]int
		}
	}
	must(json.Unmarshal(raw, &h))
	for _, o := range h.Ops {
		switch o.Op {
		case "mkdir":
			p.mkdir(o.At...)
		case "put":
			n := len(p.ops)
			node := sysNode{kind: o.Kind, ok: true}
			if o.Kind == "file" {
				node.data = []byte(fmt.Sprintf("a needle %d\n", o.C))
			}
			p.put(stringOf(o.Path), node)
			p.follow(n)
		case "del":
			p.drop(stringOf(o.Path))
		case "spoil":
			if p.state(o.At) == "sound" {
				p.spoil(o.At, o.St)
			}
		case "remove":
			if p.state(o.At) != "none" {
				p.remove(o.At)
			}
		case "copy":
			if p.state(o.At) != "none" {
				p.copyTo(o.At, o.To)
			}
		case "chmod":
			if p.ro[p.path(o.At)] != (o.Mode == "ro") {
				p.chmod(o.At)
			}
		default:
			q := &order{op: o.Op, cwd: o.Cwd, home: o.Home, named: o.Named, abs: o.Abs, ix: o.Ix, list: o.List, reset: o.Reset, check: o.Check, usage: o.Usage}
			for _, a := range o.Args {
				q.args = append(q.args, stringOf(a))
			}
			p.command(q)
		}
	}
}
