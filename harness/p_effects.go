package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"syscall"
)

// What commands change (C28).

func init() {
	props["C28"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(300, 4000) }, Run: runC28, Net: true}
}

// stamp stands for all there is to know of what is at p.
func (w *world) stamp(p string) int {
	st, err := os.Lstat(p)
	if err != nil {
		return 0
	}
	s := fmt.Sprint(st.Mode(), st.ModTime().UnixNano())
	if x, ok := st.Sys().(*syscall.Stat_t); ok {
		s += fmt.Sprint(" ", x.Ctim, x.Ino, x.Uid, x.Nlink)
	}
	switch {
	case st.Mode().IsRegular():
		b, err := os.ReadFile(p)
		must(err)
		s += fmt.Sprintf(" %x", sha256.Sum256(b))
	case st.Mode()&os.ModeSymlink != 0:
		l, err := os.Readlink(p)
		must(err)
		s += " " + l
	}
	if w.stamps[s] == 0 {
		w.stamps[s] = len(w.stamps) + 1
	}
	return w.stamps[s]
}

type stampAt struct {
	P []int `json:"p"`
	S int   `json:"s"`
}

func (w *world) snapshot() map[string]any {
	tree := []stampAt{}
	must(filepath.Walk(w.base, func(p string, info os.FileInfo, err error) error {
		must(err)
		tree = append(tree, stampAt{w.virt(p), w.stamp(p)})
		return nil
	}))
	left := []string{}
	for _, d := range append([]string{w.ixdir, w.tmp}, w.around...) {
		es, err := os.ReadDir(d)
		must(err)
		for _, e := range es {
			if d != w.ixdir || e.Name() != w.ixname {
				left = append(left, trunc(e.Name(), 100))
			}
		}
	}
	return map[string]any{"tree": tree, "index": w.stamp(w.ix()), "left": left}
}

// effects is Step of spec/Effects.tla, for screening.
func (w *world) effects() bool {
	if len(w.ops) < 2 {
		return true
	}
	o, s, t := w.ops[len(w.ops)-1], w.ops[len(w.ops)-2]["after"].(map[string]any), w.ops[len(w.ops)-1]["after"].(map[string]any)
	left := t["left"].([]string)
	same := reflect.DeepEqual(s["tree"], t["tree"])
	if len(t["tree"].([]stampAt)) != len(w.fs) {
		return false
	}
	switch o["op"] {
	case "put", "del", "move":
		return s["index"] == t["index"] && len(left) == 0
	case "run":
		gone := o["reset"] == true && len(o["args"].([][]int)) == 0
		return same && len(left) == 0 && (t["index"] == 0) == gone
	}
	return same && s["index"] == t["index"] && len(left) == 0
}

// read runs a command that only reads.
func (w *world) read() {
	r := w.r
	pats := []string{"", ".", "one", "t.o|e", "[a-z]+ ", "(?i)TWO", "\\bx", "(", "a**", "^$", "zzz"}
	pat := pats[r.Intn(len(pats))]
	files := w.paths(func(v string, n sysNode) bool { return n.kind == "file" || n.kind == "arch" || n.kind == "dir" })
	op := Event{"op": "read"}
	web := func(path string, q url.Values) {
		resp := w.c.web().get(path, q)
		op["cmd"] = fmt.Sprint("csweb ", trunc(path, 100), q, resp.code)
	}
	command := func(name string, args ...string) {
		_, _, code := w.exec(w.pick([]string{w.around[0], w.base}), name, args...)
		op["cmd"] = trunc(fmt.Sprint(name, args, code), 300)
	}
	w.unhang()
	switch k := r.Intn(12); k {
	case 0, 1, 2:
		var a []string
		for _, f := range []string{"-n", "-i", "-h", "-l", "-c", "-brute", "-verbose", "-html", "-0", "-nosuchflag"} {
			if r.Intn(7) == 0 {
				a = append(a, f)
			}
		}
		if r.Intn(4) == 0 {
			a = append(a, "-f", pats[r.Intn(len(pats))])
		}
		command("csearch", append(a, "--", pat)...)
	case 3, 4:
		a := []string{"--", pat}
		for k := r.Intn(4); k > 0; k-- {
			a = append(a, w.real(w.pick(files)))
		}
		if r.Intn(4) == 0 {
			a = append(a, w.base+"/no such file")
		}
		if r.Intn(2) == 0 {
			a = append([]string{"-n"}, a...)
		}
		command("cgrep", a...)
	case 5, 6:
		a := []string{"-list"}
		for _, f := range []string{"-check", "-reset", "-verbose", "-stats", "-zip"} {
			if r.Intn(3) == 0 {
				a = append(a, f)
			}
		}
		if r.Intn(4) == 0 {
			a = append(a, w.base)
		}
		command("cindex", a...)
	case 7:
		command("cindex", w.pick([]string{"-nosuchflag", "-list=x", "-h", "-reset=x"}), w.base)
	case 8:
		if w.exists {
			q := url.Values{"q": {pat}}
			if r.Intn(3) == 0 {
				q["f"] = []string{pats[r.Intn(len(pats))]}
			}
			web("/", q)
		} else {
			command("csearch", pat)
		}
	case 9:
		web("/show"+w.real(w.pick(files)), nil)
	case 10:
		web("/show"+w.real(w.pick(files))+[]string{"/", "/nosuch", "/..", "~nosuch"}[r.Intn(4)], nil)
	default:
		web([]string{"/_static/viewer.js", "/_static/", "/_static/nosuch", "/nosuch", "/", "/show"}[r.Intn(6)], nil)
	}
	w.c.Count("reads", 1)
	w.note(op)
}

func runC28(c *Ctx, idx int) {
	r := c.Rng
	w := newWorld(c)
	defer w.close()
	os.Remove(w.ixdir)
	w.ixdir = filepath.Dir(c.web().index)
	must(os.MkdirAll(w.ixdir, 0755))
	w.textNames = true
	w.texts = func(r *rand.Rand) []byte {
		if r.Intn(30) > 0 {
			return sysText(r)
		}
		// large
		return bytes.Repeat(append(text(r, 200), "one\n"...), 1+r.Intn(6000))
	}
	w.around = []string{c.Tmp("home"), c.web().dir}
	must(os.MkdirAll(w.around[0], 0755))
	defer os.RemoveAll(w.around[0])
	w.stamps = map[string]int{}
	sus := false
	check := func() { sus = sus || !w.effects() }
	if gen := c.GenCases(); idx < len(gen) {
		w.replay(gen[idx])
		for k := 0; k < 4; k++ {
			w.read()
			check()
		}
		c.Count("generated_histories", 1)
		c.Screen(w.effectsEvent(), sus, true)
		return
	}
	if idx%c.Pick(300, 500) == 99 {
		w.spill()
		check()
	} else if r.Intn(4) == 0 && w.asNobody() {
		c.Count("unprivileged_histories", 1)
	}
	for len(w.ops) < 3+idx%6 {
		w.change(r.Intn(2) == 0)
	}
	if r.Intn(20) == 0 {
		w.deep(true)
	}
	if r.Intn(4) == 0 {
		// an archive of large entries
		var es []entry
		for k := 1 + r.Intn(4); k > 0; k-- {
			es = append(es, entry{fmt.Sprint("e", k), bytes.Repeat(append(text(r, 200), "one\n"...), 1+r.Intn(6000)), true})
		}
		w.put(w.newName()+".zip", sysNode{kind: "arch", ok: true, ents: es})
	}
	for k := 2 + r.Intn(4); k > 0; k-- {
		w.someRun(r.Intn(2) == 0)
		check()
		for j := 1 + r.Intn(5); j > 0; j-- {
			w.read()
			check()
		}
		for j := r.Intn(3); j > 0; j-- {
			w.change(r.Intn(3) == 0)
			check()
		}
		if r.Intn(2) == 0 {
			w.damage()
			check()
			w.read()
			check()
		}
	}
	c.Count("histories", 1)
	c.Screen(w.effectsEvent(), sus, idx%c.Pick(3, 20) == 0)
}

// damage makes entries of archives unreadable.
func (w *world) damage() {
	as := w.paths(func(v string, n sysNode) bool { return n.kind == "arch" && len(n.ents) > 0 })
	if len(as) == 0 {
		return
	}
	v := w.pick(as)
	n := w.fs[v]
	n.ents = append([]entry{}, n.ents...)
	for k := range n.ents {
		n.ents[k].ok = len(n.ents[k].data) == 0 || w.r.Intn(3) == 0
	}
	w.put(v, n)
	w.c.Count("archives_damaged", 1)
}

// effectsEvent leaves out what the texts are.
func (w *world) effectsEvent() Event {
	for _, o := range w.ops {
		delete(o, "got")
	}
	e := w.event("effects")
	none := make([][]int, len(w.cont.list))
	for k := range none {
		none[k] = []int{}
	}
	e["contents"] = none
	return e
}

// spill makes so much to index that cindex cannot keep all trigrams in memory.
func (w *world) spill() {
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789_"
	var es []entry
	for k := 0; k < 600; k++ {
		t := make([]byte, 0, 20500)
		for len(t) < 20500 {
			if len(t)%100 == 99 {
				t = append(t, '\n')
			} else {
				t = append(t, letters[w.r.Intn(len(letters))])
			}
		}
		es = append(es, entry{fmt.Sprint(k), t, true})
	}
	w.put("/spill.zip", sysNode{kind: "arch", ok: true, ents: es})
	clear(w.tris)
	for k := 0; k < 2; k++ {
		w.run([]string{"/"}, k == 0, true)
	}
	w.c.Count("spilling_runs", 2)
	w.del("/spill.zip")
}
