package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Interrupted and failing runs of cindex (CindexCrash.tla).

func init() {
	props["C08"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(16, 240) }, Run: runC08}
}

// crashWorld records indexes by number: the same bytes are the same index.
type crashWorld struct {
	*world
	seen    []Event
	ids     map[string]int
	saved   []byte
	temps   int // temporary files that killed runs left
	sampled []any
}

func newCrashWorld(c *Ctx) *crashWorld {
	return &crashWorld{world: newWorld(c), seen: []Event{}, ids: map[string]int{}, sampled: []any{}}
}

// note returns the number of the index that is there now, 0 if there is none.
func (w *crashWorld) note() int {
	data, err := os.ReadFile(w.ix())
	if err != nil {
		return 0
	}
	id, ok := w.ids[string(data)]
	if !ok {
		e := Event{}
		w.observe(e)
		w.seen = append(w.seen, e)
		id = len(w.seen)
		w.ids[string(data)] = id
	}
	return id
}

func (w *crashWorld) leftovers() []string {
	left := []string{}
	es, err := os.ReadDir(w.ixdir)
	must(err)
	for _, e := range es {
		if e.Name() != w.ixname {
			left = append(left, e.Name())
		}
	}
	es, err = os.ReadDir(w.tmp)
	must(err)
	if len(es) > w.temps {
		left = append(left, fmt.Sprintf("%d temporary files", len(es)-w.temps))
	}
	return left
}

// state describes the files beside the index.
func (w *crashWorld) state() string {
	s := ""
	es, err := os.ReadDir(w.ixdir)
	must(err)
	for _, e := range es {
		if e.Name() != w.ixname {
			i, err := e.Info()
			must(err)
			s += fmt.Sprintf("%s:%d ", e.Name(), i.Size())
		}
	}
	return s
}

// attempt runs cindex once, with a fault.
func (w *crashWorld) attempt(args []string, flags []string, zip bool, f fault, what string) ([]sysop, bool) {
	c := w.c
	a := []string{filepath.Join(c.Bin, "cindex")}
	a = append(a, flags...)
	if zip {
		a = append(a, "-zip")
	}
	vargs := [][]int{}
	for _, v := range args {
		vargs = append(vargs, bytesOf(v))
		a = append(a, w.real(v))
	}
	env := []string{"PATH=" + os.Getenv("PATH")}
	env = append(env, w.env()...)
	errs := c.Tmp("stderr")
	t := &tracee{dirs: map[string]string{w.ixdir: "index", w.tmp: "tmp"}, cwd: "/", env: env, argv: a, stderr: errs, fault: f}
	ops, exit, hit, err := t.run()
	must(err)
	c.Count("runs", 1)
	text, _ := os.ReadFile(errs)
	os.Remove(errs)
	if f.N == 0 || !hit {
		what = ""
	} else {
		c.Count("interrupted_runs", 1)
		c.Count("fault_"+strings.TrimSuffix(f.Kind, "+"), 1)
	}
	op := Event{"op": "run", "args": vargs, "reset": false, "zip": zip, "exit": exit, "fault": what, "ix": w.note(), "left": w.leftovers()}
	if exit != 0 {
		s := string(text)
		op["stderr"] = s[max(0, len(s)-200):]
	}
	es, _ := os.ReadDir(w.tmp)
	w.temps = len(es)
	w.ops = append(w.ops, op)
	return ops, hit
}

func (w *crashWorld) save() {
	var err error
	w.saved, err = os.ReadFile(w.ix())
	if err != nil {
		panic(fmt.Sprint(err, w.ops[len(w.ops)-1]))
	}
	w.ops = append(w.ops, Event{"op": "save"})
}

func (w *crashWorld) restore() {
	for _, d := range []string{w.ixdir, w.tmp} {
		must(os.RemoveAll(d))
		must(os.Mkdir(d, 0755))
	}
	w.temps = 0
	must(os.WriteFile(w.ix(), w.saved, 0600))
	w.ops = append(w.ops, Event{"op": "restore"})
}

func (w *crashWorld) event() Event {
	e := w.world.event("faults")
	e["seen"] = w.seen
	e["sampled"] = w.sampled
	return e
}

// bulk puts a large file, whose trigrams are only sampled: its contents have a number but no text.
func (w *crashWorld) bulk(v string, size int) {
	var b bytes.Buffer
	for b.Len() < size {
		for range 60 {
			b.WriteByte(byte(33 + w.r.Intn(94)))
		}
		b.WriteByte('\n')
	}
	data := b.Bytes()
	p := w.real(v)
	must(os.WriteFile(p, data, 0644))
	w.cont.list = append(w.cont.list, []int{})
	id := len(w.cont.list)
	all := trigramsOf(data)
	for _, t := range sortedKeys(all)[:8] {
		w.tris[t] = true
	}
	w.fs[v] = sysNode{kind: "file", ok: true, data: data}
	w.ops = append(w.ops, Event{"op": "put", "path": bytesOf(v), "kind": "file", "ok": true, "c": id})
	w.sampled = append(w.sampled, Event{"c": id, "all": all})
}

// finish cuts the trigrams of large files down to those that were looked for.
func (w *crashWorld) finish() {
	for _, s := range w.sampled {
		e := s.(Event)
		all := e["all"].(map[int]bool)
		asked := map[int]bool{}
		for _, s := range w.seen {
			for _, p := range s["got"].(*observed).Posts {
				if all[p.T] {
					asked[p.T] = true
				}
			}
		}
		delete(e, "all")
		e["tri"] = sortedKeys(asked)
	}
}

// faultsFor lists what may happen at an operation.
func (w *crashWorld) faultsFor(o sysop) []string {
	var k []string
	if o.Mut {
		k = append(k, "kill", "after")
	}
	if o.Write {
		k = append(k, "torn", "short", "ENOSPC+", "EIO")
	}
	switch o.Name {
	case "openat", "open":
		k = append(k, []string{"EACCES", "ENFILE", "EIO"}[w.r.Intn(3)])
		if o.Mut {
			k = append(k, "ENOSPC+")
		}
	case "copy_file_range", "splice", "sendfile":
		k = append(k, "ENOSYS")
	case "mmap":
		k = append(k, "ENOMEM")
	case "renameat", "renameat2", "rename":
		k = append(k, "EIO", "ENOSPC", "EROFS")
	case "unlinkat", "unlink":
		k = append(k, []string{"EIO", "EACCES", "EROFS"}[w.r.Intn(3)])
	default:
		k = append(k, []string{"EIO", "EACCES", "ESTALE"}[w.r.Intn(3)])
	}
	return k
}

func (w *crashWorld) someFlags() []string {
	var f []string
	for _, x := range []string{"-check", "-verbose", "-stats"} {
		if w.r.Intn(8) == 0 {
			f = append(f, x)
		}
	}
	return f
}

// startArgs are some directories there are.
func (w *crashWorld) dirArgs() []string {
	var a []string
	for k := 1 + w.r.Intn(2); k > 0; k-- {
		a = append(a, w.pick(w.usableDirs()))
	}
	return a
}

func runC08(c *Ctx, idx int) {
	r := c.Rng
	w := newCrashWorld(c)
	defer w.close()
	w.home = r.Intn(6) == 0
	if w.home {
		w.ixname = ".csearchindex"
	}
	w.put("/a", sysNode{kind: "dir", ok: true})
	w.put("/b", sysNode{kind: "dir", ok: true})
	zips := r.Intn(4) == 0
	for k := 2 + r.Intn(8); k > 0; k-- {
		w.change(zips)
	}
	for _, d := range []string{"/a", "/b"} {
		if w.fs[d].kind != "dir" {
			w.put(d, sysNode{kind: "dir", ok: true})
		}
	}
	// the index there is
	w.attempt([]string{"/a"}, nil, zips, fault{}, "")
	if gen := c.GenCases(); idx < len(gen) {
		w.behaviour(gen[idx], zips)
		c.Count("generated_histories", 1)
	} else {
		w.sweep(zips, idx%4 == 0)
		c.Count("sweeps", 1)
	}
	w.finish()
	c.Emit(w.event())
}

// sweep interrupts the same run at every operation.
func (w *crashWorld) sweep(zips, bulk bool) {
	r := w.r
	if bulk {
		w.c.Count("large_sweeps", 1)
		for k := 0; k < 8; k++ {
			w.bulk(fmt.Sprintf("/b/bulk%d", k), 14000+r.Intn(4000))
		}
	}
	if r.Intn(2) == 0 {
		w.attempt(w.dirArgs(), nil, zips, fault{}, "")
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		w.change(zips)
	}
	args := w.dirArgs()
	if bulk {
		args = []string{"/b"}
	}
	if r.Intn(4) == 0 {
		args = nil
	}
	flags := w.someFlags()
	w.save()
	ops, _ := w.attempt(args, flags, zips, fault{}, "")
	w.c.Count("operations", len(ops))
	states := map[string]bool{}
	follow := 0
	for n := range ops {
		for _, kind := range w.faultsFor(ops[n]) {
			w.restore()
			what := fmt.Sprintf("%s at %d (%v)", kind, n+1, ops[n])
			got, hit := w.attempt(args, flags, zips, fault{n + 1, kind}, what)
			if hit && n < len(got) && got[n] != ops[n] {
				w.ops[len(w.ops)-1]["fault"] = fmt.Sprintf("%s at %d (%v)", kind, n+1, got[n])
			}
			if s := w.state(); !states[s] || r.Intn(20) == 0 {
				states[s] = true
				// the next one
				if follow++; follow%3 == 0 {
					// after files have gone, the new index is smaller
					w.shrink()
				}
				w.attempt(args, nil, zips, fault{}, "")
			}
		}
	}
}

func (w *crashWorld) shrink() {
	fs := w.paths(func(v string, n sysNode) bool { return n.kind == "file" })
	if len(fs) > 1 {
		w.del(w.pick(fs))
	}
}

// roles of the operations of a stage of CindexCrash
func (w *crashWorld) stageOps(stage string, ops []sysop) []int {
	var ks []int
	for k, o := range ops {
		create := strings.HasPrefix(o.Name, "open") && o.Mut
		write := o.Write || strings.HasPrefix(o.Name, "fallocate")
		is := false
		switch stage {
		case "stat":
			is = o.Role == w.ixname && !o.Mut
		case "temps":
			is = o.Role == "tmp"
		case "create":
			is = o.Role == w.ixname+"~" && create
		case "write":
			is = o.Role == w.ixname+"~" && write
		case "open":
			is = !o.Mut && o.Role != "tmp" && k > 0
		case "createmerged":
			is = o.Role == w.ixname+"~~" && create
		case "writemerged":
			is = o.Role == w.ixname+"~~" && write
		case "remove":
			is = strings.HasPrefix(o.Name, "unlink") && o.Role != "tmp"
		case "rename":
			is = strings.HasPrefix(o.Name, "rename")
		}
		if is {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		for k := range ops {
			ks = append(ks, k)
		}
	}
	return ks
}

// behaviour does what TLC generated: edits and runs, some interrupted.
func (w *crashWorld) behaviour(raw json.RawMessage, zips bool) {
	var h struct {
		Ops []struct {
			Op, Stage, Fault string
			N                int
		}
	}
	must(json.Unmarshal(raw, &h))
	r := w.r
	bulk := r.Intn(5) == 0
	if bulk {
		for k := 0; k < 6; k++ {
			w.bulk(fmt.Sprintf("/b/bulk%d", k), 12000+r.Intn(5000))
		}
	}
	dirs := []string{"/a", "/b"}
	// the operations of a run are those of one before
	w.save()
	ops, _ := w.attempt([]string{"/a", "/b"}, nil, zips, fault{}, "")
	w.restore()
	for k, o := range h.Ops {
		switch o.Op {
		case "edit":
			if r.Intn(3) == 0 {
				w.shrink()
			} else {
				for j := 1 + r.Intn(3); j > 0; j-- {
					w.change(zips)
				}
			}
		case "run":
			var args []string
			if o.N > 0 {
				args = append(args, dirs[r.Intn(2)])
			}
			if o.N > 1 {
				args = dirs
			}
			f, what := fault{}, ""
			if k+1 < len(h.Ops) && h.Ops[k+1].Op == "fault" {
				x := h.Ops[k+1]
				ks := w.stageOps(x.Stage, ops)
				n := ks[r.Intn(len(ks))]
				f = fault{n + 1, x.Fault}
				if x.Fault == "fail" {
					fs := w.faultsFor(ops[n])
					f.Kind = fs[len(fs)-1]
				}
				what = fmt.Sprintf("%s at %d (%v)", f.Kind, n+1, ops[n])
				w.c.Count("stage_"+x.Stage, 1)
			}
			w.attempt(args, w.someFlags(), zips, f, what)
		}
	}
}
