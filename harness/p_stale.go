package main

import (
	"math/rand"
	"slices"
	"strings"
)

// Searches when files have changed since they were indexed (C26).

func init() {
	props["C26"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(1000, 10000) }, Run: runC26}
}

// current is what a name of the index stands for now.
func (w *world) current(name string) ([]byte, bool) {
	arch, ent, in := strings.Cut(name, "\x01")
	n, ok := w.fs[arch]
	if !ok {
		return nil, false
	}
	if !in {
		return n.data, n.kind == "file"
	}
	if n.kind == "arch" {
		for _, e := range n.ents {
			if e.name == ent && e.ok {
				return e.data, true
			}
		}
	}
	return nil, false
}

// stale runs csearch while the index is out of date, and records what it printed.
func (w *world) stale(rc reCase, o gopts, brute bool) {
	raw := strings.TrimPrefix(strings.TrimPrefix(rc.pat, "(?i)"), "(?m)")
	if strings.Contains(raw, "\x00") || raw == "" {
		return
	}
	g := &gcase{re: rc.re, pat: rc.pat, raw: raw, fold: rc.fold, o: o, caprun: 1000000}
	var all []string
	type piece struct {
		out  string
		must bool
	}
	var want []piece
	gone, changed := 0, 0
	for _, f := range w.files {
		data, ok := w.current(f.name)
		if !ok {
			gone++
			continue
		}
		if !rc.nwbOK(string(data)) {
			return
		}
		all = append(all, string(data))
		one := &gcase{re: rc.re, o: o, caprun: 1000000}
		gf := gfile{name: f.name, nl: true}
		if s := string(data); s != "" {
			gf.nl = strings.HasSuffix(s, "\n")
			for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				one.add(&gf, l, 1)
			}
		}
		one.files = []gfile{gf}
		must := true
		was := trigramsOf(f.data)
		for t := range trigramsOf(data) {
			must = must && was[t]
		}
		if !must {
			changed++
		}
		want = append(want, piece{one.expect().out, must || brute})
	}
	args := append(g.flags(w.r), "--", raw)
	if brute {
		args = append([]string{"-brute"}, args...)
	}
	out, errs, code := w.exec("/", "csearch", args...)
	out = strings.ReplaceAll(out, w.base, "")
	at := map[int]bool{0: true}
	some := false
	for _, p := range want {
		if p.out == "" {
			continue
		}
		some = true
		next := map[int]bool{}
		for k := range at {
			if strings.HasPrefix(out[k:], p.out) {
				next[k+len(p.out)] = true
			}
			if !p.must {
				next[k] = true
			}
		}
		at = next
	}
	w.c.Count("stale_searches", 1)
	w.c.Count("stale_searches_with_matches", boolInt(some))
	w.c.Count("files_gone", gone)
	w.c.Count("files_changed", changed)
	op := Event{"op": "stale", "re": rc.re, "pat": trunc(rc.pat, 2000), "orbits": orbitsOf(all...), "o": o, "brute": brute, "out": runsOf(out), "exit": code, "stderr": trunc(errs, 300)}
	if !at[len(out)] || code != boolInt(out == "") {
		if w.sus {
			return
		}
		w.sus = true
		w.ops = slices.DeleteFunc(w.ops, func(e Event) bool { return e["op"] == "stale" })
		w.ops = append(w.ops, op)
		return
	}
	if !w.sus {
		w.ops = append(w.ops, op)
	}
}

// outdate changes an indexed file.
func (w *world) outdate() {
	r := w.r
	if len(w.files) == 0 {
		return
	}
	f := w.files[r.Intn(len(w.files))]
	arch, ent, in := strings.Cut(f.name, "\x01")
	n, ok := w.fs[arch]
	if !ok {
		return
	}
	if !in {
		switch r.Intn(8) {
		case 0, 1:
			w.del(arch)
		case 2:
			w.put(arch, sysNode{kind: "dir", ok: true})
		case 3:
			if p := parentOf(arch); p != "/" {
				w.del(p)
				if r.Intn(2) == 0 {
					w.put(p, sysNode{kind: "file", ok: true, data: w.texts(r)})
				}
			}
		case 4:
			// another indexed file comes in its place
			if g := w.files[r.Intn(len(w.files))]; g.name != arch {
				if m, ok := w.fs[g.name]; ok && m.kind == "file" {
					w.move(g.name, arch)
				}
			}
		case 5:
			// a part of what it was
			d := n.data
			if k := strings.IndexByte(string(d), '\n'); k >= 0 {
				if r.Intn(2) == 0 {
					d = d[:k+1]
				} else {
					d = d[k+1:]
				}
			}
			w.put(arch, sysNode{kind: "file", ok: true, data: d})
		default:
			w.put(arch, sysNode{kind: "file", ok: true, data: w.texts(r)})
		}
		return
	}
	switch r.Intn(8) {
	case 0, 1:
		w.del(arch)
	case 2:
		w.put(arch, sysNode{kind: "dir", ok: true})
	case 3:
		w.put(arch, sysNode{kind: "file", ok: true, data: w.texts(r)})
	case 4:
		es := w.someEntries(r)
		for k := range es {
			es[k].ok = true
		}
		w.put(arch, sysNode{kind: "arch", ok: true, ents: es})
	default:
		var es []entry
		for _, e := range n.ents {
			switch {
			case !e.ok:
			case e.name == ent && r.Intn(2) == 0:
			case e.name == ent:
				es = append(es, entry{e.name, w.texts(r), true})
			default:
				es = append(es, e)
			}
		}
		w.put(arch, sysNode{kind: "arch", ok: true, ents: es})
	}
}

// unhang removes what would hang whoever opens it.
func (w *world) unhang() {
	for _, f := range w.files {
		arch, _, _ := strings.Cut(f.name, "\x01")
		if n, ok := w.fs[arch]; ok && n.kind == "other" {
			w.del(arch)
		}
	}
}

func runC26(c *Ctx, idx int) {
	r := c.Rng
	w := newWorld(c)
	defer w.close()
	w.textNames = true
	if gen := c.GenCases(); idx < len(gen) {
		w.replay(gen[idx])
		w.unhang()
		if w.exists {
			for _, s := range []string{"two", "e", "o"} {
				o := w.searchOpts()
				o.H = false
				w.stale(reCase{re: grp(lits(s), 0, 1), pat: "(?m)" + s, ml: true}, o, r.Intn(3) == 0)
			}
		}
		c.Count("generated_histories", 1)
		c.Screen(w.event("history"), w.sus, idx%2 == 0)
		return
	}
	rc1, t1 := someRe(r)
	rc2, t2 := someRe(r)
	w.texts = func(r *rand.Rand) []byte {
		if r.Intn(2) == 0 {
			return t1(r)
		}
		return t2(r)
	}
	arch := func() {
		v := w.newName() + ".zip"
		if w.has(v) && w.fs[v].kind == "dir" {
			return
		}
		es := w.someEntries(r)
		if r.Intn(2) == 0 {
			// names that other archives have, too
			for k := range es {
				if n := string(rune('e' + k)); k < 2 {
					es[k] = entry{n, w.texts(r), true}
				}
			}
			names := map[string]bool{}
			es = slices.DeleteFunc(es, func(e entry) bool { d := names[e.name]; names[e.name] = true; return d })
		}
		w.put(v, sysNode{kind: "arch", ok: true, ents: es})
	}
	for k := 2 + r.Intn(6); k > 0; k-- {
		w.change(true)
	}
	for k := r.Intn(5); k > 0; k-- {
		arch()
	}
	if idx%100 == 13 {
		w.many(70, idx%200 == 13)
	}
	if idx%100 == 23 {
		w.deep(idx%200 == 23)
	}
	var twins []string
	if d := w.newName(); r.Intn(3) == 0 && !w.has(d) && !w.has(d+"a") {
		// directories of which one's name goes on where the other's ends
		twins = []string{d, d + "a"}
		for _, d := range twins {
			w.put(d, sysNode{kind: "dir", ok: true})
			for k := 1 + r.Intn(3); k > 0; k-- {
				w.put(d+"/"+string(rune('a'+k)), sysNode{kind: "file", ok: true, data: w.texts(r)})
			}
		}
	}
	w.run([]string{"/"}, false, r.Intn(5) > 0)
	if r.Intn(3) == 0 {
		w.change(true)
		w.run(nil, false, r.Intn(5) > 0)
	}
	for k := 0; k < 2; k++ {
		for j := 1 + r.Intn(3); j > 0; j-- {
			w.outdate()
		}
		if len(twins) > 0 && k == 0 && r.Intn(2) == 0 {
			if d := w.pick(twins); w.has(d) {
				w.del(d)
			}
		}
		w.unhang()
		for _, rc := range []reCase{rc1, rc2, rc1} {
			o := w.searchOpts()
			o.H = false
			w.stale(rc, o, r.Intn(4) == 0)
		}
	}
	c.Count("histories", 1)
	keep := 0
	if !w.sus {
		w.ops = slices.DeleteFunc(w.ops, func(e Event) bool {
			if e["op"] != "stale" {
				return false
			}
			keep++
			return keep > 2 && r.Intn(3) > 0
		})
	}
	c.Screen(w.event("history"), w.sus, idx%c.Pick(8, 40) == 0)
}
