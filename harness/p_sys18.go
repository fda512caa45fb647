package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// someRe makes an expression and a generator of contents for it.
func someRe(r *rand.Rand) (reCase, func(r *rand.Rand) []byte) {
	depth := 3
	if r.Intn(4) == 0 {
		depth = 0
	}
	rc := genRe(r, depth, true, r.Intn(3) == 0, r.Intn(2) == 0)
	lines := 1 + 4*r.Intn(2)
	return rc, func(r *rand.Rand) []byte {
		for {
			ls := rc.textFor(r, lines)
			if r.Intn(80) == 0 {
				k := r.Intn(len(ls))
				ls[k] = rc.longer(r, ls[k])
			}
			s := strings.Join(ls, "\n")
			if r.Intn(3) > 0 {
				s += "\n"
			}
			if r.Intn(12) == 0 {
				s = ""
			}
			if eligible([]byte(s)) == 1 {
				return []byte(s)
			}
		}
	}
}

func (w *world) searchOpts() gopts {
	r := w.r
	o := gopts{N: r.Intn(2) == 0, H: r.Intn(5) == 0}
	switch r.Intn(6) {
	case 0:
		o.C, o.H = true, false
	case 1:
		o.L, o.H = true, false
	}
	return o
}

func runC18(c *Ctx, idx int) {
	r := c.Rng
	w := newWorld(c)
	defer w.close()
	w.textNames = true
	gen := c.GenCases()
	if idx < len(gen) {
		w.replay(gen[idx])
		if w.exists {
			w.run(nil, false, r.Intn(3) > 0)
			rc := reCase{re: grp(lits("two"), 0, 1), pat: "(?m)two", ml: true}
			w.search(rc, w.searchOpts())
			rc = reCase{re: grp(lit('e'), 0, 1), pat: "(?m)e", ml: true}
			w.search(rc, w.searchOpts())
		}
		c.Count("generated_histories", 1)
		c.Screen(w.event("history"), w.sus, idx%2 == 0)
		return
	}
	rc1, t1 := someRe(r)
	rc2, t2 := someRe(r)
	w.texts = func(r *rand.Rand) []byte {
		if r.Intn(8) == 0 {
			return sysText(r)
		}
		if r.Intn(2) == 0 {
			return t1(r)
		}
		return t2(r)
	}
	arch := func() {
		v := w.newName() + ".zip"
		if w.has(v) && w.fs[v].kind == "dir" {
			return
		}
		w.put(v, sysNode{kind: "arch", ok: true, ents: w.someEntries(r)})
	}
	for k := 1 + r.Intn(6); k > 0; k-- {
		w.change(true)
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		arch()
	}
	if idx%40 == 13 {
		w.many(70, true)
	}
	if idx%40 == 23 {
		w.deep(true)
	}
	if idx%80 == 33 {
		w.vast()
	}
	for k := r.Intn(4); k > 0; k-- {
		w.someRun(r.Intn(4) > 0)
		for j := r.Intn(4); j > 0; j-- {
			w.change(true)
			if r.Intn(3) == 0 {
				arch()
			}
		}
	}
	if !w.exists {
		w.run([]string{"/"}, false, true)
	}
	w.run(nil, false, r.Intn(6) > 0)
	if r.Intn(3) == 0 {
		w.someRun(r.Intn(2) == 0)
	}
	if w.exists {
		for k := 0; k < 2; k++ {
			w.search(rc1, w.searchOpts())
			w.search(rc2, w.searchOpts())
		}
	}
	n := 0
	for _, f := range w.files {
		n += boolInt(strings.Contains(f.name, "\x01"))
	}
	c.Count("archive_entries", n)
	c.Count("histories", 1)
	w.trim(2)
	c.Screen(w.event("history"), w.sus, idx%c.Pick(12, 60) == 0 || w.special(idx))
}

func init() {
	props["C01"] = &Prop{N: func(c *Ctx) int { return c.Pick(1600, 16000) }, Run: runC01, Timeout: 200 * time.Second}
}

func runC01(c *Ctx, idx int) {
	r := c.Rng
	if idx%80 == 7 {
		c.largeSearch(idx)
		return
	}
	w := newWorld(c)
	defer w.close()
	w.textNames = true
	var rcs []reCase
	var ts []func(r *rand.Rand) []byte
	many := idx%3 == 0 // a simple history, and more expressions
	for k := 1 + r.Intn(3) + 7*boolInt(many); k > 0; k-- {
		rc, t := someRe(r)
		rcs = append(rcs, rc)
		ts = append(ts, t)
		if r.Intn(4) == 0 {
			// simple ones of the same alphabet
			n := lits("")
			for j := 1 + r.Intn(5); j > 0; j-- {
				n.Sub = append(n.Sub, lit(rc.a.pick(r)))
			}
			fold := r.Intn(2) == 0
			s := reCase{re: grp(n, boolInt(fold), 1), a: rc.a, fold: fold, ml: true, pat: "(?m)" + n.String()}
			if fold {
				s.pat = "(?i)" + s.pat
			}
			rcs = append(rcs, s)
		}
	}
	w.texts = func(r *rand.Rand) []byte { return ts[r.Intn(len(ts))](r) }
	for k := 3 + r.Intn(12) + 20*boolInt(many); k > 0; k-- {
		w.change(false)
	}
	if idx%80 == 33 {
		w.deep(false)
	}
	for k := r.Intn(3) * boolInt(!many); k > 0; k-- {
		w.someRun(false)
		for j := 1 + r.Intn(5); j > 0; j-- {
			w.change(false)
		}
	}
	if !w.exists || r.Intn(2) == 0 {
		w.run([]string{"/"}, false, false)
	}
	if !many {
		w.run(nil, false, false)
	}
	if !many && r.Intn(4) == 0 {
		w.run([]string{w.pick(w.usableDirs())}, false, false)
	}
	for _, rc := range rcs {
		w.search(rc, w.searchOpts())
	}
	for k := 0; k < 3; k++ {
		// others that may match
		rc, _ := someRe(r)
		w.search(rc, w.searchOpts())
	}
	c.Count("histories", 1)
	w.trim(2)
	c.Screen(w.event("history"), w.sus, idx%c.Pick(12, 60) == 0 || w.special(idx))
}

// largeSearch searches many files that have few different lines.
func (c *Ctx) largeSearch(idx int) {
	r := c.Rng
	rc, _ := someRe(r)
	raw := strings.TrimPrefix(strings.TrimPrefix(rc.pat, "(?i)"), "(?m)")
	var pool []string
	for len(pool) < 12 {
		pool = append(pool, rc.textFor(r, 4)...)
		if r.Intn(12) == 0 {
			pool[len(pool)-1] = rc.longer(r, pool[len(pool)-1])
		}
	}
	for _, l := range pool {
		if !rc.nwbOK(l) || strings.Contains(l, "\x00") || eligible([]byte(l)) != 1 {
			return
		}
	}
	if strings.Contains(raw, "\x00") {
		return
	}
	o := gopts{N: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		o.L = raw != ""
	}
	g := &gcase{re: rc.re, pat: rc.pat, raw: raw, fold: rc.fold, o: o, caprun: 1000000}
	dir := c.Tmp("dir")
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	n := 100 + r.Intn(1500)
	var names []string
	for k := 0; k < n; k++ {
		names = append(names, fmt.Sprintf("%s/d%d/%x", dir, r.Intn(20), r.Intn(1<<20)))
	}
	rare := r.Intn(2) == 0
	for _, nm := range sortUnique(names) {
		f := gfile{name: nm, nl: true}
		for k := 1 + r.Intn(4); k > 0; k-- {
			l := pool[r.Intn(len(pool))]
			if rare && r.Intn(30) > 0 {
				l = pool[r.Intn(2)]
			}
			g.add(&f, l, 1)
		}
		must(os.MkdirAll(filepath.Dir(nm), 0755))
		must(os.WriteFile(nm, g.bytes(f), 0644))
		g.files = append(g.files, f)
	}
	ix := c.Tmp("ix")
	defer os.Remove(ix)
	env := []string{"CSEARCHINDEX=" + ix, fewFiles}
	for _, a := range [][]string{{dir + "/d1", dir + "/d7"}, {dir}} {
		if _, errs, code := execute(c, "/", nil, env, "cindex", a...); code != 0 {
			c.Emit(Event{"kind": "crash", "msg": "cindex: " + errs})
			return
		}
	}
	want := g.expect()
	out, errs, code := execute(c, "/", nil, env, "csearch", append(g.flags(r), "--", raw)...)
	c.Count("large_searches", 1)
	run := grun{Via: "cmd", Out: runsOf(out), Exit: code, Stderr: trunc(errs, 300), ok: out == want.out && code == 1-boolInt(want.any)}
	g.emit(c, []grun{run}, idx%c.Pick(400, 4000) == 7 && len(rle(want.out)) < 20000)
}
