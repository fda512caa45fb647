package main

import (
	"fmt"
	"net/url"
	"os"
	"strings"
)

func init() {
	props["C30"] = &Prop{N: func(c *Ctx) int { return c.Pick(1600, 16000) }, Run: runC30}
}

// htmlLooks is HtmlOutput of spec/J_C30.tla, for screening.
func (g *gcase) htmlLooks(page string) bool {
	parts, ok := parsePage(page)
	if !ok {
		return false
	}
	for _, p := range parts {
		if p.tag && (p.name != "a" || !p.close && (len(p.attrs) != 1 || p.attrs[0][0] != "href")) {
			return false
		}
	}
	want := g.expect()
	if shown(parts) != want.out {
		return false
	}
	if g.o.Pre+g.o.Post > 0 && !g.o.L && !g.o.C {
		return true
	}
	links := elements(parts, "a", "href")
	lines := strings.SplitAfter(want.out, "\n")
	if len(links) != len(lines)-1 {
		return false
	}
	for k, l := range links {
		rest, ok := strings.CutPrefix(lines[k], l.text)
		u, err := url.Parse(l.v)
		if !ok || err != nil {
			return false
		}
		nm, frag := l.text, ""
		switch {
		case g.o.L:
			ok = rest == "\n"
		case g.o.C:
			ok = strings.HasPrefix(rest, ": ")
		default:
			j := strings.LastIndexByte(l.text, ':')
			nm, frag = l.text[:max(j, 0)], "L"+l.text[j+1:]
			ok = strings.HasPrefix(rest, ":")
		}
		if !ok || !strings.ContainsRune(nm, 1) && (u.Fragment != frag || strings.ReplaceAll(u.Path, "//", "/") != "/show"+nm) {
			return false
		}
	}
	return true
}

func runC30(c *Ctx, idx int) {
	r := c.Rng
	o := gopts{N: r.Intn(2) == 0, L: r.Intn(4) == 0, C: r.Intn(4) == 0, hostile: true}
	if o.L {
		o.C = false
	}
	if r.Intn(3) == 0 {
		o.Pre, o.Post = r.Intn(4), r.Intn(4)
	}
	for {
		f, names := c.someFilter(r, c.Scratch, 6)
		if r.Intn(3) > 0 {
			names = nil
			for k := 1 + r.Intn(5); k > 0; k-- {
				n := evilName(r)
				if r.Intn(4) == 0 {
					n = strings.TrimSuffix(evilName(r), ".zip") + ".zip\x01" + evilName(r)
				}
				names = append(names, n)
			}
			names = sortUnique(names)
			for k := range names {
				// a directory each
				names[k] = fmt.Sprintf("%d/%s", k, names[k])
			}
		}
		g := c.smallCase(r, names, o)
		if r.Intn(3) == 0 {
			g.fre, g.fpat = f.re, f.pat
		}
		if r.Intn(8) == 0 && g.fatten(r) {
			c.Count("fat_files", 1)
		}
		ok := g.raw != "" && !strings.Contains(g.raw, "\x00")
		for _, x := range g.files {
			ok = ok && eligible(g.bytes(x)) == 1
		}
		dir := c.Tmp("dir")
		if f.re.has("nwb") || !ok {
			continue
		}
		must(os.MkdirAll(dir, 0755))
		defer os.RemoveAll(dir)
		args := g.flags(r)
		if r.Intn(2) == 0 {
			args = append(args, "-html")
		} else {
			args = append([]string{"-html"}, args...)
		}
		if g.fre != nil {
			args = append([]string{"-f", g.fpat}, args...)
		}
		args = append(args, "--", g.raw)
		var fs []file
		for k := range g.files {
			x := &g.files[k]
			x.name = dir + "/" + x.name
			fs = append(fs, file{x.name, g.bytes(*x)})
		}
		writeFiles(fs)
		ix := c.Tmp("ix")
		defer os.Remove(ix)
		build(ix, []string{dir}, fs, buildOpt{})
		out, errs, code := execute(c, dir, nil, []string{"CSEARCHINDEX=" + ix}, "csearch", args...)
		if code == -2 || code == 2 {
			c.Emit(Event{"kind": "crash", "msg": "csearch -html: " + errs})
			return
		}
		if !g.o.L && !g.o.C {
			g.o.N = true // always shown
		}
		want := g.expect()
		c.Count("searches", 1)
		if want.any {
			c.Count("searches_with_matches", 1)
		}
		if o.Pre+o.Post > 0 && want.any {
			c.Count("with_context", 1)
		}
		sus := code != 1-boolInt(want.any) || !g.htmlLooks(out)
		if len(out) > 20000 {
			if !sus {
				c.Screen(nil, false, false)
				return
			}
			out = out[:20000]
		}
		e := g.event()
		e["kind"], e["page"], e["exit"], e["args"] = "html", codes(out), code, trunc(strings.Join(args, " "), 500)
		c.Screen(e, sus, idx%c.Pick(4, 12) == 0)
		return
	}
}
