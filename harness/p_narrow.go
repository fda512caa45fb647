package main

import (
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
)

func init() {
	props["C29"] = &Prop{N: func(c *Ctx) int { return c.Pick(20000, 300000) }, Run: runC29, Net: true}
}

// The driver's own reading of spec/Narrow.tla, for screening.
// An item is a set of bytes, or a gap (empty), or an alternation.
type nItem struct {
	bytes []int
	alts  [][]nItem
}

var gap = nItem{}

func flattenNarrow(n *Node, fold bool) []nItem {
	switch n.Op {
	case "lit":
		if fold && len(orbit(rune(n.R))) > 1 {
			if o := orbit(rune(n.R)); len(o) == 2 && o[0] < 0x80 && o[1] < 0x80 {
				return []nItem{{bytes: o}}
			}
			return []nItem{gap}
		}
		var it []nItem
		for _, b := range []byte(string(rune(n.R))) {
			it = append(it, nItem{bytes: []int{int(b)}})
		}
		return it
	case "cls":
		var bs []int
		for _, x := range n.Rs {
			bs = append(bs, x[0])
		}
		return []nItem{{bytes: bs}}
	case "cat":
		var it []nItem
		for _, s := range n.Sub {
			it = append(it, flattenNarrow(s, fold)...)
		}
		return it
	case "alt":
		var a [][]nItem
		for _, s := range n.Sub {
			a = append(a, flattenNarrow(s, fold))
		}
		return []nItem{{alts: a}}
	case "cap":
		return flattenNarrow(n.Sub[0], fold)
	case "grp":
		if n.I >= 0 {
			fold = n.I == 1
		}
		return flattenNarrow(n.Sub[0], fold)
	case "rep":
		if n.Min == 0 {
			return []nItem{gap}
		}
		r := []nItem{gap}
		r = append(r, flattenNarrow(n.Sub[0], fold)...)
		return append(r, gap)
	}
	return []nItem{gap}
}

type triSet map[string]bool

func cutsOf(items []nItem) (cuts []triSet, ok bool) {
	var cs []triSet
	for k := range items {
		if items[k].alts != nil {
			acc := []triSet{{}}
			for _, b := range items[k].alts {
				bc, ok := cutsOf(b)
				if !ok {
					return nil, false
				}
				var next []triSet
				for _, a := range acc {
					for _, c := range bc {
						u := triSet{}
						for t := range a {
							u[t] = true
						}
						for t := range c {
							u[t] = true
						}
						next = append(next, u)
					}
				}
				acc = next
				if len(acc) > 200 {
					return nil, false
				}
			}
			cs = append(cs, acc...)
			continue
		}
		if k+2 < len(items) && len(items[k].bytes) > 0 && len(items[k+1].bytes) > 0 && len(items[k+2].bytes) > 0 {
			u := triSet{}
			for _, x := range items[k].bytes {
				for _, y := range items[k+1].bytes {
					for _, z := range items[k+2].bytes {
						u[string([]byte{byte(x), byte(y), byte(z)})] = true
					}
				}
			}
			cs = append(cs, u)
		}
	}
	return cs, true
}

// holdsWithout: does the query hold for a file that has all trigrams but those of cut?
func holdsWithout(q *index.Query, cut triSet) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		for _, t := range q.Trigram {
			if cut[t] {
				return false
			}
		}
		for _, s := range q.Sub {
			if !holdsWithout(s, cut) {
				return false
			}
		}
		return true
	}
	for _, t := range q.Trigram {
		if !cut[t] {
			return true
		}
	}
	for _, s := range q.Sub {
		if holdsWithout(s, cut) {
			return true
		}
	}
	return false
}

// narrowGen makes expressions of literals with things that match anything between them, and alternations of those.
func narrowGen(r *rand.Rand, a alphabet, d int, fold bool) *Node {
	n := mk("cat")
	for k := 1 + r.Intn(4); k > 0; k-- {
		switch x := r.Intn(10); {
		case x < 5 || d == 0 && x < 7:
			for j := 1 + r.Intn(8); j > 0; j-- {
				if x := a.pick(r); r.Intn(4) == 0 && (!fold || len(orbit(x)) == 1) && x < 0x80 {
					b := cls(false, [2]int{int(x), int(x)})
					for k := r.Intn(3); k > 0; k-- {
						b.Rs = append(b.Rs, [2]int{'0' + k, '0' + k})
					}
					n.Sub = append(n.Sub, b)
				} else {
					n.Sub = append(n.Sub, lit(x))
				}
			}
		case x < 7:
			alt := mk("alt")
			firsts := map[rune]bool{}
			for j := 2 + r.Intn(7); j > 0; j-- {
				b := narrowGen(r, a, d-1, fold)
				var fs []rune
				switch x := b.Sub[0]; x.Op {
				case "lit":
					for _, o := range orbit(rune(x.R)) {
						fs = append(fs, rune(o))
					}
				case "cls":
					for _, o := range x.Rs {
						fs = append(fs, rune(o[0]))
					}
				default:
					fs = []rune{-1}
				}
				ok := true
				for _, f := range fs {
					ok = ok && !firsts[f]
				}
				if ok {
					for _, f := range fs {
						firsts[f] = true
					}
					alt.Sub = append(alt.Sub, b)
				}
			}
			n.Sub = append(n.Sub, mk("cap", alt))
		case x < 8:
			n.Sub = append(n.Sub, rep(mk("any"), r.Intn(2), -1))
		case x < 9:
			n.Sub = append(n.Sub, mk([]string{"any", "caret", "dollar", "wb", "any"}[r.Intn(5)]))
		default:
			n.Sub = append(n.Sub, rep(mk("cap", narrowGen(r, a, 0, fold)), 1+r.Intn(2), -1))
		}
	}
	return n
}

// narrowCase makes an expression of that kind with not too many cuts, the cuts, and its query.
func narrowCase(r *rand.Rand) (rc reCase, raw string, cuts []triSet, q *index.Query) {
	for {
		a := alphabets[r.Intn(len(alphabets))]
		fold := r.Intn(3) == 0
		n := narrowGen(r, a, r.Intn(3), fold)
		if n.size() > 200 {
			continue
		}
		rc = reCase{re: grp(n, boolInt(fold), 1), a: a, fold: fold, ml: true}
		raw = n.String()
		rc.pat = "(?m)" + raw
		if fold {
			rc.pat = "(?i)" + rc.pat
		}
		re, err := regexp.Compile(rc.pat)
		if err != nil {
			continue
		}
		ok := true
		cuts, ok = cutsOf(flattenNarrow(n, fold))
		if !ok || len(cuts) == 0 && r.Intn(4) > 0 {
			continue
		}
		return rc, raw, cuts, index.RegexpQuery(re.Syntax)
	}
}

func (n *Node) literals(b *strings.Builder) {
	if n.Op == "lit" {
		b.WriteRune(rune(n.R))
	}
	for _, x := range n.Rs {
		b.WriteRune(rune(x[0]))
	}
	for _, s := range n.Sub {
		s.literals(b)
	}
}

func (n *Node) orbits() [][]int {
	var b strings.Builder
	n.literals(&b)
	return orbitsOf(b.String())
}

func runC29(c *Ctx, idx int) {
	r := c.Rng
	if idx%c.Pick(40, 60) == 7 {
		c.narrowOpens(idx)
		return
	}
	rc, _, cuts, q := narrowCase(r)
	c.Count("regexps", 1)
	c.Count("cuts", len(cuts))
	sus := false
	for _, cut := range cuts {
		sus = sus || holdsWithout(q, cut)
	}
	c.Screen(Event{"kind": "narrow", "re": rc.re, "pat": trunc(rc.pat, 2000), "orbits": rc.re.orbits(), "query": queryJSON(q)},
		sus, len(cuts) > 0 && idx%c.Pick(15, 60) == 0)
}

// satisfiesCuts: has the text a trigram of each cut?
func satisfiesCuts(text []byte, cuts []triSet) bool {
	have := map[string]bool{}
	for k := 0; k+3 <= len(text); k++ {
		have[string(text[k:k+3])] = true
	}
	for _, cut := range cuts {
		some := false
		for t := range cut {
			some = some || have[t]
		}
		if !some {
			return false
		}
	}
	return true
}

// narrowOpens searches with csearch or csweb and looks which files are opened.
func (c *Ctx) narrowOpens(idx int) {
	r := c.Rng
	dir := c.Tmp("dir")
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	fil, names := c.someFilter(r, dir, 30)
	rc, raw, cuts, _ := narrowCase(r)
	for strings.Contains(raw, "\x00") || raw == "" {
		rc, raw, cuts, _ = narrowCase(r)
	}
	web := r.Intn(3) == 0
	filtered := r.Intn(2) == 0
	brute := !web && r.Intn(8) == 0
	var fs []file
	for _, n := range names {
		var data []byte
		for {
			ls := rc.textFor(r, 6)
			if r.Intn(60) == 0 {
				ls[0] = rc.longer(r, ls[0])
			}
			data = []byte(strings.Join(ls, "\n") + "\n")
			if eligible(data) == 1 {
				break
			}
		}
		fs = append(fs, file{dir + "/" + n, data})
	}
	writeFiles(fs)
	ix := c.Tmp("ix")
	if web {
		ix = c.web().index
	} else {
		defer os.Remove(ix)
	}
	build(ix, []string{dir}, fs, buildOpt{})

	in, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	must(err)
	defer syscall.Close(in)
	dirs := map[int32]string{}
	must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		must(err)
		if d.IsDir() {
			w, err := syscall.InotifyAddWatch(in, p, syscall.IN_OPEN)
			must(err)
			dirs[int32(w)] = p
		}
		return nil
	}))
	drain := func() map[string]bool {
		opened := map[string]bool{}
		buf := make([]byte, 1<<16)
		for {
			n, err := syscall.Read(in, buf)
			if n <= 0 || err != nil {
				return opened
			}
			for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
				e := (*syscall.InotifyEvent)(unsafe.Pointer(&b[0]))
				name := strings.TrimRight(string(b[syscall.SizeofInotifyEvent:syscall.SizeofInotifyEvent+e.Len]), "\x00")
				b = b[syscall.SizeofInotifyEvent+e.Len:]
				if e.Mask&syscall.IN_ISDIR == 0 && name != "" {
					opened[dirs[e.Wd]+"/"+name] = true
				}
			}
		}
	}
	drain()
	how := ""
	if web {
		q := url.Values{}
		q.Set("q", raw)
		if rc.fold {
			q.Set("q", "(?i)"+raw)
		}
		if filtered {
			q.Set("f", fil.pat)
		}
		resp := c.web().get("/", q)
		if resp.err != "" {
			c.Emit(Event{"kind": "crash", "msg": "csweb: " + resp.err})
			c.web().stop()
			return
		}
		how = "csweb " + q.Encode()
	} else {
		var args []string
		for _, f := range []string{"-l", "-c", "-n", "-h", "-html"} {
			if r.Intn(5) == 0 {
				args = append(args, f)
			}
		}
		if rc.fold {
			args = append(args, "-i")
		}
		if filtered {
			args = append(args, "-f", fil.pat)
		}
		if brute {
			args = append(args, "-brute")
		}
		if r.Intn(12) == 0 {
			args = append(args, "-verbose")
		}
		args = append(args, "--", raw)
		_, errs, code := execute(c, dir, nil, []string{"CSEARCHINDEX=" + ix}, "csearch", args...)
		if code != 0 && code != 1 {
			c.Emit(Event{"kind": "crash", "msg": "csearch: " + errs})
			return
		}
		how = "csearch " + strings.Join(args, " ")
	}
	opened := drain()
	c.Count("searches", 1)
	c.Count("opened", len(opened))

	// what lies at each path
	var paths []map[string]any
	sus := false
	for k := 0; k < len(fs); {
		arch, _, zip := strings.Cut(fs[k].name, "\x01")
		ents := []map[string]any{}
		may := false
		j := k
		for ; j < len(fs) && (j == k || zip && strings.HasPrefix(fs[j].name, arch+"\x01")); j++ {
			ents = append(ents, map[string]any{"name": runesOf(fs[j].name), "data": bytesOf(string(fs[j].data))})
			may = may || (brute || satisfiesCuts(fs[j].data, cuts)) && (!filtered || fil.re.lineMatches(runesOf(fs[j].name), true, true))
		}
		if !may {
			c.Count("not_to_open", 1)
		}
		sus = sus || opened[arch] && !may
		paths = append(paths, map[string]any{"entries": ents, "opened": opened[arch]})
		k = j
	}
	ev := Event{"kind": "opens", "re": rc.re, "pat": trunc(rc.pat, 2000), "orbits": rc.re.orbits(), "how": trunc(how, 500), "paths": paths,
		"brute": brute, "filtered": filtered, "fre": mk("empty"), "forbits": [][]int{}}
	if filtered {
		ev["fre"] = fil.re
		var all []string
		for _, f := range fs {
			all = append(all, f.name)
		}
		ev["forbits"] = orbitsOf(all...)
	}
	c.Screen(ev, sus, idx%c.Pick(160, 600) == 7)
}
