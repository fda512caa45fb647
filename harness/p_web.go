package main

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp/syntax"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"
)

func init() {
	props["C16"] = &Prop{N: func(c *Ctx) int { return c.Pick(900, 9000) }, Run: runC16, Net: true}
	props["C17"] = &Prop{N: func(c *Ctx) int { return c.Pick(4000, 20000) }, Run: runC17, Net: true}
	props["C25"] = &Prop{N: func(c *Ctx) int { return c.Pick(1600, 16000) }, Run: runC25, Net: true}
}

const webAddr = "localhost:2473"

// web is the csweb this process talks to.
type web struct {
	dir   string // its working, home and temporary directory
	cmd   *exec.Cmd
	index string
	errs  tailWriter
	done  chan struct{}
}

var theWeb *web

func (c *Ctx) web() *web {
	if theWeb != nil {
		return theWeb
	}
	w := &web{index: filepath.Join(c.Scratch, "webindex", "index")}
	must(os.MkdirAll(filepath.Dir(w.index), 0755))
	w.dir = filepath.Join(c.Scratch, "webdir")
	must(os.MkdirAll(w.dir, 0755))
	w.start(append(os.Environ(), "CSEARCHINDEX="+w.index, "TMPDIR="+w.dir, "HOME="+w.dir), filepath.Join(c.Bin, "csweb"), 0)
	theWeb = w
	return w
}

// start starts csweb and waits until it listens.
func (w *web) start(env []string, bin string, uid int) {
	if os.Getenv("VERIF_NETNS") == "" {
		// Shared with others: wait until nobody uses it.
		for k := 0; ; k++ {
			l, err := net.Listen("tcp", webAddr)
			if err == nil {
				l.Close()
				break
			}
			if k > 600 {
				must(fmt.Errorf("%s is in use: %v", webAddr, err))
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	w.cmd = exec.Command(bin)
	w.cmd.Env = env
	w.cmd.Dir = w.dir
	w.cmd.Stderr = &w.errs
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if uid > 0 {
		w.cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid)}
	}
	must(w.cmd.Start())
	w.done = make(chan struct{})
	go func() { w.cmd.Wait(); close(w.done) }()
	for k := 0; ; k++ {
		conn, err := net.Dial("tcp", webAddr)
		if err == nil {
			conn.Close()
			break
		}
		select {
		case <-w.done:
			noteHang()
			panic("csweb ended: " + w.errs.tail(500))
		default:
		}
		if k > 3000 {
			w.cmd.Process.Kill()
			hangs.Store(maxHangs) // enough
			panic(fmt.Sprintf("csweb does not listen: %v %s", err, w.errs.tail(500)))
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// startWeb starts a csweb of its own; there must be no other.
func (c *Ctx) startWeb(env []string, dir string, uid int) *web {
	w := &web{dir: dir}
	w.start(env, filepath.Join(c.Bin, "csweb"), uid)
	return w
}

func (w *web) stop() {
	w.cmd.Process.Kill()
	<-w.done
	theWeb = nil
}

type response struct {
	code  int
	ctype string
	body  string
	err   string
}

func (r response) html() bool {
	return strings.HasPrefix(r.ctype, "text/html") || r.ctype == "" || strings.HasPrefix(r.ctype, "application/xhtml")
}

var client, hasty = &http.Client{Timeout: 60 * time.Second}, &http.Client{Timeout: 3 * time.Second}

func webClient() *http.Client {
	if impatient.Load() {
		return hasty
	}
	return client
}

// get requests a page; the path is not escaped yet.
func (w *web) get(path string, q url.Values) response {
	u := url.URL{Scheme: "http", Host: webAddr, Path: path, RawQuery: q.Encode()}
	resp, err := webClient().Get(u.String())
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		noteHang()
	}
	if err != nil {
		return response{err: err.Error() + "; " + w.errs.tail(500)}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return response{err: err.Error() + "; " + w.errs.tail(500)}
	}
	return response{code: resp.StatusCode, ctype: resp.Header.Get("Content-Type"), body: string(b)}
}

// codes turns a page into numbers (0xdc00 + b: a byte that is not UTF-8).
func codes(s string) []int {
	r := make([]int, 0, len(s))
	for i := 0; i < len(s); {
		x, n := utf8.DecodeRuneInString(s[i:])
		if x == utf8.RuneError && n == 1 {
			r = append(r, 0xdc00+int(s[i]))
		} else {
			r = append(r, int(x))
		}
		i += n
	}
	return r
}

// part is a tag or a text of a page; see spec/Html.tla.
type part struct {
	tag, close bool
	name       string
	attrs      [][2]string
	text       string // not yet unescaped
}

// parsePage is Page of spec/Html.tla, for screening.
func parsePage(s string) (parts []part, ok bool) {
	for i := 0; i < len(s); {
		if s[i] != '<' {
			j := strings.IndexByte(s[i:], '<')
			if j < 0 {
				j = len(s) - i
			}
			parts = append(parts, part{text: s[i : i+j]})
			i += j
			continue
		}
		j, q := i+1, byte(0)
		for ; j < len(s); j++ {
			if q != 0 {
				if s[j] == q {
					q = 0
				}
				continue
			}
			if s[j] == '"' || s[j] == '\'' {
				q = s[j]
			} else if s[j] == '<' {
				return parts, false
			} else if s[j] == '>' {
				break
			}
		}
		if j == len(s) {
			return parts, false
		}
		p, ok := parseTag(s[i+1 : j])
		if !ok {
			return parts, false
		}
		parts = append(parts, p)
		i = j + 1
	}
	return parts, true
}

func isName(b byte) bool {
	return b == '-' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
}

func parseTag(t string) (p part, ok bool) {
	p.tag = true
	if strings.HasPrefix(t, "!") {
		p.name = "!"
		return p, true
	}
	if strings.HasPrefix(t, "/") {
		p.close = true
		t = t[1:]
	}
	k := 0
	for k < len(t) && isName(t[k]) {
		k++
	}
	if k == 0 || t[0] == '-' || '0' <= t[0] && t[0] <= '9' {
		return p, false
	}
	p.name, t = t[:k], t[k:]
	for {
		u := strings.TrimLeft(t, " \t\n\r\f")
		if u == "" || u == "/" {
			return p, true
		}
		if u == t {
			return p, false
		}
		t = u
		k := 0
		for k < len(t) && isName(t[k]) {
			k++
		}
		if k == 0 {
			return p, false
		}
		a := [2]string{t[:k]}
		t = t[k:]
		if strings.HasPrefix(t, "=") {
			if len(t) < 2 || t[1] != '"' && t[1] != '\'' {
				return p, false
			}
			j := strings.IndexByte(t[2:], t[1])
			if j < 0 {
				return p, false
			}
			a[1] = html.UnescapeString(t[2 : 2+j])
			t = t[2+j+1:]
		}
		p.attrs = append(p.attrs, a)
	}
}

func shown(parts []part) string {
	var b strings.Builder
	for _, p := range parts {
		if !p.tag {
			b.WriteString(html.UnescapeString(p.text))
		}
	}
	return b.String()
}

func structure(parts []part) string {
	var b strings.Builder
	for _, p := range parts {
		if p.tag {
			fmt.Fprint(&b, p.close, p.name)
			for _, a := range p.attrs {
				b.WriteString(" " + a[0])
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

// afterPre returns the parts of the page after <pre>.
func afterPre(parts []part) []part {
	for k, p := range parts {
		if p.tag && !p.close && p.name == "pre" {
			return parts[k+1:]
		}
	}
	return nil
}

type webElem struct {
	at, to  int
	v, text string
}

func elements(parts []part, name, attr string) []webElem {
	var res []webElem
	for k, p := range parts {
		if p.tag && !p.close && p.name == name {
			e := webElem{at: k, to: len(parts)}
			for _, a := range p.attrs {
				if a[0] == attr {
					e.v = a[1]
				}
			}
			for j := k + 1; j < len(parts); j++ {
				if parts[j].tag && parts[j].close && parts[j].name == name {
					e.to = j
					break
				}
			}
			e.text = shown(parts[k+1 : e.to])
			res = append(res, e)
		}
	}
	return res
}

// resultsLook reports whether the page looks like the one for the search; n is the number of lines shown.
func resultsLook(page string, want gresult) bool {
	parts, ok := parsePage(page)
	if !ok {
		return false
	}
	parts = afterPre(parts)
	body := strings.TrimPrefix(shown(parts), "\n")
	w := want.out
	if !strings.HasPrefix(body, w+fmt.Sprintf("\n%d matches", want.matches)) {
		return false
	}
	_, after, nl := strings.Cut(body[len(w)+1:], "\n")
	if letters := strings.IndexFunc(after, unicode.IsLetter) >= 0; !nl || letters != want.limited {
		return false
	}
	links := elements(parts, "a", "href")
	if len(links) != want.matches {
		return false
	}
	lines := strings.SplitAfter(w, "\n")
	for k, l := range links {
		if !strings.HasPrefix(lines[k], l.text+":") {
			return false
		}
		j := strings.LastIndexByte(l.text, ':')
		nm, no := l.text[:max(j, 0)], l.text[j+1:]
		if strings.ContainsRune(nm, 1) {
			continue
		}
		u, err := url.Parse(l.v)
		if err != nil || u.Fragment != "L"+no || strings.ReplaceAll(u.Path, "//", "/") != "/show"+nm {
			return false
		}
	}
	return true
}

const webLimit = 100000

// webSearch asks csweb for the search g, whose files are indexed.
func (c *Ctx) webSearch(g *gcase, sample bool) {
	w := c.web()
	q := url.Values{}
	raw := g.raw
	if g.fold {
		raw = "(?i)" + raw
	}
	q.Set("q", raw)
	if g.fre != nil {
		q.Set("f", g.fpat)
	}
	resp := w.get("/", q)
	if resp.err != "" {
		c.Emit(Event{"kind": "crash", "msg": "csweb: " + resp.err})
		w.stop()
		return
	}
	g.o = gopts{N: true, Limit: webLimit}
	want := g.expect()
	c.Count("web_searches", 1)
	if want.any {
		c.Count("web_searches_with_matches", 1)
	}
	sus := resp.code != 200 || !resultsLook(resp.body, want)
	if !sus && !sample || len(resp.body) > 60000 {
		if sus {
			resp.body = resp.body[:60000]
		} else {
			c.Screen(nil, false, false)
			return
		}
	}
	e := g.event()
	e["kind"], e["code"], e["page"], e["limit"], e["q"] = "results", resp.code, codes(resp.body), webLimit, trunc(raw, 300)
	delete(e, "runs")
	c.Screen(e, sus, sample)
}

// webFiles writes g's files and indexes them.
func (c *Ctx) webFiles(g *gcase, dir string) {
	var fs []file
	for k := range g.files {
		f := &g.files[k]
		f.name = dir + "/" + f.name
		fs = append(fs, file{f.name, g.bytes(*f)})
	}
	writeFiles(fs)
	build(c.web().index, []string{dir}, fs, buildOpt{})
}

// badPattern makes a pattern that is not a valid expression.
func badPattern(r *rand.Rand, tail string) string {
	for {
		t := []string{"(%s", "[%s", "%s)", "a{2,1}%s", "%s**", "(?P<%s", "%s\\", "\\8%s", "[b-a]%s", "(?z%s", "x{1001}%s", "*%s", "a|+%s", "(?i)(%s", "\\p{%s"}[r.Intn(15)]
		p := fmt.Sprintf(t, tail)
		if _, err := syntax.Parse("(?m)"+p, syntax.Perl); err != nil {
			return p
		}
	}
}

func runC25(c *Ctx, idx int) {
	r := c.Rng
	w := c.web()
	dir := c.Tmp("dir")
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	defer os.Remove(w.index)
	if idx%c.Pick(400, 1000) == 3 {
		c.webLimit(dir)
		return
	}
	for {
		f, names := c.someFilter(r, dir, 8)
		if r.Intn(3) == 0 {
			names = nil
			for k := 1 + r.Intn(8); k > 0; k-- {
				names = append(names, strings.TrimPrefix(somePath(r, 2), "/"))
			}
			names = plainNames(names)
		}
		g := c.smallCase(r, names, gopts{hostile: true})
		if r.Intn(3) == 0 {
			for k := range g.tab {
				// markup in the files
				if r.Intn(2) == 0 {
					l := g.tab[k] + []string{"<b>", "&amp;", "&lt;", "\"'>", "a&b", "</pre>", "<!--", "&#39;"}[r.Intn(8)]
					ok := true
					for j := range g.tab {
						ok = ok && g.tab[j] != l
					}
					if ok {
						g.tab[k] = l
					}
				}
			}
			g.ids = nil
		}
		if r.Intn(3) > 0 {
			g.fre, g.fpat = f.re, f.pat
		}
		if g.raw == "" || strings.Contains(g.raw, "\x00") || !utf8.ValidString(g.raw) {
			continue
		}
		ok := true
		for _, x := range g.files {
			ok = ok && eligible(g.bytes(x)) == 1 && utf8.ValidString(x.name)
			for _, y := range x.text {
				ok = ok && (&reCase{re: g.re}).nwbOK(g.tab[y[0]-1])
			}
		}
		if !ok {
			continue
		}
		if r.Intn(10) == 0 && g.fatten(r) {
			c.Count("fat_files", 1)
		}
		c.webFiles(g, dir)
		if r.Intn(6) == 0 {
			// some are gone
			var left []gfile
			for _, x := range g.files {
				if r.Intn(3) == 0 && !strings.Contains(x.name, "\x01") {
					must(os.Remove(x.name))
					continue
				}
				left = append(left, x)
			}
			g.files = left
		}
		if r.Intn(6) == 0 {
			c.badSearch(g)
			return
		}
		c.webSearch(g, idx%c.Pick(5, 25) == 0)
		return
	}
}

// plainNames leaves out names that cannot exist together.
func plainNames(names []string) []string {
	var ok []string
	for _, n := range sortUnique(names) {
		bad := strings.HasSuffix(n, ".zip") || strings.Contains(n, ".zip/") || !utf8.ValidString(n)
		for _, m := range names {
			bad = bad || strings.HasPrefix(m, n+"/")
		}
		if !bad {
			ok = append(ok, n)
		}
	}
	if len(ok) == 0 {
		return []string{"a"}
	}
	return ok
}

func (c *Ctx) badSearch(g *gcase) {
	r := c.Rng
	w := c.web()
	q := url.Values{}
	q.Set("q", g.raw)
	tail := []string{"", "a", "<b>", "\"&", "x y"}[r.Intn(5)]
	switch r.Intn(3) {
	case 0:
		q.Set("f", badPattern(r, tail))
	case 1:
		q.Set("q", badPattern(r, tail))
		q.Set("f", ".")
	default:
		q.Set("q", badPattern(r, tail))
	}
	resp := w.get("/", q)
	if resp.err != "" {
		c.Emit(Event{"kind": "crash", "msg": "csweb: " + resp.err})
		w.stop()
		return
	}
	c.Count("bad_searches", 1)
	parts, ok := parsePage(resp.body)
	parts = afterPre(parts)
	sus := !ok || len(elements(parts, "a", "href")) > 0 || strings.TrimSpace(shown(parts)) == ""
	c.Screen(Event{"kind": "bad", "page": codes(resp.body[:min(len(resp.body), 60000)]), "q": q.Encode()}, sus, r.Intn(c.Pick(5, 50)) == 0)
}

// webLimit asks for about as many lines as the limit allows.
func (c *Ctx) webLimit(dir string) {
	r := c.Rng
	total := []int{webLimit, webLimit - 1, webLimit + 1, webLimit + 60000}[(c.Idx/c.Pick(400, 1000))%4]
	edge := total == webLimit+1 || r.Intn(2) == 0
	g := &gcase{re: grp(lit('a'), 0, 1), pat: "(?m)a", raw: "a", caprun: 1000000}
	left := total
	for k := 0; left > 0; k++ {
		n := min(left, 20000+r.Intn(40000))
		if done := total - left; edge && done < webLimit {
			n = min(n, webLimit-done) // a file ends just where the limit is
		}
		f := gfile{name: fmt.Sprintf("f%d", k), nl: true}
		g.add(&f, "b", r.Intn(3))
		g.add(&f, "a", n)
		g.add(&f, "c", r.Intn(3))
		g.files = append(g.files, f)
		left -= n
	}
	if r.Intn(2) == 0 {
		f := gfile{name: "z", nl: true}
		g.add(&f, "b", 1)
		g.files = append(g.files, f)
	}
	c.webFiles(g, dir)
	resp := c.web().get("/", url.Values{"q": {"a"}})
	if resp.err != "" {
		c.Emit(Event{"kind": "crash", "msg": "csweb: " + resp.err})
		c.web().stop()
		return
	}
	g.o = gopts{N: true, Limit: webLimit}
	want := g.expect()
	parts, _ := parsePage(resp.body)
	parts = afterPre(parts)
	body := strings.TrimPrefix(shown(parts), "\n")
	same := strings.HasPrefix(body, want.out) && resultsLook(resp.body, want)
	rest := strings.TrimPrefix(body, want.out)
	c.Count("limit_searches", 1)
	c.Screen(Event{"kind": "limit", "total": total, "limit": webLimit, "links": len(elements(parts, "a", "href")), "same": same, "rest": codes(rest[:min(len(rest), 200)])}, !same, true)
}

// C17

func someContent(r *rand.Rand) string {
	lines := []string{"", "a", "<b>&amp;</b>", "tab\there", " x ", "é日本", "\U0001f600", "\"quoted\" 'single'", "&lt;", "12  34", "\f", "L5", "</span>", "<span id=\"L1\">", "a\\b%41"}
	var b strings.Builder
	n := r.Intn(14)
	if r.Intn(6) == 0 {
		n = 95 + r.Intn(12)
	}
	if r.Intn(60) == 0 {
		n = 990 + r.Intn(20)
	}
	for k := 0; k < n; k++ {
		b.WriteString(lines[r.Intn(len(lines))])
		if r.Intn(4) == 0 {
			b.WriteString(lines[r.Intn(len(lines))])
		}
		if k < n-1 || r.Intn(2) == 0 {
			b.WriteString("\n")
		}
	}
	s := b.String()
	switch r.Intn(6) {
	case 0:
		// around the 1024 bytes that are looked at
		pad := 1010 + r.Intn(16)
		t := []string{"é", "日", "\U0001f600", "\x00", "\xff", "\xe6\x97", "\x01", "\ufffd", "a", "\r", "<"}[r.Intn(11)]
		base := strings.Repeat("x", 30) + "\n"
		s = strings.Repeat(base, pad/len(base)+1)[:pad] + strings.Repeat(t, 1+r.Intn(4)) + "\n" + s
	case 1:
		at := r.Intn(len(s) + 1)
		s = s[:at] + []string{"\x00", "\xff", "\x1b", "\r\n", "\x7f", "\xc3", "\xed\xa0\x80", "\ufffd"}[r.Intn(8)] + s[at:]
	}
	return s
}

// renders reports whether the page shows data line by line.
func renders(page, data string) bool {
	parts, ok := parsePage(page)
	if !ok {
		return false
	}
	lines := strings.Split(data, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	var spans []webElem
	for _, e := range elements(parts, "span", "id") {
		if len(e.v) > 1 && e.v[0] == 'L' && strings.Trim(e.v[1:], "0123456789") == "" {
			spans = append(spans, e)
		}
	}
	if len(spans) != len(lines) {
		return false
	}
	for k, e := range spans {
		if e.v != "L"+strconv.Itoa(k+1) || strings.TrimLeft(e.text, " ") != fmt.Sprintf("%d  %s\n", k+1, lines[k]) {
			return false
		}
		if k > 0 && shown(parts[spans[k-1].to:e.at]) != "" {
			return false
		}
	}
	if n := len(spans); n > 0 && strings.TrimSpace(shown(parts[spans[n-1].to:])) != "" {
		return false
	}
	return true
}

// lineSamples compares the spans of a large page with the lines: numbers of both, some of them one by one (the
// first that differs in any case), and whether there is nothing else between and after them.
func lineSamples(r *rand.Rand, page, data string) (nl, ns int, samples []map[string]any, clean bool) {
	parts, ok := parsePage(page)
	lines := strings.Split(data, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	var spans []webElem
	for _, e := range elements(parts, "span", "id") {
		if len(e.v) > 1 && e.v[0] == 'L' && strings.Trim(e.v[1:], "0123456789") == "" {
			spans = append(spans, e)
		}
	}
	samples = []map[string]any{}
	n := min(len(spans), len(lines))
	take := map[int]bool{0: true, n - 1: true}
	for k := 0; k < 20 && n > 0; k++ {
		take[r.Intn(n)] = true
	}
	clean = ok
	for k, e := range spans[:n] {
		if e.v != "L"+strconv.Itoa(k+1) || strings.TrimLeft(e.text, " ") != fmt.Sprintf("%d  %s\n", k+1, lines[k]) {
			take[k] = true
			break
		}
		clean = clean && (k == 0 || shown(parts[spans[k-1].to:e.at]) == "")
	}
	if n > 0 {
		clean = clean && strings.TrimSpace(shown(parts[spans[len(spans)-1].to:])) == ""
	}
	for _, k := range sortedKeys(take) {
		if k >= 0 && k < n {
			samples = append(samples, map[string]any{"k": k + 1, "line": codes(trunc(lines[k], 2000)), "id": codes(trunc(spans[k].v, 30)), "text": codes(trunc(spans[k].text, 2030)), "cut": len(lines[k]) > 2000})
		}
	}
	return len(lines), len(spans), samples, clean
}

// looks classifies data: certainly text, certainly not, or neither.
func looks(data string) string {
	cls := "text"
	for i := 0; i < len(data); {
		x, n := utf8.DecodeRuneInString(data[i:])
		inv := x == utf8.RuneError && n == 1
		ctl := x < 32 && x != 9 && x != 10 && x != 12
		if (inv || ctl && x != 13) && i < 1000 && i+4 <= len(data) {
			return "binary"
		}
		if inv || ctl || x == utf8.RuneError {
			cls = ""
		}
		i += n
	}
	return cls
}

func webName(r *rand.Rand) string {
	pool := []string{"a", "b.go", "a b", "x<y>", "q\"r", "it's", "a&b", "a&amp;b", "50%", "%41", "a?b=c", "a#b", "é", "日本", "a+b", "a;b", "~x", ".hidden", "a:b", "javascript:x", "a\\b", "=", "[z]", "{z}", "a|b", "L1", "span", "a,b", "^", "a\x7f", "a@b", "$", "a..b", "%2e%2e", "%2F", "index.html"}
	s := pool[r.Intn(len(pool))]
	if r.Intn(4) == 0 {
		s += pool[r.Intn(len(pool))]
	}
	return s
}

// hasTrail reports whether every part of path has its link.
func hasTrail(parts []part, path string) bool {
	have := map[[2]string]bool{}
	for _, l := range elements(parts, "a", "href") {
		if u, err := url.Parse(l.v); err == nil {
			have[[2]string{l.text, strings.ReplaceAll(u.Path, "//", "/")}] = true
		}
	}
	at := ""
	for _, el := range strings.Split(path[1:], "/") {
		at += "/" + el
		if !have[[2]string{el, "/show" + at}] {
			return false
		}
	}
	return true
}

func runC17(c *Ctx, idx int) {
	r := c.Rng
	w := c.web()
	dir := c.Tmp("dir")
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	for k := r.Intn(3); k > 0; k-- {
		dir += "/" + webName(r)
	}
	must(os.MkdirAll(dir, 0755))
	q := url.Values{}
	if r.Intn(3) == 0 {
		q.Set("q", []string{"a", "<b>", "x y", "("}[r.Intn(4)])
	}
	fail := func(resp response) bool {
		if resp.err != "" {
			c.Emit(Event{"kind": "crash", "msg": "csweb: " + resp.err})
			w.stop()
			return true
		}
		return false
	}
	if idx%3 == 0 {
		seen := map[string]bool{}
		for k := r.Intn(9); k > 0; k-- {
			n := webName(r)
			if r.Intn(20) == 0 {
				n = strings.Repeat(n+"x", 200)[:100+r.Intn(100)]
			}
			if seen[n] || !utf8.ValidString(n) {
				continue
			}
			seen[n] = true
			p := dir + "/" + n
			switch r.Intn(5) {
			case 0:
				must(os.Mkdir(p, 0755))
			case 1:
				must(os.Symlink("nowhere", p))
			default:
				must(os.WriteFile(p, []byte("x\n"), 0644))
			}
		}
		var entries []string
		for n := range seen {
			entries = append(entries, n)
		}
		entries = sortUnique(entries)
		resp := w.get("/show"+dir, q)
		if fail(resp) {
			return
		}
		c.Count("directories", 1)
		c.Count("entries", len(entries))
		// follow the links
		parts, ok := parsePage(resp.body)
		sus := !ok || resp.code != 200
		left := len(entries)
		for _, l := range elements(parts, "a", "href") {
			u, err := url.Parse(l.v)
			if err == nil && strings.HasPrefix(strings.ReplaceAll(u.Path, "//", "/"), "/show"+dir+"/") {
				left--
				sus = sus || !seen[l.text] || strings.ReplaceAll(u.Path, "//", "/") != "/show"+dir+"/"+l.text
			}
		}
		var es [][]int
		for _, n := range entries {
			es = append(es, codes(n))
		}
		sus = sus || !hasTrail(parts, dir)
		c.Screen(Event{"kind": "dir", "code": resp.code, "path": codes(dir), "entries": nonNil(es), "page": codes(resp.body[:min(len(resp.body), 60000)])}, sus || left != 0, idx%c.Pick(5, 13) == 0)
		return
	}
	name := dir + "/" + webName(r)
	data := someContent(r)
	big := idx%50 == 1
	huge := idx%c.Pick(400, 1000) == 4
	if huge {
		// line numbers of six digits
		c.Count("huge_files", 1)
		var b strings.Builder
		for k := 0; k < 99990+r.Intn(10000); k++ {
			b.WriteString([]string{"", "x", "<", "é"}[r.Intn(4)] + "\n")
		}
		data = b.String() + strings.Repeat("last\n", 25)
	} else if big {
		n := 2000 + r.Intn(12000)
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteString([]string{"line", "<x>", "", "é", strings.Repeat("y&", 40)}[r.Intn(5)])
			b.WriteByte('\n')
		}
		data = b.String()
		switch r.Intn(4) {
		case 0:
			data += "\x00"
		case 1:
			data = "\x00" + data
		case 2:
			data = data[:len(data)-1]
		}
	}
	must(os.WriteFile(name, []byte(data), 0644))
	resp := w.get("/show"+name, q)
	if fail(resp) {
		return
	}
	c.Count("files", 1)
	cls := looks(data)
	c.Count("files_"+cls, 1)
	raw := resp.body == data
	ren := renders(resp.body, data)
	if !raw {
		parts, _ := parsePage(resp.body)
		ren = ren && hasTrail(parts, name)
	}
	sus := resp.code != 200 || cls == "text" && !ren || cls == "binary" && !raw || !raw && !ren
	if big || len(resp.body) > 30000 || len(data) > 8000 {
		c.Count("large_files", 1)
		nl, ns, samples, clean := 0, 0, []map[string]any{}, true
		if !raw {
			nl, ns, samples, clean = lineSamples(r, resp.body, data)
		}
		c.Screen(Event{"kind": "big", "code": resp.code, "clear": cls, "raw": raw, "nlines": nl, "nspans": ns, "samples": samples, "clean": clean, "size": len(data), "name": trunc(name, 300)}, sus, true)
		return
	}
	c.Screen(Event{"kind": "file", "code": resp.code, "data": codes(data), "page": codes(resp.body), "path": codes(name)}, sus, idx%c.Pick(10, 26) <= 1)
}

// C16

var hostile = []string{"<", ">", "&", "\"", "'"}
var harmless = strings.NewReplacer("<", ":", ">", "@", "&", "%", "\"", "!", "'", ",")

var payloads = []string{"<b>", "</pre>", "<script>", "\"onload=\"x", "' x='", "&lt;", "&#60;", "&amp;", "-->", "<?", "<", ">", "\">", "'>", "<img src=x onerror=y>", "</title>", "&", "<a href=\"/x\">", "]]>", "a=b", "\"", "</span>", "</a>", "&quot;", "\"><i>", "`<u>`"}

func evil(r *rand.Rand, max int) string {
	s := ""
	for k := 1 + r.Intn(max); k > 0; k-- {
		switch r.Intn(4) {
		case 0:
			s += []string{"a", "b", "ab", " ", "1"}[r.Intn(5)]
		case 1:
			s += hostile[r.Intn(len(hostile))]
		default:
			s += payloads[r.Intn(len(payloads))]
		}
	}
	return s
}

func evilName(r *rand.Rand) string {
	s := strings.ReplaceAll(evil(r, 3), "/", "")
	if s == "" || strings.Trim(s, ".") == "" || len(s) > 100 {
		return "<x"
	}
	return s
}

func runC16(c *Ctx, idx int) {
	r := c.Rng
	w := c.web()
	top := c.Tmp("dir")
	defer os.RemoveAll(top)
	defer os.Remove(w.index)
	var pages [2]response
	var what string
	timed := false
	seed := r.Int63()
	kind := r.Intn(8)
	for v := 0; v < 2; v++ {
		h := func(s string) string { return s }
		dir := top
		must(os.RemoveAll(top))
		if v == 1 {
			h = harmless.Replace
		}
		r := rand.New(rand.NewSource(seed))
		must(os.MkdirAll(dir, 0755))
		var q = url.Values{}
		path := "/"
		for k := r.Intn(3); k > 0; k-- {
			dir += "/" + h(evilName(r))
		}
		must(os.MkdirAll(dir, 0755))
		switch kind {
		case 0, 1:
			what = "search"
			timed = true
			word := evil(r, 2)
			seen := map[string]bool{}
			var fs []file
			var turned []string
			for k := 1 + r.Intn(5); k > 0; k-- {
				n := evilName(r)
				z := r.Intn(6) == 0
				e := evilName(r)
				turn := r.Intn(8) == 0
				var b strings.Builder
				for j := r.Intn(5); j >= 0; j-- {
					l := evil(r, 3)
					if r.Intn(2) == 0 {
						l += word
					}
					b.WriteString(h(l))
					if j > 0 || r.Intn(2) == 0 {
						b.WriteString("\n")
					}
				}
				if seen[n] {
					continue
				}
				seen[n] = true
				n = dir + "/" + h(n)
				if z {
					n += ".zip\x01" + h(e)
				} else if turn {
					turned = append(turned, n)
				}
				fs = append(fs, file{n, []byte(b.String())})
			}
			sortFiles(fs)
			writeFiles(fs)
			build(w.index, []string{top}, fs, buildOpt{})
			for _, n := range turned {
				// it cannot be read any more
				must(os.Remove(n))
				must(os.Mkdir(n, 0755))
			}
			q.Set("q", quoteMeta(h(word)))
			if r.Intn(3) == 0 {
				q.Set("q", quoteMeta(h(word))+"|"+quoteMeta(h(evil(r, 1))))
			}
			if r.Intn(4) == 0 {
				q.Set("f", quoteMeta(h(evilName(r)))+"|.")
			}
		case 2:
			what = "bad query"
			q.Set("q", h(badTwin(r)))
		case 3:
			what = "bad filter"
			q.Set("q", h(quoteMeta(evil(r, 2))))
			q.Set("f", h(badTwin(r)))
		case 4, 5:
			what = "file"
			n := dir + "/" + h(evilName(r))
			var b strings.Builder
			for j := r.Intn(8); j > 0; j-- {
				b.WriteString(h(evil(r, 4)))
				if j > 1 || r.Intn(2) == 0 {
					b.WriteString("\n")
				}
			}
			must(os.WriteFile(n, []byte(b.String()), 0644))
			path = "/show" + n
			if r.Intn(2) == 0 {
				q.Set("q", h(evil(r, 3)))
			}
		case 6:
			what = "directory"
			for k := r.Intn(6); k > 0; k-- {
				p := dir + "/" + h(evilName(r))
				if r.Intn(3) == 0 {
					os.Mkdir(p, 0755)
				} else if _, err := os.Lstat(p); err != nil {
					must(os.WriteFile(p, nil, 0644))
				}
			}
			path = "/show" + dir
			if r.Intn(3) == 0 {
				q.Set("q", h(evil(r, 3)))
			}
		case 7:
			what = "missing"
			path = "/show" + dir + "/" + h(evilName(r))
		}
		pages[v] = w.get(path, q)
		if pages[v].err != "" {
			c.Emit(Event{"kind": "crash", "msg": "csweb: " + pages[v].err})
			w.stop()
			return
		}
	}
	c.Count(strings.ReplaceAll(what, " ", "_"), 1)
	a, b := pages[0], pages[1]
	isHTML := a.html() || sniffsHTML(a)
	pa, ok1 := parsePage(a.body)
	pb, ok2 := parsePage(b.body)
	sus := isHTML && (a.code != b.code || !ok1 || !ok2 || structure(pa) != structure(pb) ||
		untimed(harmless.Replace(shown(pa)), timed) != untimed(shown(pb), timed) || inputs(pa, harmless.Replace) != inputs(pb, func(s string) string { return s }))
	if len(a.body)+len(b.body) > 60000 {
		if !sus {
			return
		}
	}
	var m [][2]int
	for _, x := range hostile {
		m = append(m, [2]int{int(x[0]), int(harmless.Replace(x)[0])})
	}
	c.Screen(Event{"kind": "twins", "what": what, "html": isHTML, "timed": timed, "map": m, "code": a.code, "code2": b.code,
		"page": codes(a.body), "page2": codes(b.body)}, sus, idx%c.Pick(4, 20) == 0)
}

func inputs(parts []part, f func(string) string) string {
	s := ""
	for _, e := range elements(parts, "input", "value") {
		s += f(e.v) + "\x00"
	}
	return s
}

func untimed(s string, timed bool) string {
	if !timed {
		return s
	}
	for k := len(s) - 2; k > 0; k-- {
		if s[k] == '.' && '0' <= s[k-1] && s[k-1] <= '9' && '0' <= s[k+1] && s[k+1] <= '9' {
			return s[:k-1]
		}
	}
	return s
}

// sniffsHTML reports whether a browser would take the response for a page although it does not say so.
func sniffsHTML(r response) bool { return false }

// badTwin makes a pattern that is in error, and in the same way when made harmless.
func badTwin(r *rand.Rand) string {
	for {
		p := []string{"(%s", "[%s", "%s)", "a{2,1}%s", "(?P<%s", "%s\\", "[b-a]%s", "(?z%s", "x{1001}%s", "(?i)(%s", "\\p{%s", "[[:%s", "(?%s", "%s**", "*%s"}[r.Intn(15)]
		p = fmt.Sprintf(p, evil(r, 2))
		same := true
		for _, m := range []string{"", "(?m)"} {
			_, err := syntax.Parse(m+p, syntax.Perl)
			_, err2 := syntax.Parse(m+harmless.Replace(p), syntax.Perl)
			same = same && err != nil && err2 != nil && harmless.Replace(err.Error()) == err2.Error()
		}
		if same {
			return p
		}
	}
}

func quoteMeta(s string) string {
	var b bytes.Buffer
	for _, x := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, x) {
			b.WriteByte('\\')
		}
		b.WriteRune(x)
	}
	return b.String()
}
