package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Long sessions of one csweb (WebServer.tla).

func init() {
	props["C27"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) }, Run: runC27, Net: true}
}

const (
	serveFiller  = 5000    // files of the index that are no more; their names make the index long
	serveRoom    = 2 << 30 // how much more memory csweb may map after the first requests
	serveSearchs = 60      // searches of the overlapping part
	serveRepeat  = 150     // times that a kind of request is repeated
)

// serve is a session.
type serve struct {
	c      *Ctx
	r      *rand.Rand
	w      *web
	dir    string
	vers   [2]string // the index files
	names  []string  // of the files that are there, in order
	data   map[string]string
	binary string
	broken []file                 // of the index, but not to be had
	expect [2]map[string][][2]int // by kind of search
	n      int                    // updates
	fresh  []byte
	hung   bool
}

var fillers []file // the same for all sessions of this process

func newServe(c *Ctx) *serve {
	s := &serve{c: c, r: c.Rng, w: c.web(), dir: c.Tmp("tree"), data: map[string]string{}}
	if fillers == nil {
		for range serveFiller {
			var b strings.Builder
			b.WriteString("/nowhere")
			for range 15 {
				b.WriteByte('/')
				for range 250 {
					b.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789"[s.r.Intn(36)])
				}
			}
			fillers = append(fillers, file{b.String(), []byte("filler\n")})
		}
		sort.Slice(fillers, func(i, j int) bool { return pathLess(fillers[i].name, fillers[j].name) })
	}
	for _, n := range []string{"a", "b.txt", "c/d", "e.zip\x01m", "e.zip\x01n/o", "f.zip\x01p", "g"} {
		var b strings.Builder
		for l := range 1 + s.r.Intn(40) {
			fmt.Fprintf(&b, "line %d%s%s\n", l, []string{"", " needle", ""}[s.r.Intn(3)], []string{"", " other", "", "", ""}[s.r.Intn(5)])
		}
		b.WriteString("needle and the other\n")
		s.names = append(s.names, s.dir+"/"+n)
		s.data[s.dir+"/"+n] = b.String()
	}
	var all []file
	for _, n := range s.names {
		all = append(all, file{n, []byte(s.data[n])})
	}
	writeFiles(all)
	// an entry that cannot be opened, entries of no archive, files that are no more
	bad := []byte("needle other\n")
	for _, n := range []string{"e.zip\x01lost", "h.zip\x01u", "i.zip\x01gone", "j/gone", "k"} {
		s.broken = append(s.broken, file{s.dir + "/" + n, bad})
	}
	z := zipFile(s.dir+"/h.zip", s.dir+"/h.zip\x01", []file{s.broken[1]})
	z.Close()
	data, err := os.ReadFile(s.dir + "/h.zip")
	must(err)
	dir := strings.Index(string(data), "PK\x01\x02")
	data[dir+10] = 77 // no such method
	must(os.WriteFile(s.dir+"/h.zip", data, 0644))
	must(os.Mkdir(s.dir+"/k", 0755))
	s.binary = "\x00\x01\x02binary\xff" + strings.Repeat("\x00z", s.r.Intn(3000))
	must(os.WriteFile(s.dir+"/bin", []byte(s.binary), 0644))
	for v := range 2 {
		var fs []file
		some := map[string]bool{}
		for k, n := range s.names {
			if v == 0 && (k == 1 || k == 4) {
				continue // the first version does not have all of them
			}
			some[n] = true
			fs = append(fs, file{n, []byte(s.data[n])})
		}
		fs = append(fs, fillers...)
		fs = append(fs, s.broken...)
		sort.Slice(fs, func(i, j int) bool { return pathLess(fs[i].name, fs[j].name) })
		s.vers[v] = c.Tmp("index")
		build(s.vers[v], []string{s.dir, "/nowhere"}, fs, buildOpt{})
		s.expect[v] = map[string][][2]int{}
		for kind, f := range map[string]func(n, l string) bool{
			"hit":      func(n, l string) bool { return strings.Contains(l, "needle") },
			"some":     func(n, l string) bool { return strings.Contains(l, "needle other") },
			"filtered": func(n, l string) bool { return strings.Contains(l, "needle") && strings.HasSuffix(n, "b.txt") },
		} {
			ls := [][2]int{}
			for k, n := range s.names {
				if !some[n] {
					continue
				}
				for l, line := range strings.Split(s.data[n], "\n") {
					if f(n, line) {
						ls = append(ls, [2]int{k + 1, l + 1})
					}
				}
			}
			s.expect[v][kind] = ls
		}
	}
	s.replace()
	return s
}

func (s *serve) close() {
	s.w.stop()
	os.RemoveAll(s.dir)
	for _, v := range s.vers {
		os.Remove(v)
	}
	es, _ := os.ReadDir(filepath.Dir(s.w.index))
	for _, e := range es {
		os.Remove(filepath.Join(filepath.Dir(s.w.index), e.Name()))
	}
}

// replace makes version s.n the index, as cindex does.
func (s *serve) replace() {
	must(os.Link(s.vers[s.n%2], s.w.index+"~"))
	must(os.Rename(s.w.index+"~", s.w.index))
}

// visit is one request.
type visit struct {
	kind   string
	arg    string // what it asks for
	method string
	conn   net.Conn
	lo     int
	deaf   bool // a sloppy request: any answer will do
	left   bool
	wrote  chan bool
}

func oddRequest(r *rand.Rand) string {
	g := func(target string) string {
		return "GET " + target + " HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n"
	}
	switch r.Intn(16) {
	case 0:
		return g("/show/%00")
	case 1:
		return g("/show/../../../etc")
	case 2:
		return g("//")
	case 3:
		return g("/show")
	case 4:
		return g("/?%zz")
	case 5:
		return g("/?q=%zz&f=%")
	case 6:
		return "OPTIONS * HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n"
	case 7:
		return "FROB / HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n"
	case 8:
		return "GET / HTTP/1.0\r\n\r\n"
	case 9:
		return "POST /?q=needle HTTP/1.1\r\nHost: localhost\r\nContent-Type: multipart/form-data\r\nContent-Length: 5\r\nConnection: close\r\n\r\nhello"
	case 10:
		return "POST / HTTP/1.1\r\nHost: localhost\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 500\r\nConnection: close\r\n\r\nq=need"
	case 11:
		return "GET /?q=needle HTTP/1.1\r\nHost: loc"
	case 12:
		return g("/_static/../web.go")
	case 13:
		return g("/_static/")
	case 14:
		return "GET / HTTP/1.1\r\nHost: localhost\r\nX: " + strings.Repeat("y", 1200000) + "\r\n\r\n"
	default:
		return g("/show" + strings.Repeat("/x", 3000))
	}
}

// start sends a request.
func (s *serve) start(kind string) *visit {
	r := s.r
	v := &visit{kind: kind, method: "GET", lo: s.n, wrote: make(chan bool)}
	path, q, body := "/", url.Values{}, ""
	switch kind {
	case "hit":
		q.Set("q", []string{"needle", "(needle)", "n.?eedle", "[mn]eedle", "(?i)NEEDLE"}[r.Intn(5)])
	case "hitpost":
		v.method, body = "POST", url.Values{"q": {"needle"}}.Encode()
	case "some":
		q.Set("q", "needle other")
	case "filtered":
		q.Set("q", "needle")
		q.Set("f", `b\.txt$`)
	case "miss":
		q.Set("q", []string{"needlf", "xyzzy", "needle$needle", "[^\\x00-\\x{10FFFF}]"}[r.Intn(4)])
	case "long":
		q.Set("q", strings.Repeat("needle", 100+r.Intn(600))+strconv.Itoa(r.Int()))
	case "badquery":
		q.Set("q", []string{"(", ")", "a**", "[", `\`, "a{2,1}", "(?P<x", "(?z)", `\pQ`}[r.Intn(9)])
	case "badfilter":
		q.Set("q", "needle")
		q.Set("f", []string{"(", "*", "[z-a]", "a{1001}"}[r.Intn(4)])
	case "notutf8":
		q.Set("q", "needle\xff")
	case "deep":
		q.Set("q", []string{strings.Repeat("(", 1500) + strings.Repeat(")", 1500), "((a{100}){100}){100}"}[r.Intn(2)])
	case "head":
		v.method = "HEAD"
		if r.Intn(2) == 0 {
			q.Set("q", "needle")
		}
	case "home":
	case "file":
		v.arg = []string{"a", "b.txt", "c/d", "g"}[r.Intn(4)]
		path = "/show" + s.dir + "/" + v.arg
	case "binary":
		path = "/show" + s.dir + "/bin"
	case "fresh":
		// a file that changes all the time
		s.fresh = bytes.Repeat(fmt.Appendf(nil, "\x00%d", r.Int63()), 2000000/20)
		path = "/show" + s.dir + "/fresh"
		must(os.WriteFile(s.dir+"/fresh", s.fresh, 0644))
	case "dir":
		path = "/show" + s.dir
	case "nofile":
		path = "/show" + s.dir + []string{"/none", "/a/b", "/" + strings.Repeat("n", 300)}[r.Intn(3)]
	case "nostatic":
		path = "/_static/none.css"
	case "nopage":
		path = ""
	case "static":
		path = "/_static/" + []string{"viewer.css", "viewer.js"}[r.Intn(2)]
	}
	conn, err := net.DialTimeout("tcp", webAddr, 10*time.Second)
	if err != nil {
		close(v.wrote)
		return v
	}
	v.conn = conn
	var text string
	switch kind {
	case "odd":
		text, v.deaf = oddRequest(r), true
	case "garbage":
		text = []string{"garbage\r\n\r\n", "GET\r\n\r\n", "\x00\x01\r\n\r\n"}[r.Intn(3)]
	case "nopage":
		text = "GET http:// HTTP/1.1\r\n\r\n" // no host
	default:
		u := url.URL{Path: path, RawQuery: q.Encode()}
		text = fmt.Sprintf("%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n", v.method, u.RequestURI())
		if body != "" {
			text += fmt.Sprintf("Content-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n", len(body))
		}
		text += "\r\n" + body
	}
	go func() {
		io.WriteString(conn, text)
		close(v.wrote)
	}()
	return v
}

// leave closes the connection before the answer has been read.
func (s *serve) leave(v *visit) {
	if v.conn == nil {
		return
	}
	if t, ok := v.conn.(*net.TCPConn); ok && s.r.Intn(2) == 0 {
		t.SetLinger(0)
	}
	v.conn.Close()
}

var (
	serveLine  = regexp.MustCompile(`^(/[^:]*):(\d+):`)
	serveCount = regexp.MustCompile(`^(\d+) matches`)
)

// take reads the answer.
func (s *serve) take(v *visit) Event {
	e := Event{"kind": v.kind, "err": "", "code": 0, "lines": [][2]int{}, "links": 0, "count": -1, "has": false, "lo": v.lo}
	if v.conn == nil {
		e["err"] = "no connection"
		return e
	}
	defer v.conn.Close()
	wait := 30 * time.Second
	if s.hung {
		wait = time.Second
	}
	if v.deaf {
		v.conn.SetDeadline(time.Now().Add(100 * time.Millisecond))
		io.Copy(io.Discard, v.conn)
		return e
	}
	v.conn.SetDeadline(time.Now().Add(wait))
	resp, err := http.ReadResponse(bufio.NewReader(v.conn), &http.Request{Method: v.method})
	var data []byte
	if err == nil {
		data, err = io.ReadAll(resp.Body)
	}
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			s.hung = true
		}
		e["err"] = err.Error()
		return e
	}
	page := string(data)
	e["code"] = resp.StatusCode
	parts, ok := parsePage(page)
	text := ""
	if ok {
		text = shown(afterPre(parts))
	}
	switch v.kind {
	case "file":
		e["has"] = renders(page, s.data[s.dir+"/"+v.arg])
	case "binary":
		e["has"] = page == s.binary
	case "fresh":
		e["has"] = page == string(s.fresh)
	case "static":
		e["has"] = page != ""
	case "dir":
		all := true
		for _, n := range []string{"a", "b.txt", "c", "e.zip", "f.zip", "g", "bin"} {
			found := false
			for _, el := range elements(parts, "a", "href") {
				found = found || el.text == n
			}
			all = all && found
		}
		e["has"] = ok && all
	case "home":
		for _, p := range parts {
			if p.tag && p.name == "input" {
				e["has"] = true
			}
		}
	default:
		e["has"] = ok && strings.TrimSpace(text) != ""
		lines := [][2]int{}
		for _, l := range strings.Split(text, "\n") {
			if m := serveCount.FindStringSubmatch(l); m != nil {
				e["count"], _ = strconv.Atoi(m[1])
			}
			if m := serveLine.FindStringSubmatch(l); m != nil {
				no, _ := strconv.Atoi(m[2])
				for k, n := range s.names {
					if m[1] == n {
						ok := no >= 1 && no <= strings.Count(s.data[n], "\n") && l == fmt.Sprintf("%s:%d:%s", n, no, strings.Split(s.data[n], "\n")[no-1])
						lines = append(lines, [2]int{(k + 1) * boolInt(ok), no})
					}
				}
			}
		}
		e["lines"] = lines
		e["links"] = len(elements(afterPre(parts), "a", "href"))
	}
	return e
}

// good is Answers of WebKinds.tla, for screening.
func (s *serve) good(e Event, vers []int) bool {
	code := e["code"].(int)
	if e["err"] != "" {
		return false
	}
	kind := e["kind"].(string)
	switch kind {
	case "hit", "hitpost", "some", "miss", "long", "filtered":
		for _, v := range vers {
			k := strings.TrimSuffix(kind, "post")
			want := s.expect[v%2][k]
			if want == nil {
				want = [][2]int{}
			}
			if code == 200 && reflect.DeepEqual(e["lines"], want) && e["count"] == len(want) {
				return true
			}
		}
		return false
	case "badquery", "badfilter", "notutf8", "deep":
		return code == 200 && len(e["lines"].([][2]int)) == 0 && e["count"] == -1 && e["has"] == true
	case "home", "file", "binary", "fresh", "dir", "static":
		return code == 200 && e["has"] == true
	case "head":
		return code == 200
	case "odd":
		return true
	}
	return code >= 400 && code < 600
}

// limit restricts the memory csweb can map, and the files it can have open.
func (s *serve) limit() {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", s.w.cmd.Process.Pid))
	if err != nil {
		return // it is no more: the next request tells
	}
	m := regexp.MustCompile(`VmSize:\s*(\d+) kB`).FindSubmatch(data)
	if m == nil {
		return
	}
	kb, _ := strconv.Atoi(string(m[1]))
	set := func(what int, n uint64) {
		l := syscall.Rlimit{Cur: n, Max: n}
		_, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.w.cmd.Process.Pid), uintptr(what), uintptr(unsafe.Pointer(&l)), 0, 0, 0)
		if e != 0 && e != syscall.ESRCH {
			must(e)
		}
	}
	set(syscall.RLIMIT_AS, uint64(kb)<<10+serveRoom)
	set(syscall.RLIMIT_NOFILE, 256)
}

// resources tells what csweb has when it has nothing to do: open files, mappings of the index, memory in megabytes.
func (s *serve) resources() Event {
	time.Sleep(20 * time.Millisecond)
	pid := s.w.cmd.Process.Pid
	fds, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	data, _ := os.ReadFile(fmt.Sprintf("/proc/%d/maps", pid))
	e := Event{"fds": len(fds), "maps": strings.Count(string(data), filepath.Dir(s.w.index)), "rss": 0}
	data, _ = os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if m := regexp.MustCompile(`VmRSS:\s*(\d+) kB`).FindSubmatch(data); m != nil {
		kb, _ := strconv.Atoi(string(m[1]))
		e["rss"] = kb >> 10
	}
	return e
}

// repeat makes the same kind of request over and over.
func (s *serve) repeat(kind string, lines []Event) bool {
	c := s.c
	before := s.resources()
	reqs := []Event{}
	all := true
	n := 0
	for ; n < c.Pick(serveRepeat, 3*serveRepeat) && all; n++ {
		v := s.start(kind)
		if v.deaf && n%10 != 0 || !v.deaf && s.r.Intn(8) == 0 {
			s.leave(v)
			continue
		}
		e := s.take(v)
		if n%40 == 7 {
			s.n++
			s.replace()
		}
		e["vers"] = []int{v.lo, s.n}
		delete(e, "lo")
		if all = s.good(e, []int{v.lo, s.n}); !all || n%20 == 0 {
			reqs = append(reqs, e)
		}
	}
	c.Count("repeated_"+kind, n)
	after := s.resources()
	for k := 0; k < 20 && !modest(before, after); k++ {
		time.Sleep(100 * time.Millisecond)
		after = s.resources()
	}
	e := Event{"kind": "repeated", "what": kind, "n": n, "reqs": reqs, "index": lines, "before": before, "after": after}
	if !all {
		e["log"] = strconv.QuoteToASCII(s.w.errs.tail(300))
	}
	ok := all && modest(before, after)
	c.Screen(e, !ok, true)
	return ok
}

// modest is Modest of WebKinds.tla.
func modest(a, b Event) bool {
	return b["fds"].(int)-a["fds"].(int) <= 30 && b["maps"].(int)-a["maps"].(int) <= 10 && b["rss"].(int)-a["rss"].(int) <= 100
}

func runC27(c *Ctx, idx int) {
	var h struct {
		Steps []struct {
			Who        int
			Step, Kind string
		}
	}
	must(json.Unmarshal(c.GenCases()[idx], &h))
	s := newServe(c)
	defer s.close()
	searches := 0
	lines := []Event{}
	for v := range 2 {
		lines = append(lines, Event{"hit": s.expect[v]["hit"], "some": s.expect[v]["some"], "filtered": s.expect[v]["filtered"]})
	}
	for round := 0; searches < c.Pick(serveSearchs, 10*serveSearchs) && round < 1000; round++ {
		if round == 1 {
			s.limit()
			searches = 0
		}
		at := map[int]*visit{}
		reqs := []Event{}
		all, dead := true, false
		for _, st := range h.Steps {
			switch st.Step {
			case "update":
				s.n++
				s.replace()
				c.Count("updates", 1)
			case "start":
				at[st.Who] = s.start(st.Kind)
				switch st.Kind {
				case "hit", "hitpost", "some", "miss", "long", "filtered":
					searches++
				}
				c.Count("asked_"+st.Kind, 1)
				c.Count("requests", 1)
			case "leave":
				s.leave(at[st.Who])
				c.Count("clients_left", 1)
			case "take":
				e := s.take(at[st.Who])
				var vers []int
				for v := e["lo"].(int); v <= s.n; v++ {
					vers = append(vers, v)
				}
				e["vers"] = vers
				delete(e, "lo")
				ok := s.good(e, vers)
				all = all && ok
				reqs = append(reqs, e)
				dead = e["err"] != ""
			}
			if dead {
				break
			}
		}
		for _, v := range at {
			if v.conn != nil {
				v.conn.Close()
			}
		}
		e := Event{"kind": "session", "reqs": reqs, "index": lines, "round": round}
		if dead {
			e["log"] = strconv.QuoteToASCII(s.w.errs.tail(300))
		}
		c.Screen(e, !all, round < 2 || round%5 == 0)
		c.Count("sessions", 1)
		if dead || !all && round > 3 {
			return
		}
	}
	for range 4 {
		if !s.repeat(serveKinds[s.r.Intn(len(serveKinds))], lines) {
			return
		}
	}
}

var serveKinds = []string{"hit", "hitpost", "some", "miss", "long", "filtered", "badquery", "badfilter", "notutf8", "deep", "home", "file", "binary", "fresh", "dir",
	"nofile", "nostatic", "nopage", "static", "head", "garbage", "odd"}
