package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
)

// Searches at the same time, and while the index is updated (Concurrent.tla).

func init() {
	props["C24"] = &Prop{N: func(c *Ctx) int { return len(c.GenCases()) + c.Pick(40, 400) }, Run: runC24, Net: true}
}

// conc is an index that updates extend directory by directory: version k holds the directories 0 to k.
type conc struct {
	c       *Ctx
	r       *rand.Rand
	w       *web
	dir     string
	tmp     string
	nver    int
	base    *gcase // all files
	vers    [][]int
	queries []*gcase
	bulk    bool
	gatefd  string // the file that is a pipe now
	gateTxt []byte
	mu      sync.Mutex
	started atomic.Int32
	ended   atomic.Int32
}

// request is one search.
type request struct {
	g      *gcase
	web    bool
	lo, hi int
	out    string
	exit   int
	resp   response
	gate   bool // reads the gate, too
}

const concFilter = "Zq"

func newConc(c *Ctx, nver int, long int) *conc {
	k := &conc{c: c, r: c.Rng, w: c.web(), dir: c.Tmp("tree"), tmp: c.Tmp("tmp"), nver: nver}
	must(os.MkdirAll(k.tmp, 0755))
	k.makeFiles(long)
	return k
}

func (k *conc) close() {
	os.RemoveAll(k.dir)
	os.RemoveAll(k.tmp)
	es, _ := os.ReadDir(filepath.Dir(k.w.index))
	for _, e := range es {
		os.Remove(filepath.Join(filepath.Dir(k.w.index), e.Name()))
	}
}

// makeFiles makes files and searches of them.
func (k *conc) makeFiles(long int) {
	r := k.r
	for {
		var rcs []reCase
		want := 3 + r.Intn(4)
		for len(rcs) < want {
			rc := genRe(r, 3, true, r.Intn(3) == 0, false)
			raw := strings.TrimPrefix(strings.TrimPrefix(rc.pat, "(?i)"), "(?m)")
			if raw == "" || strings.Contains(raw, "\x00") || !utf8.ValidString(raw) || strings.Contains(raw, `\B`) {
				continue
			}
			rcs = append(rcs, rc)
		}
		g := &gcase{caprun: 1000000}
		k.vers = nil
		var sofar []int
		for d := 0; d <= k.nver; d++ {
			for f := 2 + r.Intn(3); f > 0; f-- {
				nm := fmt.Sprintf("%s/d%d/%s%d", k.dir, d, concFilter, f)
				if r.Intn(4) == 0 {
					nm = fmt.Sprintf("%s/d%d/%s.zip\x01%s%d", k.dir, d, concFilter, []string{"m", "a/b", "z.go"}[r.Intn(3)], f)
				}
				g.files = append(g.files, gfile{name: nm, nl: true})
			}
			if d == 0 {
				g.files = append(g.files, gfile{name: k.dir + "/d0/Agate", nl: true})
			}
		}
		sort.Slice(g.files, func(i, j int) bool { return pathLess(g.files[i].name, g.files[j].name) })
		for i := range g.files {
			f := &g.files[i]
			gate := strings.HasSuffix(f.name, "Agate")
			for _, rc := range rcs {
				if !gate && r.Intn(3) == 0 {
					continue
				}
				for _, l := range rc.textFor(r, 1+r.Intn(4)) {
					n := 1
					if long > 0 && !gate {
						n = 1 + r.Intn(long)
					}
					g.add(f, l, n)
				}
			}
			if len(f.text) > 0 && g.tab[f.text[len(f.text)-1][0]-1] == "" {
				f.nl = true
			}
		}
		ok := len(g.tab) > 0
		for _, l := range g.tab {
			for _, rc := range rcs {
				ok = ok && rc.nwbOK(l) && len(l) < 1000
			}
		}
		for _, f := range g.files {
			ok = ok && eligible(g.bytes(f)) == 1
		}
		if !ok {
			continue
		}
		k.base = g
		for d := 0; d <= k.nver; d++ {
			for i, f := range g.files {
				if strings.HasPrefix(f.name, fmt.Sprintf("%s/d%d/", k.dir, d)) {
					sofar = append(sofar, i+1)
				}
			}
			k.vers = append(k.vers, append([]int{}, sofar...))
		}
		k.queries = nil
		for _, rc := range rcs {
			raw := strings.TrimPrefix(strings.TrimPrefix(rc.pat, "(?i)"), "(?m)")
			k.queries = append(k.queries, &gcase{re: rc.re, pat: rc.pat, raw: raw, fold: rc.fold, tab: g.tab, caprun: g.caprun})
		}
		break
	}
	g := k.base
	var fs []file
	for _, f := range g.files {
		fs = append(fs, file{f.name, g.bytes(f)})
	}
	writeFiles(fs)
	if out, errs, code := k.cindex("-reset", "-zip", k.dir+"/d0"); code != 0 {
		panic("cindex: " + out + errs)
	}
}

func (k *conc) env() []string {
	return []string{"CSEARCHINDEX=" + k.w.index, "TMPDIR=" + k.tmp}
}

func (k *conc) cindex(args ...string) (string, string, int) {
	return execute(k.c, "/", nil, k.env(), "cindex", args...)
}

// files of a version, as g sees them
func (k *conc) filesOf(v int) []gfile {
	var fs []gfile
	for _, i := range k.vers[v] {
		fs = append(fs, k.base.files[i-1])
	}
	return fs
}

func (k *conc) someRequest(r *rand.Rand, web bool) *request {
	q := *k.queries[r.Intn(len(k.queries))]
	q.fre, q.fpat = lits(concFilter), concFilter
	q.o = gopts{}
	if !web {
		switch r.Intn(5) {
		case 0:
			q.o.C = true
		case 1:
			q.o.L = true
		case 2:
			q.o.H = true
		default:
			q.o.N = true
		}
	} else {
		q.o = gopts{N: true, Limit: webLimit}
	}
	return &request{g: &q, web: web}
}

func (k *conc) doWeb(rq *request) {
	q := url.Values{}
	raw := rq.g.raw
	if rq.g.fold {
		raw = "(?i)" + raw
	}
	q.Set("q", raw)
	if !rq.gate {
		q.Set("f", rq.g.fpat)
	}
	rq.lo = int(k.ended.Load())
	rq.resp = k.w.get("/", q)
	rq.hi = int(k.started.Load())
}

func (k *conc) searchArgs(rq *request, r *rand.Rand) []string {
	return append(rq.g.flags(r), "-f", rq.g.fpat, "--", rq.g.raw)
}

func (k *conc) doSearch(rq *request, r *rand.Rand) {
	rq.lo = int(k.ended.Load())
	rq.out, _, rq.exit = execute(k.c, "/", nil, k.env(), "csearch", k.searchArgs(rq, r)...)
	rq.hi = int(k.started.Load())
}

// judge records requests: those that look wrong, and some of the others.
func (k *conc) judge(rqs []*request, every int) {
	c := k.c
	died := false
	for n, rq := range rqs {
		c.Count("requests", 1)
		if rq.lo < rq.hi {
			c.Count("requests_during_updates", 1)
		}
		if rq.gate {
			rq.g.fre, rq.g.fpat = nil, ""
		}
		sus := true
		for v := rq.lo; v <= rq.hi && sus; v++ {
			rq.g.files = k.filesOf(v)
			want := rq.g.expect()
			if rq.web {
				sus = rq.resp.err != "" || rq.resp.code != 200 || !resultsLook(rq.resp.body, want)
			} else {
				sus = rq.out != want.out || rq.exit != 1-boolInt(want.any)
			}
			if !sus && want.any {
				c.Count("searches_with_matches", 1)
			}
		}
		if rq.web && rq.resp.err != "" {
			if !died {
				c.Emit(Event{"kind": "crash", "msg": "csweb: " + rq.resp.err})
			}
			died = true
			continue
		}
		if len(rq.resp.body) > 20000 || len(rq.out) > 20000 {
			if !sus {
				c.Screen(nil, false, false)
				continue
			}
			rq.resp.body = rq.resp.body[:min(20000, len(rq.resp.body))]
			rq.out = rq.out[:min(20000, len(rq.out))]
		}
		rq.g.files = k.base.files
		e := rq.g.event()
		cands := [][]int{}
		for v := rq.lo; v <= rq.hi; v++ {
			cands = append(cands, k.vers[v])
		}
		e["cands"] = cands
		if rq.web {
			e["kind"], e["code"], e["page"], e["limit"] = "results", rq.resp.code, codes(rq.resp.body), webLimit
		} else {
			e["kind"], e["runs"] = "grep", []Event{{"via": "cmd", "small": false, "cap": 0, "out": runsOf(rq.out), "exit": rq.exit}}
		}
		c.Screen(e, sus, n%every == 0)
	}
	if died {
		k.w.stop()
	}
}

// update runs cindex to make the next version; gate is called at its operations.
func (k *conc) update(gate func(n int, o sysop)) {
	v := int(k.started.Add(1))
	errs := k.c.Tmp("stderr")
	t := &tracee{dirs: map[string]string{filepath.Dir(k.w.index): "index", k.tmp: "tmp"}, cwd: "/", env: append([]string{"PATH=" + os.Getenv("PATH")}, k.env()...),
		argv: []string{filepath.Join(k.c.Bin, "cindex"), "-zip", fmt.Sprintf("%s/d%d", k.dir, v)}, stderr: errs, gate: gate}
	_, exit, _, err := t.run()
	must(err)
	text, _ := os.ReadFile(errs)
	os.Remove(errs)
	if exit != 0 {
		k.c.Emit(Event{"kind": "crash", "msg": fmt.Sprintf("cindex: exit status %d: %s", exit, text)})
	}
	k.ended.Add(1)
	k.c.Count("updates", 1)
}

func runC24(c *Ctx, idx int) {
	gen := c.GenCases()
	if idx < len(gen) {
		k := newConc(c, 3, 0)
		defer k.close()
		k.schedule(gen[idx])
		c.Count("generated_schedules", 1)
		return
	}
	k := newConc(c, 2+c.Rng.Intn(4), []int{1, 20, 300}[c.Rng.Intn(3)])
	defer k.close()
	k.stress((idx-len(gen))%8 == 0)
	c.Count("stress_runs", 1)
}

// stress searches from many sides while updates run slowly.
func (k *conc) stress(bulk bool) {
	c := k.c
	var all []*request
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan bool)
	add := func(rq *request) {
		mu.Lock()
		all = append(all, rq)
		mu.Unlock()
	}
	client := func(seed int64, web bool) {
		defer wg.Done()
		r := rand.New(rand.NewSource(seed))
		last := false
		for !last {
			select {
			case <-stop:
				last = true // once more
			default:
			}
			rq := k.someRequest(r, web)
			if web {
				k.doWeb(rq)
			} else {
				k.doSearch(rq, r)
			}
			add(rq)
			if rq.resp.err != "" {
				return
			}
		}
	}
	var limits []Event
	if bulk {
		c.Count("limit_stress", 1)
		k.addBulk()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 2 {
				limits = append(limits, k.bulkSearch())
			}
		}()
	}
	for range 4 {
		wg.Add(1)
		go client(k.r.Int63(), true)
	}
	for range 2 {
		wg.Add(1)
		go client(k.r.Int63(), false)
	}
	pause := rand.New(rand.NewSource(k.r.Int63()))
	for range k.nver {
		k.update(func(n int, o sysop) {
			if o.Role != "tmp" || pause.Intn(4) == 0 {
				time.Sleep(time.Duration(pause.Intn(2500)) * time.Microsecond)
			}
		})
	}
	close(stop)
	wg.Wait()
	for _, e := range limits {
		c.Screen(e, e["same"] != true, true)
	}
	k.judge(all, c.Pick(60, 200))
}

const bulkWord = "zzbulk"

// addBulk adds a file with more lines than csweb shows. It belongs to no version: no other search finds anything in it.
func (k *conc) addBulk() {
	must(os.WriteFile(k.dir+"/d0/Abulk", []byte(strings.Repeat(bulkWord+"\n", webLimit+5)), 0644))
	if out, errs, code := k.cindex("-zip", k.dir+"/d0"); code != 0 {
		panic("cindex: " + out + errs)
	}
}

func (k *conc) bulkSearch() Event {
	resp := k.w.get("/", url.Values{"q": {bulkWord}})
	parts, _ := parsePage(resp.body)
	parts = afterPre(parts)
	body := strings.TrimPrefix(shown(parts), "\n")
	var b strings.Builder
	for n := 1; n <= webLimit; n++ {
		fmt.Fprintf(&b, "%s/d0/Abulk:%d:%s\n", k.dir, n, bulkWord)
	}
	same := strings.HasPrefix(body, b.String())
	rest := strings.TrimPrefix(body, b.String())
	return Event{"kind": "limit", "total": webLimit + 5, "limit": webLimit, "links": len(elements(parts, "a", "href")), "same": same, "rest": codes(rest[:min(len(rest), 200)]), "err": resp.err}
}

// A runner is something that goes on step by step.
type runner struct {
	token   chan bool // permission to go on
	reached chan bool // it waits for permission
	done    chan bool
}

func newRunner() *runner {
	return &runner{make(chan bool, 100), make(chan bool, 100), make(chan bool)}
}

// wait stops until the runner waits for permission or is over.
func (x *runner) wait() {
	select {
	case <-x.reached:
	case <-x.done:
	}
}

// hold is called by the runner.
func (x *runner) hold() {
	x.reached <- true
	<-x.token
}

func (x *runner) step() {
	x.token <- true
	x.wait()
}

func (x *runner) finish() {
	for {
		select {
		case <-x.done:
			return
		case <-x.reached:
		case x.token <- true:
			time.Sleep(time.Millisecond)
		}
	}
}

// schedule does what TLC generated, step by step: an update stops before its first operation, before the renaming and after it;
// csearch (searcher 1) stops before it opens the index and before it opens a file; csweb (searcher 2) stops at a file that is a pipe.
func (k *conc) schedule(raw json.RawMessage) {
	var h struct {
		Steps []struct {
			Who  int
			Step string
		}
	}
	must(json.Unmarshal(raw, &h))
	c := k.c
	gate := k.dir + "/d0/Agate"
	text, err := os.ReadFile(gate)
	must(err)
	must(os.Remove(gate))
	must(syscall.Mkfifo(gate, 0644))
	var all []*request
	var update, search, web *runner
	side := func() {
		// others go on all the time
		rq := k.someRequest(k.r, true)
		k.doWeb(rq)
		all = append(all, rq)
	}
	for _, s := range h.Steps {
		switch {
		case s.Who == 0 && s.Step == "start":
			x := newRunner()
			update = x
			stage := 0
			go func() {
				k.update(func(n int, o sysop) {
					switch {
					case stage == 0 && o.Role != "tmp":
						stage = 1
						x.hold()
					case stage == 1 && strings.HasPrefix(o.Name, "rename"):
						stage = 2
						x.hold()
					case stage == 2:
						stage = 3
						x.hold()
					}
				})
				close(x.done)
			}()
			x.wait()
		case s.Who == 0 && s.Step == "end":
			update.finish()
		case s.Who == 0:
			update.step()
		case s.Who == 1 && s.Step == "start":
			x := newRunner()
			search = x
			rq := k.someRequest(k.r, false)
			all = append(all, rq)
			rq.lo = int(k.ended.Load())
			args := append([]string{filepath.Join(c.Bin, "csearch")}, k.searchArgs(rq, k.r)...)
			out, errs := c.Tmp("out"), c.Tmp("err")
			stage := 0
			t := &tracee{dirs: map[string]string{filepath.Dir(k.w.index): "index", k.dir: "tree"}, cwd: "/", env: append([]string{"PATH=" + os.Getenv("PATH")}, k.env()...),
				argv: args, stdout: out, stderr: errs, gate: func(n int, o sysop) {
					if stage == 0 || stage == 1 && o.Role == "tree" {
						stage++
						x.hold()
					}
				}}
			go func() {
				_, exit, _, err := t.run()
				must(err)
				rq.hi = int(k.started.Load())
				b, _ := os.ReadFile(out)
				rq.out, rq.exit = string(b), exit
				os.Remove(out)
				os.Remove(errs)
				close(x.done)
			}()
			x.wait()
		case s.Who == 1 && s.Step == "open":
			search.step()
		case s.Who == 1:
			search.finish()
		case s.Step == "open":
			x := newRunner()
			web = x
			rq := k.someRequest(k.r, true)
			rq.gate = true
			all = append(all, rq)
			go func() {
				k.doWeb(rq)
				close(x.done)
			}()
			go func() {
				for {
					f, err := os.OpenFile(gate, os.O_WRONLY|syscall.O_NONBLOCK, 0)
					if err == nil {
						c.Count("held_requests", 1)
						x.reached <- true
						<-x.token
						f.Write(text)
						f.Close()
						return
					}
					select {
					case <-x.done:
						return
					case <-time.After(200 * time.Microsecond):
					}
				}
			}()
			x.wait()
		case s.Step == "end":
			web.finish()
		}
		if k.r.Intn(3) == 0 {
			side()
		}
	}
	side()
	k.judge(all, c.Pick(8, 20))
}
