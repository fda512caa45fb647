// Command vdrive drives the real code of google/codesearch through generated
// scenarios and records what it did as ndjson events. It decides nothing about
// correctness: TLC judges the events against the specification in ../spec.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Event map[string]any

// A Prop generates the scenarios of one property.
type Prop struct {
	// N is the number of scenarios in this tier.
	N func(c *Ctx) int
	// Run runs scenario idx and emits events.
	Run func(c *Ctx, idx int)
	// Timeout of one scenario.
	Timeout time.Duration
	// Net: every child gets a network of its own (csweb has a fixed port).
	Net bool
	// Shards is the number of child processes (0: one per CPU).
	Shards int
	// MayCrash: a scenario that ends its process is an event like any other (Crash emits it).
}

var props = map[string]*Prop{}

// Ctx is what a scenario sees.
type Ctx struct {
	Prop, Tier, Bin, Scratch, Gen string
	Seed                          int64
	Idx                           int
	Rng                           *rand.Rand
	sub                           int
	out                           *bufio.Writer
	stats                         map[string]int64
	susp                          int
	gen                           []json.RawMessage
	genLoaded                     bool
	tmpn                          int
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Emit records an event to be judged.
func (c *Ctx) Emit(e Event) {
	e["id"] = fmt.Sprintf("%d.%d", c.Idx, c.sub)
	c.sub++
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	c.out.WriteString("E ")
	c.out.Write(b)
	c.out.WriteByte('\n')
}

const maxSuspicious = 8 // per child

// Screen records e if it looks suspicious, or if it belongs to the sample.
func (c *Ctx) Screen(e Event, suspicious, sample bool) {
	c.Count("screened", 1)
	if suspicious {
		c.Count("suspicious", 1)
		if c.susp >= maxSuspicious {
			return
		}
		c.susp++
		e["suspicious"] = true
		c.Emit(e)
		return
	}
	if sample {
		c.Emit(e)
	}
}

func (c *Ctx) Count(k string, n int) { c.stats[k] += int64(n) }

// Tmp returns a fresh path in the scratch directory.
func (c *Ctx) Tmp(suffix string) string {
	c.tmpn++
	return filepath.Join(c.Scratch, fmt.Sprintf("s%d_%d_%s", c.Idx, c.tmpn, suffix))
}

// GenCases returns the behaviours TLC generated (one JSON value per line).
func (c *Ctx) GenCases() []json.RawMessage {
	if c.genLoaded {
		return c.gen
	}
	c.genLoaded = true
	if c.Gen == "" {
		return nil
	}
	data, err := os.ReadFile(c.Gen)
	if err != nil {
		panic(err)
	}
	for _, l := range bytes.Split(data, []byte("\n")) {
		if len(l) > 0 {
			c.gen = append(c.gen, json.RawMessage(l))
		}
	}
	return c.gen
}

func hash64(s string) int64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return int64(h.Sum64())
}

// tailWriter keeps what was logged last.
type tailWriter struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append([]byte{}, t.b[len(t.b)-8<<10:]...)
	}
	return len(p), nil
}

func (t *tailWriter) tail(n int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := t.b
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return strings.ToValidUTF8(string(b), "?")
}

func main() {
	var (
		c     Ctx
		child = flag.Int("child", -1, "")
		nsh   = flag.Int("shards", 0, "")
		from  = flag.Int("from", 0, "")
		only  = flag.Int("only", -1, "run only this scenario")
		out   = flag.String("out", "", "")
	)
	if len(os.Args) > 1 {
		if f := helpers[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
	}
	flag.StringVar(&c.Prop, "prop", "", "")
	flag.StringVar(&c.Tier, "tier", "quick", "")
	flag.StringVar(&c.Bin, "bin", "", "directory with the built commands")
	flag.StringVar(&c.Scratch, "scratch", "", "")
	flag.StringVar(&c.Gen, "gen", "", "")
	flag.Int64Var(&c.Seed, "seed", 1, "")
	flag.Parse()
	p := props[c.Prop]
	if p == nil {
		log.Fatalf("unknown property %q", c.Prop)
	}
	c.stats = map[string]int64{}
	if *child >= 0 {
		runChild(p, &c, *child, *nsh, *from, *only)
		return
	}
	os.Exit(parent(p, &c, *out, *only))
}

// helpers are other entry points of this binary, run as subprocesses.
var helpers = map[string]func(args []string){}

func runOne(p *Prop, c *Ctx, idx int) {
	c.Idx, c.sub, c.tmpn = idx, 0, 0
	c.Rng = rand.New(rand.NewSource(c.Seed*1000003 ^ hash64(fmt.Sprintf("%s/%d", c.Prop, idx))))
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			c.Emit(Event{"kind": "crash", "idx": idx, "msg": fmt.Sprintf("panic: %v", e), "stack": trunc(st, 3000)})
		}
	}()
	p.Run(c, idx)
}

// must is for errors of the harness itself.
func must(err error) {
	if err != nil {
		harnessFailed(err)
	}
}

// expect is for errors that the code under test must not lead to.
func expect(err error) {
	if err != nil {
		panic(err)
	}
}

func harnessFailed(e any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: %v\n%s\n", e, debug.Stack())
	os.Exit(3)
}

func trunc(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return strings.ToValidUTF8(s, "?")
}

func runChild(p *Prop, c *Ctx, k, nsh, from, only int) {
	c.out = bufio.NewWriterSize(os.Stdout, 1<<16)
	if os.Getenv("VERIF_NETNS") != "" {
		must(loopbackUp())
	}
	n := p.N(c)
	for idx := k; idx < n; idx += nsh {
		if only >= 0 && idx != only || idx < from {
			continue
		}
		fmt.Fprintf(c.out, "B %d\n", idx)
		c.out.Flush()
		runOne(p, c, idx)
		fmt.Fprintf(c.out, "D %d\n", idx)
		c.out.Flush()
		if hangs.Load() >= maxHangs {
			break
		}
	}
	b, _ := json.Marshal(c.stats)
	fmt.Fprintf(c.out, "S %s\n", b)
	c.out.Flush()
}

func parent(p *Prop, c *Ctx, outName string, only int) int {
	outf, err := os.Create(outName)
	if err != nil {
		log.Fatal(err)
	}
	w := bufio.NewWriterSize(outf, 1<<20)
	var hung atomic.Bool
	var mu sync.Mutex
	nsh := p.Shards
	if nsh == 0 {
		nsh = runtime.NumCPU()
	}
	if p.Net && !canUnshare() {
		nsh = 1
		p.Net = false
	}
	total := map[string]int64{}
	scen := int64(0)
	rc := 0
	timeout := p.Timeout
	if timeout == 0 {
		timeout = 120 * time.Second
	}
	lines := map[int][]string{}
	var wg sync.WaitGroup
	for k := 0; k < nsh; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := 0
			onlyHere := only
			retry := -1
			crashes := 0
			for {
				last, res := spawn(p, c, k, nsh, from, onlyHere, timeout, func(tag byte, rest string) {
					mu.Lock()
					defer mu.Unlock()
					switch tag {
					case 'E':
						lines[k] = append(lines[k], rest)
					case 'D':
						scen++
					case 'S':
						var s map[string]int64
						if json.Unmarshal([]byte(rest), &s) == nil {
							for kk, v := range s {
								total[kk] += v
							}
						}
					}
				})
				if res.ok {
					if retry >= 0 {
						// A scenario that ended its process the first time but not when run again.
						mu.Lock()
						total["flaky"]++
						fmt.Fprintf(os.Stderr, "scenario %d ended its process once but not when repeated\n", retry)
						rc = 2
						mu.Unlock()
					}
					return
				}
				if res.harness || last < 0 {
					mu.Lock()
					fmt.Fprintf(os.Stderr, "driver child %d failed: %s\n", k, res.msg)
					rc = 2
					mu.Unlock()
					return
				}
				if res.timeout && hung.Load() {
					return // another one did, twice
				}
				if res.timeout && retry != last {
					// Repeat this scenario to see whether it does so again.
					retry = last
					from = last
					continue
				}
				mu.Lock()
				b, _ := json.Marshal(Event{"kind": "crash", "idx": last, "id": strconv.Itoa(last) + ".x", "msg": res.msg})
				lines[k] = append(lines[k], string(b))
				mu.Unlock()
				if res.timeout {
					hung.Store(true)
					return
				}
				crashes++
				retry = -1
				from = last + 1
				if crashes >= 4 || onlyHere >= 0 {
					return // enough evidence
				}
			}
		}()
	}
	wg.Wait()
	for k := 0; k < nsh; k++ {
		for _, l := range lines[k] {
			w.WriteString(l)
			w.WriteByte('\n')
		}
	}
	w.Flush()
	outf.Close()
	total["scenarios"] = scen
	b, _ := json.Marshal(total)
	fmt.Println(string(b))
	return rc
}

type childResult struct {
	ok, harness, timeout bool
	msg                  string
}

func spawn(p *Prop, c *Ctx, k, nsh, from, only int, timeout time.Duration, f func(tag byte, rest string)) (last int, res childResult) {
	last = -1
	scratch := filepath.Join(c.Scratch, fmt.Sprintf("child%d", k))
	os.RemoveAll(scratch)
	if err := os.MkdirAll(scratch+"/tmp", 0777); err != nil {
		return -1, childResult{harness: true, msg: err.Error()}
	}
	defer os.RemoveAll(scratch)
	cmd := exec.Command(os.Args[0], "-prop", c.Prop, "-tier", c.Tier, "-bin", c.Bin, "-gen", c.Gen,
		"-scratch", scratch, "-seed", strconv.FormatInt(c.Seed, 10), "-child", strconv.Itoa(k),
		"-shards", strconv.Itoa(nsh), "-from", strconv.Itoa(from), "-only", strconv.Itoa(only))
	cmd.Env = append(os.Environ(), "TMPDIR="+scratch+"/tmp", "CSEARCHINDEX="+scratch+"/no-index", "GOMEMLIMIT=2500MiB")
	if p.Net {
		cmd.Env = append(cmd.Env, "VERIF_NETNS=1")
		cmd.SysProcAttr = ownNet()
	}
	tw := &tailWriter{}
	cmd.Stderr = tw
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return -1, childResult{harness: true, msg: err.Error()}
	}
	if err := cmd.Start(); err != nil {
		return -1, childResult{harness: true, msg: err.Error()}
	}
	timedOut := false
	timer := time.AfterFunc(timeout, func() { timedOut = true; cmd.Process.Kill() })
	r := bufio.NewReaderSize(pipe, 1<<20)
	cur := -1
	var pending []string
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			break
		}
		line = line[:len(line)-1]
		tag, rest := line[0], line[2:]
		switch tag {
		case 'B':
			cur, _ = strconv.Atoi(rest)
			last = cur
			pending = nil
			timer.Reset(timeout)
		case 'E':
			pending = append(pending, rest)
		case 'D':
			for _, p := range pending {
				f('E', p)
			}
			pending = nil
			cur = -1
			f(tag, rest)
		default:
			f(tag, rest)
		}
	}
	err = cmd.Wait()
	timer.Stop()
	if err == nil {
		return last, childResult{ok: true}
	}
	msg := fmt.Sprintf("%v; %s", err, tw.tail(2500))
	if timedOut {
		msg = "no result within " + timeout.String() + "; " + msg
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		return last, childResult{harness: true, msg: msg}
	}
	if !timedOut && strings.Contains(err.Error(), "killed") {
		return last, childResult{harness: true, msg: "killed (out of memory?): " + msg}
	}
	if cur < 0 {
		return -1, childResult{harness: true, msg: msg}
	}
	return cur, childResult{msg: msg, timeout: timedOut}
}

// bytesOf turns a string into a JSON list of byte values.
func bytesOf(s string) []int {
	r := make([]int, len(s))
	for i := range len(s) {
		r[i] = int(s[i])
	}
	return r
}

func runesOf(s string) []int {
	r := []int{}
	for _, x := range s {
		r = append(r, int(x))
	}
	return r
}

func sortedKeys[V any](m map[int]V) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
