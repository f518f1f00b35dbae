// Driver of the counters.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"github.com/v2pro/plz/gls"
	"verif/harness/h"
)

type prop struct {
	Key []int `json:"key"`
	Val []int `json:"val"`
}

type site struct {
	Agg   []int  `json:"agg"`
	Event []int  `json:"event"`
	Props []prop `json:"props"`
}

type value struct {
	Str bool  `json:"str"`
	S   []int `json:"s"`
}

type key struct {
	S    int     `json:"s"` // from 1
	Vals []value `json:"vals"`
}

type op struct {
	Op  string `json:"op"`
	G   int    `json:"g"`
	K   int    `json:"k"`
	X   int    `json:"x"`
	S   int    `json:"s"`
	Pan bool   `json:"pan"`
}

type count struct {
	G int `json:"g"`
	K int `json:"k"`
	N int `json:"n"`
}

type kase struct {
	Kind      string  `json:"kind"`
	Sites     []site  `json:"sites"`
	Collector bool    `json:"collector"`
	Gs        int     `json:"gs"`
	Xs        int     `json:"xs"`
	Keys      []key   `json:"keys"`
	Ops       []op    `json:"ops"`
	Counts    []count `json:"counts"`
	Exporters int     `json:"exporters"`
	Wanted    int     `json:"wanted"`
	Default   bool    `json:"default"`
}

const patience = 20 * time.Second

var epoch = time.Date(2018, 1, 1, 0, 0, 0, 0, time.UTC)

type collector struct {
	mu       sync.Mutex
	rec      *h.Rec // nil: only sums
	token    map[int]chan bool
	free     map[int]chan struct{}
	injected map[int]bool
	kept     []*stats.Point
	dims     [][]string
	sums     map[string]float64
	keys     map[string][2]interface{}
	times    []time.Time
}

func numbers(dim []string) [][]int {
	out := [][]int{}
	for _, s := range dim {
		out = append(out, h.Str(s))
	}
	return out
}

func (c *collector) Collect(p *stats.Point) {
	dims := append([]string(nil), p.Dimension...)
	if c.rec == nil {
		b, _ := json.Marshal([]interface{}{h.Str(p.Event), numbers(dims)})
		c.mu.Lock()
		c.sums[string(b)] += p.Value
		c.keys[string(b)] = [2]interface{}{h.Str(p.Event), numbers(dims)}
		if len(c.times) == 0 || !c.times[len(c.times)-1].Equal(p.Timestamp) {
			c.times = append(c.times, p.Timestamp)
		}
		c.mu.Unlock()
		return
	}
	x := int(p.Timestamp.Sub(epoch) / time.Second)
	if !epoch.Add(time.Duration(x) * time.Second).Equal(p.Timestamp) {
		x = -1
	}
	v := int(p.Value)
	if float64(v) != p.Value {
		v = -1
	}
	c.rec.Log("Point", "x", x, "ev", h.Str(p.Event), "dim", numbers(dims), "v", v)
	c.mu.Lock()
	c.kept = append(c.kept, p)
	c.dims = append(c.dims, dims)
	token, free := c.token[x], c.free[x]
	c.mu.Unlock()
	if token == nil {
		return
	}
	select {
	case pan := <-token:
		if pan {
			c.mu.Lock()
			c.injected[x] = true
			c.mu.Unlock()
			panic("collector panicked")
		}
	case <-free:
	}
}

func (c *collector) unchanged() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, p := range c.kept {
		if fmt.Sprintf("%q", p.Dimension) != fmt.Sprintf("%q", c.dims[i]) {
			return false
		}
	}
	return true
}

// properties of an event; the strings live in buf, which is used again after the event was handled
func (k *kase) properties(ky key, buf *[]byte) []interface{} {
	s := k.Sites[ky.S-1]
	*buf = (*buf)[:0]
	total := 0
	for _, v := range ky.Vals {
		total += len(v.S)
	}
	if cap(*buf) < total {
		*buf = make([]byte, 0, total*2+8)
	}
	var out []interface{}
	for i, p := range s.Props {
		v := ky.Vals[i]
		if !v.Str {
			out = append(out, string(h.FromInts(p.Key)), len(v.S))
			continue
		}
		from := len(*buf)
		*buf = append(*buf, h.FromInts(v.S)...)
		b := (*buf)[from:]
		out = append(out, string(h.FromInts(p.Key)), *(*string)(unsafe.Pointer(&b)))
	}
	return out
}

func (k *kase) sample(s site) []interface{} {
	var out []interface{}
	for _, p := range s.Props {
		out = append(out, string(h.FromInts(p.Key)), string(h.FromInts(p.Val)))
	}
	return out
}

type started struct {
	mu sync.Mutex
	fs []func(context.Context)
}

func (st *started) executor(f func(context.Context)) {
	st.mu.Lock()
	st.fs = append(st.fs, f)
	st.mu.Unlock()
}

// onGoroutine runs f in a goroutine whose id leaves the given remainder modulo 16
func onGoroutine(rest int64, f func()) {
	for {
		ok := make(chan bool)
		go func() {
			if gls.GoID()%16 != rest {
				ok <- false
				return
			}
			ok <- true
			f()
		}()
		if <-ok {
			return
		}
	}
}

func (k *kase) par() map[string]interface{} {
	return map[string]interface{}{"sites": k.Sites, "collector": k.Collector, "gs": k.Gs, "xs": k.Xs}
}

func newCollector() *collector {
	return &collector{token: map[int]chan bool{}, free: map[int]chan struct{}{}, injected: map[int]bool{},
		sums: map[string]float64{}, keys: map[string][2]interface{}{}}
}

func (k *kase) handlers(rec *h.Rec, col *collector, st *started) []spi.EventHandler {
	cfg := stats.EventAggregatorConfig{Executor: st.executor}
	if k.Default {
		cfg.Executor = nil
	}
	if k.Collector {
		cfg.Collector = col
	}
	ag := stats.NewEventAggregator(cfg)
	var hs []spi.EventHandler
	for i, s := range k.Sites {
		before := len(st.fs)
		hd := ag.HandlerOf(&spi.LogSite{Event: string(h.FromInts(s.Event)), Agg: string(h.FromInts(s.Agg)), Sample: k.sample(s)})
		kind := "other"
		if hd == nil {
			kind = "none"
		} else if _, is := hd.(*spi.DummyEventHandler); is {
			kind = "dummy"
		} else if _, is := hd.(stats.State); is {
			kind = "counter"
		}
		execs := len(st.fs) - before
		if k.Default {
			execs = 1
		}
		rec.Log("Handler", "s", i+1, "kind", kind, "execs", execs)
		hs = append(hs, hd)
	}
	return hs
}

func (k *kase) runOps(rec *h.Rec) bool {
	col := newCollector()
	col.rec = rec
	st := &started{}
	hs := k.handlers(rec, col, st)
	var busy int32
	work := make([]chan key, k.Gs)
	for g := range work {
		ch := make(chan key, 100)
		work[g] = ch
		id := g + 1
		// the first and the third count in the same shard
		onGoroutine([]int64{3, 7, 3, 15, 0}[g%5], func() {
			var buf []byte
			for ky := range ch {
				props := k.properties(ky, &buf)
				rec.Log("CCall", "g", id, "s", ky.S, "vals", ky.Vals)
				func() {
					defer func() {
						if r := recover(); r != nil {
							rec.Log("CPanic", "g", id)
						} else {
							rec.Log("CRet", "g", id)
						}
					}()
					hs[ky.S-1].Handle(&spi.Event{Level: spi.LevelInfo, Properties: props})
				}()
				for i := range buf {
					buf[i] = '#'
				}
				atomic.AddInt32(&busy, -1)
			}
		})
	}
	var exporting int32
	export := func(x, s int) {
		atomic.AddInt32(&exporting, 1)
		go func() {
			rec.Log("ECall", "x", x, "s", s)
			defer func() {
				if r := recover(); r != nil {
					col.mu.Lock()
					in := col.injected[x]
					col.mu.Unlock()
					rec.Log("EFail", "x", x, "injected", in)
				} else {
					rec.Log("ERet", "x", x)
				}
				atomic.AddInt32(&exporting, -1)
			}()
			hs[s-1].(stats.State).GetWindow().Export(epoch.Add(time.Duration(x) * time.Second))
		}()
	}
	isFree := map[int]bool{}
	free := func(x int) {
		if !isFree[x] && col.free[x] != nil {
			isFree[x] = true
			close(col.free[x])
		}
	}
	for x := 1; x <= k.Xs; x++ {
		col.token[x], col.free[x] = make(chan bool), make(chan struct{})
	}
	settle := func() { // no verdict depends on whether this is long enough
		n := rec.Len()
		h.Until(time.Millisecond, func() bool { return atomic.LoadInt32(&busy) == 0 && (atomic.LoadInt32(&exporting) == 0 || rec.Len() > n) })
	}
	for _, o := range k.Ops {
		switch o.Op {
		case "count":
			atomic.AddInt32(&busy, 1)
			work[o.G-1] <- k.Keys[o.K-1]
		case "export":
			if _, is := hs[o.S-1].(stats.State); !is {
				h.Fail("export of a site without counter")
			}
			export(o.X, o.S)
		case "release":
			select {
			case col.token[o.X] <- o.Pan:
			case <-time.After(time.Millisecond):
			}
		case "finish":
			free(o.X)
		}
		settle()
	}
	for x := 1; x <= k.Xs; x++ {
		free(x)
	}
	idle := func() bool { return atomic.LoadInt32(&busy) == 0 && atomic.LoadInt32(&exporting) == 0 }
	if !h.Until(patience, idle) {
		rec.Log("Stuck")
		return false
	}
	x := k.Xs
	k.Xs += len(hs)
	for s, hd := range hs {
		if _, is := hd.(stats.State); is {
			x++
			export(x, s+1)
			if !h.Until(patience, idle) {
				rec.Log("Stuck")
				return false
			}
		}
	}
	for _, ch := range work {
		close(ch)
	}
	if !col.unchanged() {
		rec.Log("PointChangedLater")
	}
	return true
}

func (c *collector) out() []interface{} {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := []interface{}{}
	for b, v := range c.sums {
		n := int(v)
		if float64(n) != v {
			n = -1
		}
		out = append(out, map[string]interface{}{"ev": c.keys[b][0], "dim": c.keys[b][1], "v": n})
	}
	return out
}

func (c *collector) total() float64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := 0.0
	for _, v := range c.sums {
		t += v
	}
	return t
}

func (k *kase) counts() []interface{} {
	out := []interface{}{}
	for i, ky := range k.Keys {
		n := 0
		for _, c := range k.Counts {
			if c.K == i+1 {
				n += c.N
			}
		}
		out = append(out, map[string]interface{}{"s": ky.S, "vals": ky.Vals, "n": n})
	}
	return out
}

func (k *kase) goal() float64 {
	t := 0
	for _, n := range k.Counts {
		t += n.N
	}
	return float64(t)
}

// runAll: every goroutine counts what it has to, all at once
func (k *kase) runAll(do func(ky key, buf *[]byte)) bool {
	var ready, wg sync.WaitGroup
	start := make(chan bool)
	for g := 1; g <= k.Gs; g++ {
		g := g
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			var buf []byte
			left := append([]count(nil), k.Counts...)
			for more := true; more; {
				more = false
				for i := range left {
					if left[i].G == g && left[i].N > 0 {
						left[i].N--
						more = true
						do(k.Keys[left[i].K-1], &buf)
						for j := range buf {
							buf[j] = '#'
						}
					}
				}
			}
		}()
	}
	ready.Wait()
	close(start)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(3 * patience):
		return false
	}
}

func (k *kase) runBulk(rec *h.Rec) bool {
	col := newCollector()
	st := &started{}
	hs := k.handlers(rec, col, st)
	stop := make(chan bool)
	var wg sync.WaitGroup
	exportAll := func() {
		for _, hd := range hs {
			if s, is := hd.(stats.State); is {
				s.GetWindow().Export(time.Now())
			}
		}
	}
	for i := 0; i < k.Exporters; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					exportAll()
				}
			}
		}()
	}
	done := k.runAll(func(ky key, buf *[]byte) {
		hs[ky.S-1].Handle(&spi.Event{Level: spi.LevelInfo, Properties: k.properties(ky, buf)})
	})
	close(stop)
	if done {
		wg.Wait()
		exportAll()
		// what one export left behind, another would bring: nothing may be left
		exportAll()
	}
	rec.Log("Bulk", "counts", k.counts(), "out", col.out(), "done", done)
	return done
}

type silent struct{}

func (silent) HandlerOf(site *spi.LogSite) spi.EventHandler {
	return &spi.DummyEventHandler{Site: site}
}

//go:noinline
func shortLived(event string, user []byte) {
	countlog.Info(event, "agg", "counter", "dim", "user", "user", string(user))
}

//go:noinline
func overwrite(n int) byte {
	var b [512]byte
	for i := range b {
		b[i] = byte(n)
	}
	if n > 0 {
		return overwrite(n-1) + b[n]
	}
	return b[n]
}

// runLogged: through the logger, exported by the exporters the aggregator starts
func (k *kase) runLogged(rec *h.Rec) bool {
	col := newCollector()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var ends sync.WaitGroup
	countlog.EventWriter = silent{}
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: col, Executor: func(f func(context.Context)) {
		ends.Add(1)
		go func() {
			f(ctx)
			ends.Done()
		}()
	}})
	done := k.runAll(func(ky key, buf *[]byte) {
		s := k.Sites[ky.S-1]
		ev := string(h.FromInts(s.Event))
		if len(s.Props) == 3 && len(s.Props[2].Key) == 4 && string(h.FromInts(s.Props[1].Val)) == "user" {
			shortLived(ev, h.FromInts(ky.Vals[2].S))
			overwrite(3)
			return
		}
		args := k.properties(ky, buf)
		switch {
		case len(ev)%3 == 0:
			countlog.Warn(ev, args...)
		case len(ev)%2 == 0:
			countlog.Error(ev, args...)
		default:
			countlog.Info(ev, args...)
		}
	})
	h.Until(patience, func() bool { return col.total() >= k.goal() })
	time.Sleep(1200 * time.Millisecond)
	rec.Log("Bulk", "counts", k.counts(), "out", col.out(), "done", done)
	cancel()
	h.Until(patience, func() bool { return done })
	ends.Wait()
	return done
}

func (k *kase) runAuto(rec *h.Rec) bool {
	col := newCollector()
	st := &started{}
	t0 := time.Now()
	hs := k.handlers(rec, col, st)
	var buf []byte
	ky := k.Keys[0]
	hs[ky.S-1].Handle(&spi.Event{Level: spi.LevelInfo, Properties: k.properties(ky, &buf)})
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan bool)
	if k.Default {
		close(ended)
	} else {
		go func() {
			st.fs[0](ctx)
			close(ended)
		}()
	}
	h.Until(time.Duration(k.Wanted)*time.Second+patience, func() bool {
		hs[ky.S-1].Handle(&spi.Event{Level: spi.LevelInfo, Properties: k.properties(ky, &buf)})
		time.Sleep(10 * time.Millisecond)
		col.mu.Lock()
		defer col.mu.Unlock()
		return len(col.times) >= k.Wanted
	})
	cancel()
	isEnded := false
	select {
	case <-ended:
		isEnded = true
	case <-time.After(patience):
	}
	col.mu.Lock()
	early := false
	for i, t := range col.times {
		early = early || t.Sub(t0) < time.Duration(i+1)*time.Second-50*time.Millisecond
	}
	n := len(col.times)
	col.mu.Unlock()
	late := 0
	if !k.Default {
		hs[ky.S-1].Handle(&spi.Event{Level: spi.LevelInfo, Properties: k.properties(ky, &buf)})
		time.Sleep(1300 * time.Millisecond)
		col.mu.Lock()
		late = len(col.times) - n
		col.mu.Unlock()
	}
	rec.Log("Auto", "exports", n, "wanted", k.Wanted, "early", early, "ended", isEnded, "late", late)
	return true
}

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	if err := json.Unmarshal(raw, &k); err != nil {
		h.Fail("%v", err)
	}
	rec := &h.Rec{}
	ok := true
	switch k.Kind {
	case "ops":
		ok = k.runOps(rec)
	case "bulk":
		ok = k.runBulk(rec)
	case "logged":
		ok = k.runLogged(rec)
	case "auto":
		ok = k.runAuto(rec)
	default:
		h.Fail("kind %q", k.Kind)
	}
	return rec.Events(), k.par(), ok
}

func main() { h.MainPar(run) }
