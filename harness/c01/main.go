// Driver for the executor: executes a scenario against the real concurrent.UnboundedExecutor and records
// what the outside world can observe.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/v2pro/plz/concurrent"
	"verif/harness/h"
)

type op struct {
	Op   string `json:"op"`
	T    int    `json:"t"`
	W    int    `json:"w"`
	S    int    `json:"s"`
	Site int    `json:"site"`
	How  string `json:"how"`
	Val  int    `json:"val"`  // kind of panic value
	By   int    `json:"by"`   // task that hands this one over (0: the controller)
	Free bool   `json:"free"` // ends by itself, at once
	Ms   int    `json:"ms"`
	Ops  []op   `json:"ops"`
}

type kase struct {
	Ops    []op `json:"ops"`
	Execs  int  `json:"execs"` // > 0: stampedes, on so many executors
	Tasks  int  `json:"tasks"`
	Panics int  `json:"panics"` // so many of the tasks panic
	Sites  int  `json:"sites"`
	Slow   int  `json:"slow"`    // the panic hook takes so many ms
	Spin   int  `json:"spin"`    // > 0: one processor, kept busy by so many goroutines
}

type boom struct{ t int }

func (b *boom) Error() string { return fmt.Sprint("boom ", b.t) }

type task struct {
	id     int
	cmd    chan func() // run inside the task; nil means "end now"
	begun  int32
	ended  int32
	saw    int32
	val    interface{}
	how    string
	free   bool
	spawnd chan struct{}
}

type world struct {
	rec    *h.Rec
	ex     *concurrent.UnboundedExecutor
	tasks  map[int]*task
	mu     sync.Mutex
	cancel map[int]context.CancelFunc
	wdone  map[int]*int32
	sdone  map[int]*int32
}

const patience = 25 * time.Second

func (w *world) body(t *task) func(ctx context.Context) {
	return func(ctx context.Context) {
		seen := false
		select {
		case <-ctx.Done():
			seen = true
		default:
		}
		w.rec.Log("Begin", "t", t.id, "seen", seen)
		if seen {
			atomic.StoreInt32(&t.saw, 1)
		}
		atomic.StoreInt32(&t.begun, 1)
		if !t.free {
			done := ctx.Done()
			if seen {
				done = nil
			}
		loop:
			for {
				select {
				case <-done:
					done = nil
					w.rec.Log("Saw", "t", t.id)
					atomic.StoreInt32(&t.saw, 1)
				case f := <-t.cmd:
					if f == nil {
						break loop
					}
					f()
				}
			}
		}
		w.rec.Log("End", "t", t.id, "m", t.how)
		atomic.StoreInt32(&t.ended, 1)
		switch t.how {
		case "panic":
			panic(t.val)
		case "stop":
			panic(concurrent.StopSignal)
		case "exit":
			runtime.Goexit()
		}
	}
}

func (w *world) newTask(o op) *task {
	t := &task{id: o.T, cmd: make(chan func()), how: o.How, free: o.Free}
	if t.how == "" {
		t.how = "ok"
	}
	switch o.Val {
	case 0:
		t.val = fmt.Sprintf("boom %d", o.T)
	case 1:
		t.val = &boom{o.T}
	case 2:
		t.val = errors.New("boom")
	case 3:
		t.val = o.T
	case 4:
		t.val = []int{o.T}
	case 5:
		t.val = concurrent.StopSignal + " "
	case 6:
		t.val = errors.New(concurrent.StopSignal)
	}
	w.mu.Lock()
	w.tasks[o.T] = t
	w.mu.Unlock()
	return t
}

func (w *world) hand(o op) {
	t := w.newTask(o)
	body := w.body(t)
	w.rec.Log("GoCall", "t", o.T, "site", o.Site)
	handTo(w.ex, o.Site, body)
	w.rec.Log("GoRet", "t", o.T)
}

func handTo(ex *concurrent.UnboundedExecutor, site int, body func(ctx context.Context)) {
	switch site {
	case 1:
		ex.Go(body)
	case 2:
		ex.Go(body)
	default:
		ex.Go(body)
	}
}

// together calls f(0), ..., f(n-1) at the same moment, as nearly as it can be had, and waits for them.
func together(n int, f func(i int)) {
	var ready int32
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for k := 0; atomic.LoadInt32(&ready) < int32(n); k++ {
				if k > 2000 {
					runtime.Gosched()
				}
			}
			f(i)
		}(i)
	}
	wg.Wait()
}

// stampede: on each of the executors all tasks are handed over at one moment, and all end at one moment, while a wait is going on.
// Only the numbers are recorded.
func stampede(k kase, rec *h.Rec) bool {
	var reports int32
	concurrent.LogInfo = func(event string, properties ...interface{}) {}
	concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
		atomic.AddInt32(&reports, 1)
		return recovered
	}
	type one struct {
		ex      *concurrent.UnboundedExecutor
		release chan struct{}
		waited  int32
	}
	var runs, ended, seen int32
	all := make([]*one, k.Execs)
	for i := range all {
		o := &one{ex: concurrent.NewUnboundedExecutor(), release: make(chan struct{})}
		all[i] = o
		together(k.Tasks, func(i int) {
			handTo(o.ex, 1+i%k.Sites, func(ctx context.Context) {
				atomic.AddInt32(&runs, 1)
				<-o.release
				if ctx.Err() != nil {
					atomic.AddInt32(&seen, 1)
				}
				atomic.AddInt32(&ended, 1)
				if i < k.Panics {
					panic(i)
				}
			})
		})
	}
	n := int32(k.Execs * k.Tasks)
	begun := h.Until(patience, func() bool { return atomic.LoadInt32(&runs) >= n })
	var early, late int32
	for _, o := range all {
		o := o
		go func() {
			o.ex.StopAndWaitForever()
			atomic.StoreInt32(&o.waited, 1)
		}()
	}
	time.Sleep(350 * time.Millisecond)
	for _, o := range all {
		early += atomic.LoadInt32(&o.waited)
	}
	for _, o := range all {
		close(o.release)
	}
	done := h.Until(patience, func() bool {
		late = 0
		for _, o := range all {
			late += 1 - atomic.LoadInt32(&o.waited)
		}
		return late == 0
	})
	time.Sleep(20 * time.Millisecond)
	rec.Log("Stampede", "n", n, "runs", atomic.LoadInt32(&runs), "ended", atomic.LoadInt32(&ended), "seen", atomic.LoadInt32(&seen), "early", early, "late", late,
		"panics", k.Execs*k.Panics, "reports", atomic.LoadInt32(&reports))
	return begun && done
}

// starved: one processor, kept busy by others, so that a task that was handed over does not get to run for long.
func starved(k kase, rec *h.Rec) bool {
	concurrent.LogInfo = func(event string, properties ...interface{}) {}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	ex := concurrent.NewUnboundedExecutor()
	var end, runs, ended int32
	var wg sync.WaitGroup
	for i := 0; i < k.Spin; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t0 := time.Now(); atomic.LoadInt32(&end) == 0 && time.Since(t0) < 20*time.Second; {
			}
		}()
	}
	runtime.Gosched()
	for i := 0; i < k.Tasks; i++ {
		handTo(ex, 1+i%k.Sites, func(ctx context.Context) {
			atomic.AddInt32(&runs, 1)
			atomic.AddInt32(&ended, 1)
		})
	}
	wg.Add(1)
	go func() { wg.Done() }()
	ex.StopAndWaitForever()
	r, e := atomic.LoadInt32(&runs), atomic.LoadInt32(&ended)
	atomic.StoreInt32(&end, 1)
	wg.Wait()
	rec.Log("Starved", "n", k.Tasks, "runs", r, "ended", e)
	return true
}

func same(a, b interface{}) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b)
		}
	}()
	return a == b
}

func run(raw []byte) ([]h.Ev, bool) {
	var k kase
	if err := json.Unmarshal(raw, &k); err != nil {
		h.Fail("%v", err)
	}
	if k.Execs > 0 {
		rec := &h.Rec{}
		ok := stampede(k, rec)
		return rec.Events(), ok
	}
	if k.Spin > 0 {
		rec := &h.Rec{}
		ok := starved(k, rec)
		return rec.Events(), ok
	}
	w := &world{rec: &h.Rec{}, ex: concurrent.NewUnboundedExecutor(), tasks: map[int]*task{},
		cancel: map[int]context.CancelFunc{}, wdone: map[int]*int32{}, sdone: map[int]*int32{}}
	reported := map[int]int{}
	var rmu sync.Mutex
	concurrent.LogInfo = func(event string, properties ...interface{}) {}
	concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
		if k.Slow > 0 {
			time.Sleep(time.Duration(k.Slow) * time.Millisecond)
		}
		rmu.Lock()
		defer rmu.Unlock()
		w.mu.Lock()
		defer w.mu.Unlock()
		best := 0
		for id, t := range w.tasks {
			if t.how == "panic" && same(t.val, recovered) && atomic.LoadInt32(&t.ended) == 1 {
				if best == 0 || reported[id] < reported[best] {
					best = id
				}
			}
		}
		if best == 0 {
			w.rec.Log("BadReport", "v", fmt.Sprint(recovered))
		} else {
			reported[best]++
			w.rec.Log("Report", "t", best)
		}
		return recovered
	}
	ok := true
	must := func(cond func() bool) {
		if ok && !h.Until(patience, cond) {
			ok = false
		}
	}
	begun := func(id int) {
		w.mu.Lock()
		t := w.tasks[id]
		w.mu.Unlock()
		must(func() bool { return atomic.LoadInt32(&t.begun) == 1 })
	}
	stoppedRet := int32(0)
	// another executor, with tasks handed over at the same places: neither is to notice the other
	other := concurrent.NewUnboundedExecutor()
	otherEnd := make(chan struct{})
	var otherRuns, otherEnded, otherSaw int32
	for i := 1; i <= 3; i++ {
		handTo(other, i, func(ctx context.Context) {
			atomic.AddInt32(&otherRuns, 1)
			<-otherEnd
			if ctx.Err() != nil {
				atomic.AddInt32(&otherSaw, 1)
			}
			atomic.AddInt32(&otherEnded, 1)
		})
	}
	release := func(id int) {
		w.mu.Lock()
		t := w.tasks[id]
		w.mu.Unlock()
		if t == nil || t.free || atomic.LoadInt32(&t.ended) == 1 {
			return
		}
		begun(id)
		if !ok {
			return
		}
		if atomic.LoadInt32(&stoppedRet) == 1 {
			// a stop has returned, so a running task must be able to see it
			if !h.Until(patience, func() bool { return atomic.LoadInt32(&t.saw) == 1 }) {
				w.rec.Log("NeverSaw", "t", id)
				ok = false
			}
		}
		select {
		case t.cmd <- nil:
		case <-time.After(patience):
			ok = false
		}
		must(func() bool { return atomic.LoadInt32(&t.ended) == 1 })
	}
	for _, o := range k.Ops {
		if !ok {
			break
		}
		switch o.Op {
		case "go":
			if o.By != 0 {
				w.mu.Lock()
				p := w.tasks[o.By]
				w.mu.Unlock()
				if p == nil || p.free || atomic.LoadInt32(&p.ended) == 1 {
					break
				}
				begun(o.By)
				done := make(chan struct{})
				oo := o
				select {
				case p.cmd <- func() { w.hand(oo); close(done) }:
				case <-time.After(patience):
					ok = false
					break
				}
				select {
				case <-done:
				case <-time.After(patience):
					ok = false
				}
			} else {
				how, _ := h.Guard(patience, func() { w.hand(o) })
				if how != "ok" {
					w.rec.Log("GoFailed", "t", o.T, "how", how)
					ok = false
				}
			}
			if ok {
				begun(o.T)
			}
		case "goall":
			var wg sync.WaitGroup
			for _, x := range o.Ops {
				wg.Add(1)
				go func(x op) { defer wg.Done(); w.hand(x) }(x)
			}
			how, _ := h.Guard(patience, wg.Wait)
			if how != "ok" {
				ok = false
			}
			for _, x := range o.Ops {
				begun(x.T)
			}
		case "release":
			release(o.T)
		case "stop":
			d := new(int32)
			w.sdone[o.S] = d
			w.rec.Log("StopCall", "s", o.S)
			how, _ := h.Guard(patience, func() { w.ex.Stop(); w.rec.Log("StopRet", "s", o.S); atomic.StoreInt32(d, 1) })
			if how != "ok" {
				ok = false
			}
			atomic.StoreInt32(&stoppedRet, 1)
		case "wait":
			d := new(int32)
			w.wdone[o.W] = d
			ctx, cancel := context.WithCancel(context.Background())
			w.cancel[o.W] = cancel
			wid := o.W
			w.rec.Log("WaitCall", "w", wid)
			forever := o.Free
			go func() {
				if forever {
					w.ex.StopAndWaitForever()
				} else {
					w.ex.StopAndWait(ctx)
				}
				w.rec.Log("WaitRet", "w", wid)
				atomic.StoreInt32(d, 1)
			}()
			ms := o.Ms
			if ms == 0 {
				ms = 240
			}
			time.Sleep(time.Duration(ms) * time.Millisecond)
		case "ctxend":
			if c := w.cancel[o.W]; c != nil {
				w.rec.Log("CtxEnd", "w", o.W)
				c()
				must(func() bool { return atomic.LoadInt32(w.wdone[o.W]) == 1 })
			}
		case "pause":
			time.Sleep(time.Duration(o.Ms) * time.Millisecond)
		}
	}
	ids := []int{}
	w.mu.Lock()
	for id := range w.tasks {
		ids = append(ids, id)
	}
	w.mu.Unlock()
	for _, id := range ids {
		release(id)
	}
	for _, d := range w.wdone {
		d := d
		must(func() bool { return atomic.LoadInt32(d) == 1 })
	}
	for _, id := range ids {
		w.mu.Lock()
		t := w.tasks[id]
		w.mu.Unlock()
		must(func() bool { return atomic.LoadInt32(&t.ended) == 1 })
		if t.how == "panic" {
			id := id
			must(func() bool { rmu.Lock(); defer rmu.Unlock(); return reported[id] > 0 })
		}
	}
	time.Sleep(2 * time.Millisecond)
	w.rec.Log("Quiesced")
	close(otherEnd)
	must(func() bool { return atomic.LoadInt32(&otherEnded) == 3 })
	w.rec.Log("Other", "runs", atomic.LoadInt32(&otherRuns), "ended", atomic.LoadInt32(&otherEnded), "saw", atomic.LoadInt32(&otherSaw))
	return w.rec.Events(), ok
}

func main() { h.Main(run) }
