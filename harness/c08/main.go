// Driver of the log functions: histories of calls, with what reached the event writer.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"verif/harness/h"
	"verif/harness/val"
)

type op struct {
	Op   string    `json:"op"`
	Fn   string    `json:"fn"`
	Ctx  int       `json:"ctx"`
	Lv   int       `json:"lv"`
	M    int       `json:"m"`
	How  string    `json:"how"`
	Err  []int     `json:"err"`
	Fail bool      `json:"fail"`
	Tpl  []int     `json:"tpl"`
	Args []val.Arg `json:"args"`
}

type kase struct {
	Min  int    `json:"min"`
	Coll bool   `json:"coll"`
	Mine bool   `json:"mine"` // the aggregator is the driver's
	Ops  []op   `json:"ops"`
	Pars [][]op `json:"pars"` // one list per goroutine, after Ops
}

type ptrErr struct{ s string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "nil ptrErr"
	}
	return e.s
}

type strErr string

func (e strErr) Error() string { return string(e) }

func text(v interface{}) string {
	s := fmt.Sprintf("%T %v", v, v)
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.ToValidUTF8(s, "?")
}

func texts(kv []interface{}) []string {
	out := []string{}
	for _, v := range kv {
		out = append(out, text(v))
	}
	return out
}

type output struct {
	lv     int
	tpl    string
	agg    string
	props  []string
	ctx    []string
	failed bool
	err    string
	ts     time.Time
}

var mu sync.Mutex
var outs = map[int][]output{}
var counted = map[int]int{}
var mine bool

// an aggregator that counts what it gets
func aggregator(site *spi.LogSite) spi.EventHandler {
	agg := site.Agg != ""
	for i := 0; i < len(site.Sample); i += 2 {
		agg = agg || site.Sample[i] == "agg"
	}
	if !agg {
		return nil
	}
	return spi.FuncEventHandler(func(ev *spi.Event) {
		mu.Lock()
		counted[gid(ev)]++
		mu.Unlock()
	})
}

func gid(ev *spi.Event) int {
	g := 0
	for i := 0; i+1 < len(ev.Properties); i += 2 {
		if ev.Properties[i] == "gid" {
			g, _ = ev.Properties[i+1].(int)
		}
	}
	return g
}

func takeCount(g int) int {
	mu.Lock()
	defer mu.Unlock()
	n := counted[g]
	delete(counted, g)
	if !mine {
		return -1
	}
	return n
}

func sink(site *spi.LogSite) spi.EventHandler {
	tpl, agg := site.Event, site.Agg
	return spi.FuncEventHandler(func(ev *spi.Event) {
		o := output{lv: ev.Level, tpl: tpl, agg: agg, props: texts(ev.Properties), ctx: []string{}, ts: ev.Timestamp, failed: ev.Error != nil}
		if ev.Error != nil {
			o.err = ev.Error.Error()
		}
		if ev.Context != nil {
			if lc := spi.GetLogContext(ev.Context); lc != nil {
				o.ctx = texts(lc.Properties)
			}
		}
		g := gid(ev)
		mu.Lock()
		outs[g] = append(outs[g], o)
		mu.Unlock()
	})
}

func take(g int, t0, t1 time.Time) []h.Ev {
	mu.Lock()
	defer mu.Unlock()
	evs := []h.Ev{}
	for _, o := range outs[g] {
		evs = append(evs, h.Ev{"lv": o.lv, "tpl": h.Str(o.tpl), "agg": o.agg, "props": o.props, "ctx": o.ctx, "failed": o.failed, "err": h.Str(o.err),
			"intime": !o.ts.Before(t0) && !o.ts.After(t1)})
	}
	delete(outs, g)
	return evs
}

func invoke(o *op, ctx *countlog.Context, event string, err error, kv []interface{}) error {
	if ctx == nil {
		switch o.Fn {
		case "Trace":
			countlog.Trace(event, kv...)
		case "Debug":
			countlog.Debug(event, kv...)
		case "Info":
			countlog.Info(event, kv...)
		case "Warn":
			countlog.Warn(event, kv...)
		case "Error":
			countlog.Error(event, kv...)
		case "Fatal":
			countlog.Fatal(event, kv...)
		case "Log":
			countlog.Log(o.Lv, event, kv...)
		case "TraceCall":
			return countlog.TraceCall(event, err, kv...)
		case "DebugCall":
			return countlog.DebugCall(event, err, kv...)
		case "InfoCall":
			return countlog.InfoCall(event, err, kv...)
		default:
			h.Fail("fn %s", o.Fn)
		}
		return nil
	}
	switch o.Fn {
	case "Trace":
		ctx.Trace(event, kv...)
	case "Debug":
		ctx.Debug(event, kv...)
	case "Info":
		ctx.Info(event, kv...)
	case "Warn":
		ctx.Warn(event, kv...)
	case "Error":
		ctx.Error(event, kv...)
	case "Fatal":
		ctx.Fatal(event, kv...)
	case "TraceCall":
		return ctx.TraceCall(event, err, kv...)
	case "DebugCall":
		return ctx.DebugCall(event, err, kv...)
	case "InfoCall":
		return ctx.InfoCall(event, err, kv...)
	case "LogAccess":
		return ctx.LogAccess(event, err, kv...)
	default:
		h.Fail("fn %s", o.Fn)
	}
	return nil
}

type ctxKey int

func do(rec *h.Rec, o *op, ctxs []*countlog.Context, g int) bool {
	switch o.Op {
	case "setmin":
		countlog.SetMinLevel(o.M)
		rec.Log("SetMin", "m", o.M)
	case "suppress":
		ctxs[o.Ctx].SuppressLevelsBelow(o.M)
		rec.Log("Suppress", "ctx", o.Ctx, "m", o.M)
	case "add":
		k, v, _ := o.Args[0].Make()
		if o.How == "spi" { // through a context derived from it
			spi.AddLogContext(context.WithValue(ctxs[o.Ctx], ctxKey(1), 2), k.(string), v)
		} else {
			ctxs[o.Ctx].Add(k.(string), v)
		}
		rec.Log("AddProp", "ctx", o.Ctx, "kv", texts([]interface{}{k, v}))
	case "wrap":
		rec.Log("Wrap", "same", countlog.Ctx(ctxs[o.Ctx]) == ctxs[o.Ctx])
	case "should":
		rec.Log("ShouldLog", "m", o.M, "r", countlog.ShouldLog(o.M))
	case "timer":
		t0 := time.Now().UnixNano()
		var t int64
		switch o.Fn {
		case "Trace":
			t = countlog.TraceTimer()
		case "Debug":
			t = countlog.DebugTimer()
		case "Info":
			t = countlog.InfoTimer()
		}
		t1 := time.Now().UnixNano()
		r := "wrong"
		if t == 0 {
			r = "zero"
		} else if t0 <= t && t <= t1 {
			r = "now"
		}
		rec.Log("Timer", "fn", o.Fn, "r", r)
	case "panic":
		kv, given, same := spare(o.Args)
		var recovered, back interface{}
		if !o.Fail {
			recovered = string(h.FromInts(o.Err))
		}
		t0 := time.Now()
		how, _ := h.Guard(30*time.Second, func() { back = countlog.LogPanic(recovered, kv...) })
		if how != "ok" {
			rec.Log("Ended", "how", how)
			return how != "hang"
		}
		rec.Log("Panic", "isnil", o.Fail, "same", back == recovered, "recovered", text(recovered), "tpl", h.Str("event!panic"), "props", given, "intact", same(), "outs", take(g, t0, time.Now()))
	case "call":
		kv, given, same := spare(o.Args)
		_, evs := val.Args(o.Args, false)
		event := string(h.FromInts(o.Tpl))
		var err error
		if o.Fail {
			switch o.How {
			case "ptr":
				err = &ptrErr{string(h.FromInts(o.Err))}
			case "nilptr":
				err = (*ptrErr)(nil)
			case "str":
				err = strErr(h.FromInts(o.Err))
			case "wrap":
				err = fmt.Errorf("wrapped: %w", errors.New(string(h.FromInts(o.Err))))
			default:
				err = errors.New(string(h.FromInts(o.Err)))
			}
		}
		var ctx *countlog.Context
		if o.Ctx > 0 {
			ctx = ctxs[o.Ctx]
		}
		agg := false
		for _, a := range o.Args {
			agg = agg || string(h.FromInts(a.Key)) == "agg"
		}
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		var ret error
		t0 := time.Now()
		how, pmsg := h.Guard(30*time.Second, func() { ret = invoke(o, ctx, event, err, kv) })
		if how != "ok" {
			rec.Log("Ended", "how", how, "msg", pmsg, "fn", o.Fn, "tpl", h.Str(event))
			return how != "hang"
		}
		t1 := time.Now()
		rt := ""
		if ret != nil {
			rt = ret.Error()
		}
		rec.Log("Call", "fn", o.Fn, "ctx", o.Ctx, "lv", o.Lv, "failed", err != nil, "err", h.Str(msg), "agg", agg, "tpl", h.Str(event), "args", evs, "props", given,
			"outs", take(g, t0, t1), "counted", takeCount(g), "retfail", ret != nil, "ret", h.Str(rt), "intact", same())
	default:
		h.Fail("op %s", o.Op)
	}
	return true
}

// the properties, in an array with room behind, and whether the whole array is as it was
func spare(args []val.Arg) ([]interface{}, []string, func() bool) {
	kv, _ := val.Args(args, false)
	arr := make([]interface{}, len(kv)+6)
	copy(arr, kv)
	for i := len(kv); i < len(arr); i++ {
		arr[i] = "mine"
	}
	before := texts(arr)
	return arr[:len(kv)], texts(kv), func() bool { return fmt.Sprint(texts(arr)) == fmt.Sprint(before) }
}

type nop struct{}

func (nop) Collect(*stats.Point) {}

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	val.Must(json.Unmarshal(raw, &k))
	cfg := stats.EventAggregatorConfig{Executor: func(func(context.Context)) {}}
	if k.Coll {
		cfg.Collector = nop{}
	}
	countlog.EventAggregator = stats.NewEventAggregator(cfg)
	mine = k.Mine
	if mine {
		countlog.EventAggregator = spi.FuncEventSink(aggregator)
	}
	countlog.EventWriter = spi.FuncEventSink(sink)
	countlog.SetMinLevel(k.Min)
	outs, counted = map[int][]output{}, map[int]int{}
	ctxs := make([]*countlog.Context, 4)
	for i := 1; i < 4; i++ {
		ctxs[i] = countlog.Ctx(context.Background())
	}
	rec := &h.Rec{}
	par := h.Ev{"min": k.Min, "coll": k.Coll}
	for i := range k.Ops {
		if !do(rec, &k.Ops[i], ctxs, 0) {
			return rec.Events(), par, false
		}
	}
	if len(k.Pars) > 0 {
		recs := make([]*h.Rec, len(k.Pars))
		ok := make([]bool, len(k.Pars))
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := range k.Pars {
			g := g
			recs[g] = &h.Rec{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for i := range k.Pars[g] {
					if !do(recs[g], &k.Pars[g][i], ctxs, g+1) {
						return
					}
				}
				ok[g] = true
			}()
		}
		close(gate)
		wg.Wait()
		evs := rec.Events()
		usable := true
		for g := range recs {
			evs = append(evs, recs[g].Events()...)
			usable = usable && ok[g]
		}
		last := &h.Rec{}
		end(last)
		return append(evs, last.Events()...), par, usable
	}
	end(rec)
	return rec.Events(), par, true
}

func end(rec *h.Rec) {
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for _, o := range outs {
		n += len(o)
	}
	rec.Log("End", "left", n)
}

func main() {
	loglog.Error = func(err error) {}
	h.MainPar(run)
}
