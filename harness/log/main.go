// Driver of the logger as a whole: log calls through a format to a writer, formats on their own, and
// formatted prints, one after the other and at the same time, with values, writers and collectors that
// make trouble.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/async"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	jsonoutput "github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"github.com/v2pro/plz/msgfmt"
	"verif/harness/h"
	"verif/harness/val"
)

type format struct {
	F      string `json:"f"`
	Time   bool   `json:"time"`
	Layout []int  `json:"layout"`
}

// what else is different when the same place logs again
type variation struct {
	Lv   int       `json:"lv"`
	Dt   int64     `json:"dt"`   // ms
	Zone int       `json:"zone"` // minutes
	Fail bool      `json:"fail"`
	Err  []int     `json:"err"`
	CtxA []val.Arg `json:"ctxargs"`
}

type op struct {
	Op   string      `json:"op"`
	Fmt  format      `json:"fmt"`
	Fn   string      `json:"fn"`
	Site int         `json:"site"`
	Ctx  int         `json:"ctx"`
	Lv   int         `json:"lv"`
	M    int         `json:"m"`
	Fail bool        `json:"fail"`
	Err  []int       `json:"err"`
	How  string      `json:"how"`
	Tpl  []int       `json:"tpl"`
	Args []val.Arg   `json:"args"`
	Odd  bool        `json:"odd"`
	Runs [][]val.Arg `json:"runs"`
	CtxA []val.Arg   `json:"ctxargs"`
	Vars []variation `json:"vars"` // one for each of runs after the first
	Ts   string      `json:"ts"`
	Pre  []int       `json:"pre"`
	Loc  struct {
		Func []int `json:"func"`
		File []int `json:"file"`
		Line int   `json:"line"`
	} `json:"loc"`
	Lay   [][]int `json:"lay"`
	Id    string  `json:"id"`
	Fault string  `json:"fault"` // of the writer
}

type kase struct {
	Fmt   format  `json:"fmt"`
	Min   int     `json:"min"`
	Coll  string  `json:"coll"` // collector: "" none, "yes", "ofpanic", "handlepanic", "nilhandler"
	Async bool    `json:"async"`
	Lay   [][]int `json:"lay"`
	Ops   []op    `json:"ops"`
	Pars  [][]op  `json:"pars"`
}

// ------------------------------------------------------------------ what is written

type write struct {
	b      []byte
	stable bool
	id     string
}

type recorder struct {
	mu     sync.Mutex
	writes []write
	faults map[string]string
	byTime bool // one call at a time: a write without id belongs to it
	fault  string
	par    bool
}

var idRe = regexp.MustCompile(`q\d+w`)
var nestedRe = regexp.MustCompile(`z\d+w`)

func idIn(p []byte) string {
	if id := idRe.FindString(string(p)); id != "" {
		return id
	}
	return nestedRe.FindString(string(p))
}
var errWriter = errors.New("the writer fails")

func (r *recorder) Write(p []byte) (int, error) {
	w := write{b: append([]byte(nil), p...), id: idIn(p)}
	r.mu.Lock()
	f, ok := r.faults[w.id]
	if !ok && r.byTime && w.id == "" {
		f = r.fault
	}
	par := r.par
	r.mu.Unlock()
	if f == "logs" && w.id != "" {
		nested("z" + w.id[1:])
	}
	if par { // slowly: who thinks the bytes are free to be used again has the time to do so
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
		if len(p)%3 == 0 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	w.stable = string(w.b) == string(p)
	r.mu.Lock()
	r.writes = append(r.writes, w)
	r.mu.Unlock()
	switch f {
	case "err":
		return 0, errWriter
	case "short":
		return len(p) / 2, io.ErrShortWrite
	case "panic":
		panic("the writer panics")
	}
	return len(p), nil
}

var rec recorder
var nestedCalls int
var nestedMu sync.Mutex

func nested(id string) {
	nestedMu.Lock()
	nestedCalls++
	nestedMu.Unlock()
	countlog.Fatal("event!nested " + id)
}

// the time of an event, as the format got it
type stamped struct{ output.Format }

var stampMu sync.Mutex
var stamps = map[string]time.Time{}

func idOf(props []interface{}) string {
	for i := 0; i+1 < len(props); i++ {
		if s, ok := props[i+1].(string); ok && idRe.MatchString(s) {
			return s
		}
	}
	return ""
}

func (f stamped) FormatterOf(site *spi.LogSite) output.Formatter {
	return stampedFormatter{f.Format.FormatterOf(site)}
}

type stampedFormatter struct{ f output.Formatter }

func (f stampedFormatter) Format(space []byte, ev *spi.Event) []byte {
	stampMu.Lock()
	stamps[idOf(ev.Properties)] = ev.Timestamp
	stampMu.Unlock()
	return f.f.Format(space, ev)
}

func formatOf(f format) output.Format {
	switch f.F {
	case "json":
		return &jsonoutput.JsonFormat{}
	case "compact":
		return &compact.Format{}
	case "hrf":
		return &hrf.Format{ShowTimestamp: f.Time}
	case "printf":
		return &printf.Format{Layout: string(h.FromInts(f.Layout))}
	}
	h.Fail("format %s", f.F)
	return nil
}

func fmtEv(f format) h.Ev {
	l := f.Layout
	if l == nil {
		l = []int{}
	}
	return h.Ev{"f": f.F, "time": f.Time, "layout": l}
}

func times(t time.Time, lay [][]int) h.Ev {
	ls := []h.Ev{}
	for _, l := range lay {
		ls = append(ls, h.Ev{"l": l, "s": h.Str(t.Format(string(h.FromInts(l))))})
	}
	return h.Ev{"rfc": h.Str(t.Format(time.RFC3339)), "hms": h.Str(t.Format("15:04:05.000")), "nanos": h.Str(strconv.FormatInt(t.UnixNano(), 10)), "str": h.Str(t.String()), "lay": ls}
}

func locEv(fn, file string, line int) h.Ev {
	return h.Ev{"text": h.Str(fmt.Sprintf("%s @ %s:%d", fn, file, line)), "func": h.Str(fn), "file": h.Str(file), "line": h.Str(strconv.Itoa(line))}
}

func timers(evs []h.Ev, args []val.Arg, ts time.Time) {
	for i := range evs {
		if args[i].Kind == "timer" {
			n, _ := strconv.ParseInt(args[i].I, 10, 64)
			v := evs[i]["v"].(h.Ev)
			v["dur"] = h.Str(time.Duration(ts.UnixNano() - n).String())
		}
	}
}

// ------------------------------------------------------------------ errors

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s } // panics if nil

type panicErr struct{ s string }

func (e panicErr) Error() string { panic("Error of " + e.s) }

func errorOf(o *op) (error, bool) {
	s := string(h.FromInts(o.Err))
	if !o.Fail {
		return nil, false
	}
	switch o.How {
	case "nilptr":
		return (*ptrErr)(nil), true
	case "panic":
		return panicErr{s}, true
	case "ptr":
		return &ptrErr{s}, false
	}
	return errors.New(s), false
}

// ------------------------------------------------------------------ operations

func contextOf(ckv []interface{}) context.Context {
	c := countlog.Ctx(context.Background())
	for i := 0; i < len(ckv); i += 2 {
		c.Add(ckv[i].(string), ckv[i+1])
	}
	return c
}

// formats are used for many places
var formats = map[string]output.Format{}

func sharedFormat(f format) output.Format {
	b, _ := json.Marshal(f)
	if formats[string(b)] == nil {
		formats[string(b)] = formatOf(f)
	}
	return formats[string(b)]
}

func direct(r *h.Rec, o *op) bool {
	n, _ := strconv.ParseInt(o.Ts, 10, 64)
	ts0 := time.Unix(n/1000, n%1000*1000000).In(val.Zone(n))
	sample, _ := val.Args(o.Args, false)
	fn, file := string(h.FromInts(o.Loc.Func)), string(h.FromInts(o.Loc.File))
	site := &spi.LogSite{Func: fn, File: file, Line: o.Loc.Line, Event: string(h.FromInts(o.Tpl)), Sample: sample}
	ckv, cevs := val.Args(o.CtxA, false)
	var ctx context.Context
	if o.Ctx > 0 {
		ctx = contextOf(ckv)
		site.Context = ctx
	}
	var f output.Formatter
	how, pmsg := h.Guard(30*time.Second, func() { f = sharedFormat(o.Fmt).FormatterOf(site) })
	if how != "ok" {
		r.Log("Ended", "how", how, "msg", pmsg)
		return how != "hang"
	}
	runs := o.Runs
	if runs == nil {
		runs = [][]val.Arg{o.Args}
	}
	for i, as := range runs {
		kv, evs := val.Args(as, false)
		lv, ts, fail, errText := o.Lv, ts0, o.Fail, o.Err
		if i > 0 && i <= len(o.Vars) {
			v := o.Vars[i-1]
			lv, fail, errText = v.Lv, v.Fail, v.Err
			ts = ts0.Add(time.Duration(v.Dt) * time.Millisecond)
			if v.Zone != 0 {
				ts = ts.In(time.FixedZone("", v.Zone*60))
			}
			if o.Ctx > 0 {
				ckv, cevs = val.Args(v.CtxA, false)
				ctx = contextOf(ckv)
			}
		}
		var err error
		msg := ""
		if fail {
			err = errors.New(string(h.FromInts(errText)))
			msg = err.Error()
		}
		timers(evs, as, ts)
		ev := &spi.Event{Level: lv, Context: ctx, Error: err, Timestamp: ts, Properties: kv}
		pre := h.FromInts(o.Pre)
		var out []byte
		how, pmsg := h.Guard(30*time.Second, func() {
			out = f.Format(append(make([]byte, 0, len(pre)+i*7), pre...), ev)
		})
		if how != "ok" {
			r.Log("Ended", "how", how, "msg", pmsg)
			return how != "hang"
		}
		pr := len(out) >= len(pre) && string(out[:len(pre)]) == string(pre)
		if pr {
			out = out[len(pre):]
		}
		r.Log("Line", "fmt", fmtEv(o.Fmt), "tpl", h.Str(site.Event), "args", evs, "ctx", cevs, "lv", lv, "failed", err != nil, "err", h.Str(msg),
			"ts", times(ts, o.Lay), "loc", locEv(fn, file, o.Loc.Line), "kept", pr, "out", h.Bytes(out))
	}
	return true
}

var reports struct {
	sync.Mutex
	n int
}

func takeReports() int {
	reports.Lock()
	defer reports.Unlock()
	n := reports.n
	reports.n = 0
	return n
}

func sprint(v interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = "panics"
		}
	}()
	return fmt.Sprint(v)
}

func logOne(r *h.Rec, k *kase, o *op, ctxs []*countlog.Context, ctxEvs *[4][]h.Ev) bool {
	kv, evs := val.Args(o.Args, o.Odd)
	tpl := string(h.FromInts(o.Tpl))
	err, bad := errorOf(o)
	for i := range o.Args {
		bad = bad || o.Args[i].Bad()
	}
	bad = bad || o.Odd || k.Coll == "ofpanic"
	msg := ""
	if err != nil && !(o.How == "nilptr" || o.How == "panic") {
		msg = err.Error()
	}
	var ctx *countlog.Context
	cevs := []h.Ev{}
	if o.Ctx > 0 {
		ctx = ctxs[o.Ctx]
		cevs = append(cevs, ctxEvs[o.Ctx]...)
		for _, e := range cevs {
			bad = bad || e["v"].(h.Ev)["w"] == "odd"
		}
	}
	agg := false
	for i := 0; i < len(kv); i += 2 {
		agg = agg || kv[i] == "agg"
	}
	rec.mu.Lock()
	rec.fault = o.Fault
	if o.Id != "" {
		rec.faults[o.Id] = o.Fault
	}
	rec.mu.Unlock()
	takeReports()
	var ret error
	t0 := time.Now()
	var loc h.Ev
	how, pmsg := h.Guard(30*time.Second, func() {
		ret = invoke(o, ctx, tpl, err, kv, func(fn, file string, line int) { loc = locEv(fn, file, line) })
	})
	t1 := time.Now()
	if how != "ok" {
		r.Log("Ended", "how", how, "msg", pmsg, "fn", o.Fn, "id", o.Id)
		return how != "hang"
	}
	stampMu.Lock()
	ts, intime := stamps[o.Id]
	stampMu.Unlock()
	intime = intime && !ts.Before(t0) && !ts.After(t1)
	timers(evs, o.Args, ts)
	rets := ""
	if ret != nil {
		rets = sprint(ret)
	}
	r.Log("Log", "id", o.Id, "fn", o.Fn, "ctx", o.Ctx, "lv", o.Lv, "agg", agg, "failed", err != nil, "err", h.Str(msg), "tpl", h.Str(tpl), "args", evs, "cprops", cevs,
		"bad", bad, "fault", o.Fault, "retfail", ret != nil, "ret", h.Str(rets), "reports", takeReports(), "ts", times(ts, k.Lay), "intime", intime, "loc", loc, "writes", []h.Ev{})
	return true
}

func (r *recorder) take(match func(w write) bool) []h.Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	out, rest := []h.Ev{}, []write{}
	for _, w := range r.writes {
		if match(w) {
			out = append(out, h.Ev{"b": h.Bytes(w.b), "stable": w.stable})
		} else {
			rest = append(rest, w)
		}
	}
	r.writes = rest
	return out
}

func do(r *h.Rec, k *kase, o *op, ctxs []*countlog.Context, ctxEvs *[4][]h.Ev) bool {
	switch o.Op {
	case "direct":
		return direct(r, o)
	case "setmin":
		countlog.SetMinLevel(o.M)
		r.Log("SetMin", "m", o.M)
	case "add":
		key, v, ev := o.Args[0].Make()
		ctxs[o.Ctx].Add(key.(string), v)
		ctxEvs[o.Ctx] = append(ctxEvs[o.Ctx], ev)
	case "log":
		return logOne(r, k, o, ctxs, ctxEvs)
	case "stack":
		// keys and values built on the stack of the caller, where those of the next call are going to be
		key, s := string(h.FromInts(o.Args[0].Key)), string(h.FromInts(o.Args[0].S))
		takeReports()
		how, pmsg := h.Guard(30*time.Second, func() { onStack(string(h.FromInts(o.Tpl)), key[:1], key[1:], s, o.Id) })
		if how != "ok" {
			r.Log("Ended", "how", how, "msg", pmsg)
			return how != "hang"
		}
		_, evs := val.Args(o.Args, false)
		stampMu.Lock()
		ts := stamps[o.Id]
		stampMu.Unlock()
		evs = append(evs, h.Ev{"str": true, "key": h.Str("id"), "v": h.Ev{"w": "text", "s": h.Str(o.Id), "j": h.Ev{"k": "str", "s": h.Str(o.Id)}}})
		r.Log("Log", "id", o.Id, "fn", "Fatal", "ctx", 0, "lv", 0, "agg", false, "failed", false, "err", []int{}, "tpl", o.Tpl, "args", evs, "cprops", []h.Ev{},
			"bad", k.Coll == "ofpanic", "fault", "", "retfail", false, "ret", []int{}, "reports", takeReports(), "ts", times(ts, k.Lay), "intime", true, "loc", locEv(stackLoc()), "writes", []h.Ev{})
	case "fprintf":
		kv, evs := val.Args(o.Args, false)
		tpl := string(h.FromInts(o.Tpl))
		rec.mu.Lock()
		rec.faults[o.Id] = o.Fault
		rec.mu.Unlock()
		var err error
		how, pmsg := h.Guard(30*time.Second, func() { _, err = msgfmt.Fprintf(&rec, tpl, kv...) })
		if how == "panic" && o.Fault == "panic" {
			how = "ok"
		}
		if how != "ok" {
			r.Log("Ended", "how", how, "msg", pmsg, "fn", "Fprintf")
			return how != "hang"
		}
		r.Log("Print", "id", o.Id, "tpl", h.Str(tpl), "args", evs, "fault", o.Fault, "errback", err != nil, "writes", []h.Ev{})
	default:
		h.Fail("op %s", o.Op)
	}
	return true
}

// writes are given to the calls they belong to
func attribute(evs []h.Ev) {
	for _, e := range evs {
		if e["e"] == "Log" || e["e"] == "Print" {
			id := e["id"].(string)
			e["writes"] = append(e["writes"].([]h.Ev), rec.take(func(w write) bool { return id != "" && w.id == id })...)
		}
	}
}

type collector struct{}

func (collector) Collect(*stats.Point) {}

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	val.Must(json.Unmarshal(raw, &k))
	rec.mu.Lock()
	rec.writes, rec.faults, rec.byTime, rec.par = nil, map[string]string{}, len(k.Pars) == 0, len(k.Pars) > 0
	rec.mu.Unlock()
	nestedMu.Lock()
	nestedCalls = 0
	nestedMu.Unlock()
	stampMu.Lock()
	stamps = map[string]time.Time{}
	stampMu.Unlock()
	takeReports()
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{Executor: func(func(context.Context)) {}})
	coll := false
	switch k.Coll {
	case "yes":
		coll = true
		countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: collector{}, Executor: func(func(context.Context)) {}})
	case "ofpanic":
		countlog.EventAggregator = spi.FuncEventSink(func(*spi.LogSite) spi.EventHandler { panic("the aggregator panics") })
	case "handlepanic":
		coll = true
		countlog.EventAggregator = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
			agg := site.Agg != ""
			for i := 0; i < len(site.Sample); i += 2 {
				agg = agg || site.Sample[i] == "agg"
			}
			if !agg {
				return nil
			}
			return spi.FuncEventHandler(func(*spi.Event) { panic("the handler panics") })
		})
	}
	var closer io.Closer
	r := &h.Rec{}
	par := h.Ev{"min": k.Min, "coll": coll, "fmt": fmtEv(k.Fmt), "seq": len(k.Pars) == 0 && !k.Async}
	if k.Fmt.F != "" {
		var w io.Writer = &rec
		if k.Async {
			aw := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: 8, Writer: w, IsQueueBlocking: true})
			w, closer = aw, aw
		}
		countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: stamped{formatOf(k.Fmt)}, Writer: w})
	}
	countlog.SetMinLevel(k.Min)
	val.OnString = nested
	ctxs := make([]*countlog.Context, 4)
	for i := 1; i < 4; i++ {
		ctxs[i] = countlog.Ctx(context.Background())
	}
	var ctxEvs [4][]h.Ev
	finish := func(evs []h.Ev) []h.Ev {
		if closer != nil {
			how, _ := h.Guard(30*time.Second, func() { closer.Close() })
			if how != "ok" {
				return append(evs, h.Ev{"e": "Ended", "how": how, "fn": "Close"})
			}
		}
		attribute(evs)
		nestedMu.Lock()
		n := nestedCalls
		nestedMu.Unlock()
		nw := rec.take(func(w write) bool { return w.id != "" && w.id[0] == 'z' })
		if k.Coll == "ofpanic" { // nothing is logged then
			n = len(nw)
		}
		return append(evs, h.Ev{"e": "End", "nested": n, "nestedwrites": len(nw), "stray": rec.take(func(write) bool { return true }), "reports": takeReports()})
	}
	for i := range k.Ops {
		before := r.Len()
		if !do(r, &k, &k.Ops[i], ctxs, &ctxEvs) {
			return r.Events(), par, false
		}
		if !k.Async && len(k.Pars) == 0 {
			evs := r.Events()
			if len(evs) > before && (evs[before]["e"] == "Log" || evs[before]["e"] == "Print") {
				e := evs[before]
				e["writes"] = append(e["writes"].([]h.Ev), rec.take(func(w write) bool { return w.id == "" || w.id[0] == 'q' })...)
			}
		}
	}
	if len(k.Pars) == 0 {
		return finish(r.Events()), par, true
	}
	recs := make([]*h.Rec, len(k.Pars))
	ok := make([]bool, len(k.Pars))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for g := range k.Pars {
		g := g
		recs[g] = &h.Rec{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for i := range k.Pars[g] {
				if !do(recs[g], &k, &k.Pars[g][i], ctxs, &ctxEvs) {
					return
				}
			}
			ok[g] = true
		}()
	}
	close(gate)
	wg.Wait()
	evs := r.Events()
	for g := range recs {
		evs = append(evs, recs[g].Events()...)
		if !ok[g] {
			return evs, par, false
		}
	}
	return finish(evs), par, true
}

func main() {
	loglog.Error = func(err error) {
		reports.Lock()
		reports.n++
		reports.Unlock()
	}
	h.MainPar(run)
}
