package main

import (
	"runtime"

	"github.com/v2pro/plz/countlog"
	"verif/harness/h"
)

// here calls back with where it was called
func here(at func(fn, file string, line int)) {
	pc, file, line, _ := runtime.Caller(1)
	at(runtime.FuncForPC(pc).Name(), file, line)
}

var stackFn, stackFile string
var stackLine int

func stackLoc() (string, string, int) { return stackFn, stackFile, stackLine }

//go:noinline
func onStack(tpl, a, b, v, id string) {
	k := a + b
	here(func(fn, file string, line int) { stackFn, stackFile, stackLine = fn, file, line+1 })
	countlog.Fatal(tpl, k, v, "id", id)
}

func invoke(o *op, ctx *countlog.Context, event string, err error, kv []interface{}, at func(fn, file string, line int)) error {
	if o.Site == 0 {
		return siteA(o, ctx, event, err, kv, at)
	}
	return siteB(o, ctx, event, err, kv, at)
}

//go:noinline
func siteA(o *op, ctx *countlog.Context, event string, err error, kv []interface{}, at func(fn, file string, line int)) error {
	if ctx == nil {
		switch o.Fn {
		case "Trace":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Trace(event, kv...)
			return nil
		case "Debug":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Debug(event, kv...)
			return nil
		case "Info":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Info(event, kv...)
			return nil
		case "Warn":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Warn(event, kv...)
			return nil
		case "Error":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Error(event, kv...)
			return nil
		case "Fatal":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Fatal(event, kv...)
			return nil
		case "Log":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Log(o.Lv, event, kv...)
			return nil
		case "TraceCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return countlog.TraceCall(event, err, kv...)
		case "DebugCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return countlog.DebugCall(event, err, kv...)
		case "InfoCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return countlog.InfoCall(event, err, kv...)
		}
	} else {
		switch o.Fn {
		case "Trace":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Trace(event, kv...)
			return nil
		case "Debug":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Debug(event, kv...)
			return nil
		case "Info":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Info(event, kv...)
			return nil
		case "Warn":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Warn(event, kv...)
			return nil
		case "Error":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Error(event, kv...)
			return nil
		case "Fatal":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Fatal(event, kv...)
			return nil
		case "TraceCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.TraceCall(event, err, kv...)
		case "DebugCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.DebugCall(event, err, kv...)
		case "InfoCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.InfoCall(event, err, kv...)
		case "LogAccess":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.LogAccess(event, err, kv...)
		}
	}
	h.Fail("fn %s", o.Fn)
	return nil
}

//go:noinline
func siteB(o *op, ctx *countlog.Context, event string, err error, kv []interface{}, at func(fn, file string, line int)) error {
	if ctx == nil {
		switch o.Fn {
		case "Trace":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Trace(event, kv...)
			return nil
		case "Debug":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Debug(event, kv...)
			return nil
		case "Info":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Info(event, kv...)
			return nil
		case "Warn":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Warn(event, kv...)
			return nil
		case "Error":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Error(event, kv...)
			return nil
		case "Fatal":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Fatal(event, kv...)
			return nil
		case "Log":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			countlog.Log(o.Lv, event, kv...)
			return nil
		case "TraceCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return countlog.TraceCall(event, err, kv...)
		case "DebugCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return countlog.DebugCall(event, err, kv...)
		case "InfoCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return countlog.InfoCall(event, err, kv...)
		}
	} else {
		switch o.Fn {
		case "Trace":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Trace(event, kv...)
			return nil
		case "Debug":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Debug(event, kv...)
			return nil
		case "Info":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Info(event, kv...)
			return nil
		case "Warn":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Warn(event, kv...)
			return nil
		case "Error":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Error(event, kv...)
			return nil
		case "Fatal":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			ctx.Fatal(event, kv...)
			return nil
		case "TraceCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.TraceCall(event, err, kv...)
		case "DebugCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.DebugCall(event, err, kv...)
		case "InfoCall":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.InfoCall(event, err, kv...)
		case "LogAccess":
			here(func(fn, file string, line int) { at(fn, file, line+1) })
			return ctx.LogAccess(event, err, kv...)
		}
	}
	h.Fail("fn %s", o.Fn)
	return nil
}
