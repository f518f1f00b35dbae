// Driver of reflect2: the same history of operations through one of its ways of access
// (unsafe, safe, or the Unsafe* functions, "raw"), with the memory read back by plain Go after each.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"verif/harness/h"
)

type op struct {
	Op string `json:"op"`
	V  int    `json:"v"`
	W  int    `json:"w"`
	I  int    `json:"i"`
	J  int    `json:"j"`
	N  int    `json:"n"`
	C  int    `json:"c"`
	T  int    `json:"t"`
	Ts []int  `json:"ts"`
	A  int    `json:"a"`
	X  string `json:"x"`
}

type kase struct {
	Kind string `json:"kind"`
	How  string `json:"how"` // unsafe, safe, raw
	Typ  string `json:"typ"`
	Key  string `json:"key"`
	Len  int    `json:"len"`
	Ops  []op   `json:"ops"`
	Own  bool   `json:"own"` // a configuration of its own, with an empty cache
}

func main() {
	initShapes()
	warm(reflect2.ConfigUnsafe, names)
	warm(reflect2.ConfigSafe, names)
	h.MainPar(func(raw []byte) ([]h.Ev, interface{}, bool) {
		var k kase
		if err := json.Unmarshal(raw, &k); err != nil {
			h.Fail("case: %v", err)
		}
		r := &h.Rec{}
		var par interface{}
		switch k.Kind {
		case "slice":
			par = runSlice(k, r)
		case "map":
			par = runMap(k, r)
		case "agg":
			par = runAgg(k, r)
		case "types":
			runTypes(k, r)
		default:
			h.Fail("kind %q", k.Kind)
		}
		return r.Events(), par, true
	})
}

func api(k kase) reflect2.API {
	if k.Own {
		cfg := reflect2.Config{UseSafeImplementation: k.How == "safe"}.Froze()
		warm(cfg, []string{"dup1", "dup2"})
		return cfg
	}
	if k.How == "safe" {
		return reflect2.ConfigSafe
	}
	return reflect2.ConfigUnsafe
}

// a configuration that has seen these types before, whatever the case
func warm(cfg reflect2.API, names []string) {
	ends(func() {
		for _, n := range names {
			t := types[n].t
			for _, u := range []reflect.Type{t, reflect.PtrTo(t), reflect.SliceOf(t), reflect.ArrayOf(2, t), reflect.MapOf(reflect.TypeOf(0), t)} {
				cfg.Type2(u)
			}
		}
	})
}

// how a call ends
func ends(f func()) (how string) {
	how = "panic"
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprint(r) == "does not support unsafe operation" {
				how = "unsupported"
			}
		}
	}()
	f()
	return "ok"
}

func ptr(v reflect.Value) unsafe.Pointer { return unsafe.Pointer(v.Pointer()) }

// a value in a place of its own, overwritten afterwards: what is kept must be a copy
func temp(t *typ, n int) (reflect.Value, func()) {
	p := reflect.New(t.t)
	p.Elem().Set(t.tok(n))
	return p, func() { p.Elem().Set(t.tok(n + 1)) }
}

var guards byte // what is around a variable: for each something else

// holder is a variable between two guards
type holder struct {
	all reflect.Value
	v   reflect.Value // *T
	g   byte
}

var holders = map[reflect.Type]reflect.Type{}

func hold(t reflect.Type) *holder {
	ht := holders[t]
	if ht == nil {
		g := reflect.TypeOf([16]byte{})
		ht = reflect.StructOf([]reflect.StructField{{Name: "G1", Type: g}, {Name: "V", Type: t}, {Name: "G2", Type: g}})
		holders[t] = ht
	}
	guards += 37
	x := &holder{all: reflect.New(ht).Elem(), g: guards}
	for _, g := range []string{"G1", "G2"} {
		for i := 0; i < 16; i++ {
			x.all.FieldByName(g).Index(i).SetUint(uint64(x.g + byte(i)&7))
		}
	}
	x.v = x.all.FieldByName("V").Addr()
	return x
}

func (x *holder) intact() bool {
	for _, g := range []string{"G1", "G2"} {
		for i := 0; i < 16; i++ {
			if x.all.FieldByName(g).Index(i).Uint() != uint64(x.g+byte(i)&7) {
				return false
			}
		}
	}
	return true
}

var sink interface{}

func churn(n int) {
	if n%7 == 3 {
		runtime.GC()
	}
	var keep [][]byte
	for i := 0; i < 4; i++ {
		keep = append(keep, make([]byte, 8<<uint(i)))
	}
	sink = keep
}

func wrongArg() interface{} { return &weird{9} }
