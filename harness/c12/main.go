// Driver of the JSON formatter: builds Go values from descriptions, of types made at run time or named here.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"verif/harness/h"
	"verif/harness/val"
)

type kase struct {
	T   *val.Typ        `json:"t"`
	Val *val.Val        `json:"val"`
	V   json.RawMessage `json:"v"`
	Pre []int           `json:"pre"`
	Par int             `json:"par"`
	Cfg string          `json:"cfg"` // "", or which of "unexported" and "extension" are on
}

// extension: has its own text for the values of one type
type extension struct{ t reflect.Type }

type extEncoder struct{}

func (extEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
	return append(space, fmt.Sprintf(`"ext %d"`, *(*int)(ptr))...)
}

func (e *extension) EncoderOf(prefix string, valType reflect.Type) jsonfmt.Encoder {
	if valType == e.t {
		return extEncoder{}
	}
	return nil
}

func froze(cfg string) jsonfmt.API {
	c := jsonfmt.Config{IncludesUnexported: strings.Contains(cfg, "unexported")}
	if strings.Contains(cfg, "extension") {
		c.Extensions = []jsonfmt.Extension{&extension{reflect.TypeOf(chan bool(nil))}, &extension{val.TypeOf(&val.Typ{T: "named", Nam: "nInt"})}}
	}
	return c.Froze()
}

var apis = map[string]jsonfmt.API{"": jsonfmt.ConfigDefault, "unexported": froze("unexported"), "extension": froze("extension"), "unexported extension": froze("unexported extension")}

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	val.Must(json.Unmarshal(raw, &k))
	rec := &h.Rec{}
	t := val.TypeOf(k.T)
	ptr := reflect.New(t)
	val.Set(ptr.Elem(), k.Val)
	obj := ptr.Elem().Interface()
	pre := h.FromInts(k.Pre)
	calls := []struct {
		how string
		f   func() []byte
		pre []byte
	}{
		{"MarshalToString", func() []byte { return []byte(jsonfmt.MarshalToString(obj)) }, nil},
		{"Encode", func() []byte {
			return jsonfmt.EncoderOfObject(obj).Encode(nil, append(make([]byte, 0, len(pre)+len(pre)%7), pre...), reflect2.PtrOf(obj))
		}, pre},
		{"EncoderOf", func() []byte {
			return jsonfmt.EncoderOf(reflect2.TypeOf(obj)).Encode(nil, append([]byte(nil), pre...), reflect2.PtrOf(obj))
		}, pre},
		{"pointer", func() []byte { // a pointer to the value denotes the same
			return []byte(jsonfmt.MarshalToString(ptr.Interface()))
		}, nil},
		{"Froze", func() []byte { // nothing cached yet
			return jsonfmt.Config{}.Froze().EncoderOfObject(obj).Encode(nil, append([]byte(nil), pre...), reflect2.PtrOf(obj))
		}, pre},
	}
	if k.Cfg != "" {
		calls = calls[:0]
	}
	api := apis[k.Cfg]
	calls = append(calls, []struct {
		how string
		f   func() []byte
		pre []byte
	}{
		{"api", func() []byte { return api.EncoderOfObject(obj).Encode(nil, append([]byte(nil), pre...), reflect2.PtrOf(obj)) }, pre},
		{"api of type", func() []byte {
			return api.EncoderOf(reflect2.TypeOf(obj)).Encode(nil, append([]byte(nil), pre...), reflect2.PtrOf(obj))
		}, pre},
		{"api of pointer", func() []byte {
			obj := ptr.Interface()
			return api.EncoderOfObject(obj).Encode(nil, append([]byte(nil), pre...), reflect2.PtrOf(obj))
		}, pre},
		{"frozen now", func() []byte {
			return froze(k.Cfg).EncoderOfObject(obj).Encode(nil, append([]byte(nil), pre...), reflect2.PtrOf(obj))
		}, pre},
	}...)
	one := func(i int) {
		c := calls[i]
		var out []byte
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprint(r)
				}
			}()
			out = append([]byte(nil), c.f()...)
			done <- ""
		}()
		select {
		case p := <-done:
			if p != "" {
				rec.Log("Panic", "how", c.how, "msg", p)
				return
			}
		case <-time.After(20 * time.Second):
			rec.Log("Hang", "how", c.how)
			return
		}
		rec.Log("Marshal", "how", c.how, "pre", h.Bytes(c.pre), "out", h.Bytes(out))
	}
	if k.Par > 0 {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < k.Par; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				one(g % len(calls))
			}()
		}
		close(gate)
		wg.Wait()
	} else {
		for i := range calls {
			one(i)
		}
	}
	return rec.Events(), map[string]interface{}{"v": k.V}, true
}

func main() { h.MainPar(run) }
