package main

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"verif/harness/h"
)

// A typ is a type whose values are told apart: token 0 is the zero value, tokens 1.. are others.
type typ struct {
	name string
	t    reflect.Type
	vals []reflect.Value // addressable
}

type small struct {
	A int8
	B string
	C int64
}
type onePtr struct{ P *int }
type onePtrDeep struct{ O onePtr }
type oneMap struct{ M map[string]int }
type oneFunc struct{ F func() }
type oneChan struct{ C [1]chan int }
type ptrPad struct {
	P *int
	_ struct{}
}
type padPtr struct {
	_ struct{}
	P *int
}
type twoPtr struct{ P, Q *int }
type big struct{ X [40]int64 }
type odd3 [3]byte
type tail struct {
	A int32
	Z struct{}
}
type str string
type ptrStr struct{ s string }

func (p *ptrStr) String() string { return "p" }
func (s str) String() string     { return string(s) }

func f1() {}
func f2() {}

type namedFn func()

var ints [4]int
var types = map[string]*typ{}
var names []string

func define(name string, zero interface{}, vals ...interface{}) {
	defineT(name, reflect.TypeOf(zero).Elem(), vals...)
}

func defineT(name string, t reflect.Type, vals ...interface{}) {
	x := &typ{name: name, t: t, vals: []reflect.Value{reflect.New(t).Elem()}}
	for _, v := range vals {
		p := reflect.New(t).Elem()
		p.Set(reflect.ValueOf(v))
		x.vals = append(x.vals, p)
	}
	types[name] = x
	names = append(names, name)
}

func init() {
	p, q := &ints[0], &ints[1]
	m1, m2 := map[string]int{"a": 1}, map[string]int{}
	c1, c2 := make(chan int), make(chan int, 2)
	s1, s2 := make([]int, 2, 5), []int{}
	define("bool", (*bool)(nil), true)
	define("int8", (*int8)(nil), int8(-1), int8(77))
	define("uint8", (*uint8)(nil), uint8(255), uint8(7))
	define("int16", (*int16)(nil), int16(-2), int16(300))
	define("uint16", (*uint16)(nil), uint16(65535), uint16(4))
	define("int32", (*int32)(nil), int32(-3), int32(1<<30))
	define("uint32", (*uint32)(nil), uint32(1<<32-1), uint32(1<<20))
	define("int64", (*int64)(nil), int64(-1), int64(1)<<40)
	define("uint64", (*uint64)(nil), ^uint64(0), uint64(3))
	define("int", (*int)(nil), -1, 1<<33)
	define("uint", (*uint)(nil), ^uint(0), uint(5))
	define("uintptr", (*uintptr)(nil), ^uintptr(0), uintptr(5))
	define("float32", (*float32)(nil), float32(1.5), float32(-2))
	define("float64", (*float64)(nil), 1.5, -2.25)
	define("complex64", (*complex64)(nil), complex64(1), complex64(2i))
	define("complex128", (*complex128)(nil), 1+2i, 2i)
	define("string", (*string)(nil), "a", strings.Repeat("xyz", 20))
	define("str", (*str)(nil), str("a"), str("b"))
	define("ptr", (**int)(nil), p, q)
	define("ptrptr", (***int)(nil), &p, &q)
	define("uptr", (*unsafe.Pointer)(nil), unsafe.Pointer(p), unsafe.Pointer(q))
	define("chan", (*chan int)(nil), c1, c2)
	define("func", (*func())(nil), f1, f2)
	define("namedfn", (*namedFn)(nil), namedFn(f1), namedFn(f2))
	define("map", (*map[string]int)(nil), m1, m2)
	define("slice", (*[]int)(nil), s1, s2, s1[1:2])
	define("any", (*interface{})(nil), 7, (*int)(nil), onePtr{}, small{1, "b", 2}, "s", []int(nil), struct{}{}, nilMap)
	define("iface", (*fmt.Stringer)(nil), str("v"), (*ptrStr)(nil), &ptrStr{})
	define("error", (*error)(nil), fmt.Errorf("e"), (*myErr)(nil))
	define("small", (*small)(nil), small{1, "b", 2}, small{C: -1})
	define("onePtr", (*onePtr)(nil), onePtr{p}, onePtr{q})
	define("onePtrDeep", (*onePtrDeep)(nil), onePtrDeep{onePtr{p}}, onePtrDeep{onePtr{q}})
	define("oneMap", (*oneMap)(nil), oneMap{m1}, oneMap{m2})
	define("oneFunc", (*oneFunc)(nil), oneFunc{f1}, oneFunc{f2})
	define("oneChan", (*oneChan)(nil), oneChan{[1]chan int{c1}}, oneChan{[1]chan int{c2}})
	define("oneUptr", (*struct{ U unsafe.Pointer })(nil), struct{ U unsafe.Pointer }{unsafe.Pointer(p)}, struct{ U unsafe.Pointer }{unsafe.Pointer(q)})
	define("ptrPad", (*ptrPad)(nil), ptrPad{P: p}, ptrPad{P: q})
	define("padPtr", (*padPtr)(nil), padPtr{P: p}, padPtr{P: q})
	define("twoPtr", (*twoPtr)(nil), twoPtr{p, q}, twoPtr{q, nil})
	define("arrPtr", (*[1]*int)(nil), [1]*int{p}, [1]*int{q})
	define("arrOnePtr", (*[1]onePtr)(nil), [1]onePtr{{p}}, [1]onePtr{{q}})
	define("arrFunc", (*[1]func())(nil), [1]func(){f1}, [1]func(){f2})
	define("arrAny", (*[1]interface{})(nil), [1]interface{}{1}, [1]interface{}{"x"})
	define("arr2str", (*[2]string)(nil), [2]string{"", "b"}, [2]string{"a", ""})
	define("odd3", (*odd3)(nil), odd3{1, 2, 3}, odd3{0, 0, 9})
	define("big", (*big)(nil), big{[40]int64{39: 1}}, big{[40]int64{0: 5}})
	define("tail", (*tail)(nil), tail{A: 1}, tail{A: 2})
	define("empty", (*struct{})(nil))
	define("arr0", (*[0]int)(nil))
	dup1()
	dup2()
	define("weird", (*weird)(nil), weird{1}, weird{2})
}

var nilMap map[string]int

type myErr struct{}

func (*myErr) Error() string { return "" }

// weird is assigned to nothing else
type weird struct{ x int }

func (x *typ) tok(n int) reflect.Value { return x.vals[n%len(x.vals)] }

// which token a value is, -1 if none
func (x *typ) which(v reflect.Value) int {
	if v.Type() != x.t {
		return -2
	}
	for i, w := range x.vals {
		if same(w, v) {
			return i
		}
	}
	return -1
}

func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Func, reflect.Map:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Pointer() == b.Pointer() && a.Len() == b.Len() && a.Cap() == b.Cap()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Elem().Type() == b.Elem().Type() && same(a.Elem(), b.Elem())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	}
	h.Fail("no way to compare %v", a.Type())
	return false
}

func typeNamed(name string) *typ {
	x := types[name]
	if x == nil {
		h.Fail("no type %s", name)
	}
	return x
}

// two types of the same name
func dup1() {
	type rec struct {
		A int8
		B string
	}
	define("dup1", (*rec)(nil), rec{1, "a"}, rec{2, "b"})
}

func dup2() {
	type rec struct {
		B string
		A int64
	}
	define("dup2", (*rec)(nil), rec{"a", 1}, rec{"b", 1 << 40})
}
