// Package val builds Go values from descriptions, of types made at run time or named here.
package val

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"

	"verif/harness/h"
)

type Typ struct {
	T   string  `json:"t"`
	E   *Typ    `json:"e"`
	K   *Typ    `json:"k"`
	N   int     `json:"n"`
	F   []field `json:"f"`
	Nam string  `json:"name"`
}
type field struct {
	N   string `json:"n"`
	Tag string `json:"tag"`
	E   *Typ   `json:"e"`
}

type (
	node struct {
		V    int
		Next *node
		Kids []node
		M    map[string]*node `json:"m,omitempty"`
		I    interface{}
		Prev *node `json:"-"`
	}
	listL  []listL
	mapM   map[string]mapM
	ptrP   *ptrP
	pair   struct{ A, B *pair }
	oneP   struct{ P *oneP }
	arrA   struct{ A [2]*arrA }
	nInt   int
	nI8    int8
	nU32   uint32
	nU8    uint8
	nStr   string
	nByt   []byte
	nBool  bool
	nF32   float32
	nMap   map[nStr]nInt
	nSl    []nStr
	errS   struct{ Msg string }
	errP   struct{ Msg string }
	errT   string
	marV   struct{ Msg string } // marshals to its message, as it is
	marP   struct{ Msg string } // the pointer does
	marI   int                  // marshals to a list with itself
	marE   string               // cannot be marshaled
	Emb    struct{ X int }
	EmbP   struct{ Y string }
	outer2 struct {
		Emb
		*EmbP
		Z nInt
	}
	unexp struct {
		a  int
		B  int
		c  *int
		D  string
		é  int
		Éb int
		Ḁc int
		_  int
		F  func()
		C  chan int
		E  error
	}
)

func (e errS) Error() string  { return e.Msg }
func (e *errP) Error() string { return e.Msg }
func (e errT) Error() string  { return string(e) }

func (m marV) MarshalJSON() ([]byte, error)  { return []byte(m.Msg), nil }
func (m *marP) MarshalJSON() ([]byte, error) { return []byte(m.Msg), nil }
func (m marI) MarshalJSON() ([]byte, error)  { return []byte(fmt.Sprintf("[%d]", int(m))), nil }
func (m marE) MarshalJSON() ([]byte, error)  { return []byte("1"), errors.New(string(m)) }

var _ = unexp{}.a

func twin1() reflect.Type {
	type twin struct {
		A int
		B string
	}
	return reflect.TypeOf(twin{})
}

func twin2() reflect.Type {
	type twin struct {
		B string
		C *int
		A []int8
	}
	return reflect.TypeOf(twin{})
}

var named = map[string]reflect.Type{}

func init() {
	for _, o := range []interface{}{node{}, listL{}, mapM{}, pair{}, oneP{}, arrA{}, nInt(0), nI8(0), nU32(0), nU8(0), nStr(""), nByt{}, nBool(false), nF32(0), nMap{}, nSl{},
		errS{}, &errP{}, errT(""), marV{}, &marP{}, marI(0), marE(""), outer2{}, Emb{}, EmbP{}, unexp{}} {
		t := reflect.TypeOf(o)
		n := t.Name()
		if t.Kind() == reflect.Ptr {
			n = t.Elem().Name()
		}
		named[n] = t
	}
	// two types of the same name
	named["twin1"], named["twin2"] = twin1(), twin2()
	named["ptrP"] = reflect.TypeOf((*ptrP)(nil)).Elem()
}

var basic = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"float64": reflect.TypeOf(float64(0)), "float32": reflect.TypeOf(float32(0)), "string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil)),
	"error": reflect.TypeOf((*error)(nil)).Elem(), "iface": reflect.TypeOf((*interface{})(nil)).Elem(), "stringer": reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	"func": reflect.TypeOf(func() {}), "chan": reflect.TypeOf(make(chan int)),
}

func TypeOf(t *Typ) reflect.Type {
	switch t.T {
	case "ptr":
		return reflect.PtrTo(TypeOf(t.E))
	case "slice":
		return reflect.SliceOf(TypeOf(t.E))
	case "array":
		return reflect.ArrayOf(t.N, TypeOf(t.E))
	case "map":
		return reflect.MapOf(TypeOf(t.K), TypeOf(t.E))
	case "struct":
		fs := []reflect.StructField{}
		for _, f := range t.F {
			sf := reflect.StructField{Name: f.N, Type: TypeOf(f.E)}
			if f.Tag != "" {
				sf.Tag = reflect.StructTag(`json:"` + f.Tag + `" other:"x"`)
			}
			if f.N[0] >= 'a' && f.N[0] <= 'z' {
				sf.PkgPath = "verif/harness/c12"
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	case "named":
		if r, ok := named[t.Nam]; ok {
			return r
		}
	}
	if r, ok := basic[t.T]; ok {
		return r
	}
	h.Fail("type %v %v", t.T, t.Nam)
	return nil
}

// Val: how to make the value of a type.  nil means the zero value.
type Val struct {
	B bool     `json:"b"`
	I string   `json:"i"` // integers
	F string   `json:"f"` // bits of a float64, hexadecimal
	S []int    `json:"s"` // string, bytes, error text
	V *Val     `json:"v"` // pointer, interface
	T *Typ     `json:"t"` // dynamic type of an interface
	L []*Val   `json:"l"` // slice, array, fields of a struct by index, null: zero
	M [][]*Val `json:"m"` // map
}

func Set(dst reflect.Value, v *Val) {
	if v == nil {
		return
	}
	switch dst.Kind() {
	case reflect.Bool:
		dst.SetBool(v.B)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, err := strconv.ParseInt(v.I, 10, 64)
		Must(err)
		dst.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		i, err := strconv.ParseUint(v.I, 10, 64)
		Must(err)
		dst.SetUint(i)
	case reflect.Float32, reflect.Float64:
		b, err := strconv.ParseUint(v.F, 16, 64)
		Must(err)
		dst.SetFloat(math.Float64frombits(b))
	case reflect.String:
		dst.SetString(string(h.FromInts(v.S)))
	case reflect.Ptr:
		if e, ok := dst.Interface().(error); ok && v.V == nil {
			_ = e
			dst.Set(reflect.ValueOf(&errP{string(h.FromInts(v.S))}))
			return
		}
		p := reflect.New(dst.Type().Elem())
		Set(p.Elem(), v.V)
		dst.Set(p)
	case reflect.Slice:
		if dst.Type().Elem().Kind() == reflect.Uint8 && v.L == nil && v.S != nil {
			dst.SetBytes(h.FromInts(v.S))
			return
		}
		s := reflect.MakeSlice(dst.Type(), len(v.L), len(v.L)+1)
		for i, e := range v.L {
			Set(s.Index(i), e)
		}
		dst.Set(s)
	case reflect.Array:
		for i, e := range v.L {
			Set(dst.Index(i), e)
		}
	case reflect.Struct:
		for i, e := range v.L {
			if e != nil {
				Set(dst.Field(i), e)
			}
		}
	case reflect.Map:
		m := reflect.MakeMap(dst.Type())
		for _, kv := range v.M {
			k := reflect.New(dst.Type().Key()).Elem()
			Set(k, kv[0])
			e := reflect.New(dst.Type().Elem()).Elem()
			Set(e, kv[1])
			m.SetMapIndex(k, e)
		}
		dst.Set(m)
	case reflect.Interface:
		if v.T == nil { // an error
			dst.Set(reflect.ValueOf(errors.New(string(h.FromInts(v.S)))))
			return
		}
		e := reflect.New(TypeOf(v.T)).Elem()
		Set(e, v.V)
		dst.Set(e)
	default:
		h.Fail("kind %v", dst.Kind())
	}
}

func Must(err error) {
	if err != nil {
		h.Fail("%v", err)
	}
}
