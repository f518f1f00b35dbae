// Driver of parse.Parse and parse.String: a lexer made from a table of operators.
package main

import (
	"encoding/json"
	"io"
	"strconv"
	"sync"
	"testing/iotest"
	"time"

	"bytes"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
	"verif/harness/h"
)

type infix struct {
	V    []int  `json:"v"`
	Kind string `json:"kind"`
	Prec int    `json:"prec"`
	Pow  int    `json:"pow"`
	Mid  int    `json:"mid"`
}

type prefix struct {
	V   []int `json:"v"`
	Pow int   `json:"pow"`
}

type kase struct {
	Infix  []infix         `json:"infix"`
	Prefix []prefix        `json:"prefix"`
	Text   []int           `json:"text"`
	Tok    json.RawMessage `json:"tok"`
	Precs  []int           `json:"precs"`
	Par    int             `json:"par"`
}

type tree = map[string]interface{}

func nz(x interface{}) interface{} {
	if x == nil {
		return tree{"k": "nil"}
	}
	return x
}

// lexer is shared by all parsers of a case
type lexer struct {
	k *kase
}

func at(src *parse.Source) []byte {
	skip.Space(src)
	if src.Error() != nil && len(src.Peek()) == 0 {
		return nil
	}
	b, _ := src.PeekN(1)
	return b
}

func (l *lexer) PrefixToken(src *parse.Source) parse.PrefixToken {
	b := at(src)
	if len(b) == 0 {
		return nil
	}
	if b[0] >= '0' && b[0] <= '9' {
		return operand{}
	}
	if b[0] == '(' {
		return group{l}
	}
	for i := range l.k.Prefix {
		if l.k.Prefix[i].V[0] == int(b[0]) {
			return prefixOp{l, &l.k.Prefix[i]}
		}
	}
	return nil
}

func (l *lexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
	_ = src.Peek()[0] // only asked when there is something left to look at and nothing went wrong
	b := at(src)
	if len(b) == 0 {
		return nil, 0
	}
	for i := range l.k.Infix {
		if l.k.Infix[i].V[0] == int(b[0]) {
			return infixOp{l, &l.k.Infix[i]}, l.k.Infix[i].Prec
		}
	}
	return nil, 0
}

type operand struct{}

func (operand) PrefixParse(src *parse.Source) interface{} {
	return tree{"k": "num", "v": h.Str(strconv.FormatUint(read.Uint64(src), 10))}
}

type group struct{ l *lexer }

func (t group) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('(')
	x := parse.Parse(src, t.l, 0)
	skip.Space(src)
	src.Consume1(')')
	return tree{"k": "par", "x": nz(x)}
}

type prefixOp struct {
	l *lexer
	o *prefix
}

func (t prefixOp) PrefixParse(src *parse.Source) interface{} {
	src.Consume1(byte(t.o.V[0]))
	return tree{"k": "pre", "o": t.o.V, "x": nz(parse.Parse(src, t.l, t.o.Pow))}
}

type infixOp struct {
	l *lexer
	o *infix
}

func (t infixOp) InfixParse(src *parse.Source, left interface{}) interface{} {
	src.Consume1(byte(t.o.V[0]))
	switch t.o.Kind {
	case "post":
		return tree{"k": "post", "o": t.o.V, "l": nz(left)}
	case "in":
		return tree{"k": "in", "o": t.o.V, "l": nz(left), "r": nz(parse.Parse(src, t.l, t.o.Pow))}
	}
	m := parse.Parse(src, t.l, t.o.Mid)
	skip.Space(src)
	src.Consume1(':')
	return tree{"k": "tern", "o": t.o.V, "l": nz(left), "m": nz(m), "r": nz(parse.Parse(src, t.l, t.o.Pow))}
}

func run(raw []byte) ([]h.Ev, interface{}, bool) {
	var k kase
	if err := json.Unmarshal(raw, &k); err != nil {
		h.Fail("%v", err)
	}
	rec := &h.Rec{}
	par := map[string]interface{}{"infix": k.Infix, "prefix": k.Prefix, "text": k.Text, "tok": k.Tok}
	l := &lexer{&k}
	text := h.FromInts(k.Text)
	name := func(err error) string {
		switch err {
		case nil:
			return ""
		case io.EOF:
			return "EOF"
		}
		return "error"
	}
	one := func(rec *h.Rec) {
		v, err := parse.String(string(text), l)
		if err != nil {
			rec.Log("Parsed", "how", "String", "p", 0, "err", "error")
		} else {
			rec.Log("Parsed", "how", "String", "p", 0, "err", "", "tree", nz(v))
		}
		for i, p := range k.Precs {
			src := parse.NewSourceString(string(text))
			how := "string"
			if i%2 == 1 && len(text) > 0 {
				how = "reader"
				var r io.Reader = bytes.NewReader(text)
				if p%2 == 1 {
					r = iotest.DataErrReader(r)
				}
				src, err = parse.NewSource(r, make([]byte, 1+(len(text)+i)%3))
				if err != nil {
					h.Fail("%v", err)
				}
			}
			v := parse.Parse(src, l, p)
			rest, _ := src.PeekN(1 << 20)
			if e := name(src.Error()); e == "error" {
				rec.Log("Parsed", "how", how, "p", p, "err", e)
			} else {
				rec.Log("Parsed", "how", how, "p", p, "err", e, "tree", nz(v), "rest", h.Bytes(rest))
			}
		}
	}
	how, msg := h.Guard(20*time.Second, func() {
		if k.Par == 0 {
			one(rec)
			return
		}
		var wg sync.WaitGroup
		for g := 0; g < k.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if how, msg := h.Guard(20*time.Second, func() { one(rec) }); how != "ok" {
					rec.Log("Failed", "how", how, "msg", msg)
				}
			}()
		}
		wg.Wait()
	})
	if how != "ok" {
		rec.Log("Failed", "how", how, "msg", msg)
	}
	return rec.Events(), par, how != "hang"
}


func main() { h.MainPar(run) }
