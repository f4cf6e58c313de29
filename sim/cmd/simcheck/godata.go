package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"time"
)

// Go data for Import, New and Export: a fixed list of shapes, each filled from a
// seed. Shapes whose members come from hash maps with more than one member have
// no defined order (see goUnordered).

// GoSpec names a piece of Go data.
type GoSpec struct {
	N int    `json:"n"`
	S uint64 `json:"s"`
}

type tagged struct {
	Name   string            `json:"name"`
	Age    int               `json:"age,omitempty"`
	Score  float64           `json:"score"`
	Str    int64             `json:"str,string"`
	Hidden string            `json:"-"`
	NoTag  bool              //
	Bytes  []byte            `json:"bytes,omitempty"`
	List   []int             `json:"list"`
	Sub    *sub              `json:"sub,omitempty"`
	Map    map[string]string `json:"map,omitempty"`
	priv   int
}

type sub struct {
	A int8    `json:"a"`
	B uint16  `json:"b"`
	C *string `json:"c"`
	D [2]bool `json:"d"`
}

type embedded struct {
	sub
	*tagged
	Extra interface{} `json:"extra"`
}

type jsonMarsh struct{ text string }

func (m jsonMarsh) MarshalJSON() ([]byte, error) { return []byte(m.text), nil }

type ptrMarsh struct{ n int }

func (m *ptrMarsh) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"n":%d,"list":[%d,null]}`, m.n, m.n+1)), nil
}

type textMarsh struct{ a, b int }

func (m textMarsh) MarshalText() ([]byte, error) {
	return []byte(strconv.Itoa(m.a) + "/" + strconv.Itoa(m.b)), nil
}

type namedInt int

type mixed struct {
	J  jsonMarsh        `json:"j"`
	P  ptrMarsh         `json:"p"`
	PP *ptrMarsh        `json:"pp"`
	T  textMarsh        `json:"t"`
	R  json.RawMessage  `json:"r"`
	N  namedInt         `json:"n,omitempty"`
	I  interface{}      `json:"i"`
	M  map[int]string   `json:"m"`
	F  float32          `json:"f"`
	At time.Time        `json:"at"`
	U  map[uint8]string `json:"u,omitempty"`
}

const goShapes = 19

// goUnordered: members of the imported value have no defined order.
func goUnordered(n int) bool { return n == 3 || n == 9 }

func goData(sp GoSpec) interface{} {
	r := newR(sp.S, 4242)
	str := func() string { return genStr(r) }
	num := func() int { return r.In(-1000, 1000) }
	mkSub := func() sub {
		s := str()
		return sub{A: int8(num()), B: uint16(r.N(70000)), C: &s, D: [2]bool{r.P(50), r.P(50)}}
	}
	mkTagged := func() tagged {
		s := mkSub()
		t := tagged{Name: str(), Age: r.N(3), Score: float64(num()) / 8, Str: int64(num()), Hidden: "hidden", NoTag: r.P(50), priv: 1}
		if r.P(70) {
			t.Bytes = []byte(str())
		}
		for n := r.N(5); n > 0; n-- {
			t.List = append(t.List, num())
		}
		if r.P(60) {
			t.Sub = &s
		}
		if r.P(60) {
			t.Map = map[string]string{r.Str(keysPlain): str()}
		}
		return t
	}
	switch sp.N % goShapes {
	case 0:
		return mkTagged()
	case 1:
		t := mkTagged()
		return &t
	case 2:
		t := mkTagged()
		return embedded{sub: mkSub(), tagged: &t, Extra: []interface{}{num(), nil, str()}}
	case 3:
		m := map[string]interface{}{}
		for n := r.In(2, 6); n > 0; n-- {
			m[r.Str(keysPlain)] = []interface{}{num(), str()}
		}
		return m
	case 4:
		a := []tagged{}
		for n := r.In(1, 4); n > 0; n-- {
			a = append(a, mkTagged())
		}
		return a
	case 5:
		return mixed{J: jsonMarsh{`{"x":[1,2,{"y":"z"}]}`}, P: ptrMarsh{num()}, PP: &ptrMarsh{num()}, T: textMarsh{num(), num()},
			R: json.RawMessage(`[1.50,"raw"]`), N: namedInt(r.N(2)), I: str(), M: map[int]string{num(): str()}, F: float32(num()) / 4,
			At: time.Unix(int64(r.N(1<<30)), 0).UTC()}
	case 6:
		return []byte(str() + str())
	case 7:
		return str()
	case 8:
		return [3]int{num(), num(), num()}
	case 9:
		m := map[int]sub{}
		for n := r.In(2, 5); n > 0; n-- {
			m[num()] = mkSub()
		}
		return m
	case 10:
		return []interface{}{num(), float64(num()) / 16, str(), r.P(50), nil, map[string]interface{}{r.Str(keysPlain): str()}, []string{str(), str()}}
	case 11:
		return json.RawMessage(`{"raw":` + strconv.Itoa(num()) + `,"list":[{"a":1},{"b":2}]}`)
	case 12:
		return struct {
			V float64
			S []sub
			E interface{} `json:"e,omitempty"`
		}{float64(num()) * 1.5, []sub{mkSub(), mkSub()}, nil}
	}
	switch sp.N % goShapes {
	case 14, 15, 16, 17:
		// distinct types of the same name
		x := sameName(sp.N%goShapes-14, num(), str())
		if r.P(40) {
			return []interface{}{x, x}
		}
		return x
	case 18:
		return []interface{}{sameName(r.N(4), num(), str()), sameName(r.N(4), num(), str()), sameName(r.N(4), num(), str())}
	}
	return &mixed{J: jsonMarsh{`"s"`}, R: json.RawMessage(`null`), M: nil, PP: nil, I: &[]int{num()}[0]}
}

func sameName(k, n int, s string) interface{} {
	switch k {
	case 0:
		type record struct {
			ID   int    `json:"id"`
			Name string `json:"name"`
		}
		return record{n, s}
	case 1: // a marshaler by its embedded member
		type record struct{ textMarsh }
		return record{textMarsh{n, 1}}
	case 2: // the same members under other names
		type record struct {
			ID   int    `json:"name"`
			Name string `json:"id,omitempty"`
		}
		return &record{n, s}
	}
	type record struct {
		jsonMarsh
		ID int
	}
	return record{jsonMarsh{fmt.Sprintf(`{"n":%d}`, n)}, n}
}

// plainJSON is what encoding/json says about Go data (used to compare a Go value
// before and after, not as an oracle for Import).
func plainJSON(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}
