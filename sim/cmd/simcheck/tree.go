package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Tree operations: applied both to the library and to the reference tree.

// TOp is one operation on a document.
//
//	set, append (N&1: at the beginning), before, after, del: changes
//	touch: reading in many ways (N: which), of no consequence
//	reset: a member is set to the value it already is
//	move: a member is set under key S too and deleted at its old key, or deleted
//	from its array and appended to it
//	churn: Rep additions that are taken back
//	dec: decoding S in place into a member (N: by which method)
//	sort (N: kind of order), get (N: typed getter), cget, cdel, len, range, marsh
//
// N&16 uses the Must form.
type TOp struct {
	K string `json:"k"`
	P Path   `json:"p"`
	V *Val   `json:"v,omitempty"`
	N int    `json:"n,omitempty"`
	O []O    `json:"o,omitempty"`
	S string `json:"s,omitempty"`
	// Pre: a path at which the same Setter, Appender or Inserter failed before
	Pre *Path `json:"pre,omitempty"`
	// Rep: how often; a call that fails is made this many times more (C08)
	Rep int `json:"rep,omitempty"`
}

const (
	must  = 16
	atSet = 32 // the At(...).Set(...) form
)

func (o *TOp) write() bool {
	switch o.K {
	case "set", "append", "before", "after", "del", "sort", "cget", "cdel", "dec", "churn", "reset", "move":
		return true
	}
	return false
}

func (o *TOp) String() string {
	s := fmt.Sprintf("%s%s", o.K, o.P.String())
	if o.Pre != nil {
		s += " after failing at " + o.Pre.String()
	}
	if o.V != nil {
		s += fmt.Sprintf(" value %s (built %d)", o.V.T, o.V.F)
	}
	if o.S != "" {
		s += " text " + o.S
	}
	if o.N != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	return s
}

// Res is the outcome of an operation: an error class and a canonical text.
type Res struct {
	E string `json:"e,omitempty"`
	V string `json:"v,omitempty"`
}

func (r Res) String() string {
	if r.E != "" && r.V != "" {
		return "error " + r.E + " with " + r.V
	}
	if r.E != "" {
		return "error " + r.E
	}
	return r.V
}

// skipRes marks operations whose outcome is not specified: they are not made.
const skipRes = "skip"

// jGet resolves a path.
func jGet(j *J, es []Elem) (*J, string) {
	for _, e := range es {
		switch j.T {
		case 'o':
			if !e.isStr() {
				return nil, "any"
			}
			c, ok := j.M[e.S]
			if !ok {
				return nil, "NotFound"
			}
			j = c
		case 'a':
			if !e.isInt() {
				return nil, "any"
			}
			i, ok := e.pos(len(j.A))
			if !ok {
				return nil, "OutOfRange"
			}
			j = j.A[i]
		default:
			return nil, "any"
		}
	}
	return j, ""
}

func (e Elem) pos(n int) (int, bool) {
	i := e.I
	if i < 0 {
		i += n
	}
	return i, i >= 0 && i < n
}

// jSet sets a member, creating what is missing on the path.
func jSet(j *J, es []Elem, c *J) string {
	e := es[0]
	last := len(es) == 1
	create := func() (*J, string) {
		n := es[1]
		var x *J
		switch {
		case n.isStr():
			x = jObj()
		case n.isInt():
			if n.I != 0 {
				return nil, "OutOfRange"
			}
			x = jArr()
		default:
			return nil, "any"
		}
		return x, jSet(x, es[1:], c)
	}
	switch j.T {
	case 'o':
		if !e.isStr() {
			return "any"
		}
		if last {
			j.set(e.S, c)
			return ""
		}
		if m, ok := j.M[e.S]; ok {
			return jSet(m, es[1:], c)
		}
		x, err := create()
		if err == "" {
			j.set(e.S, x)
		}
		return err
	case 'a':
		if !e.isInt() {
			return "any"
		}
		i, ok := e.pos(len(j.A))
		if last {
			switch {
			case ok:
				j.A[i] = c
			case e.I == len(j.A):
				j.A = append(j.A, c)
			default:
				return "OutOfRange"
			}
			return ""
		}
		if ok {
			return jSet(j.A[i], es[1:], c)
		}
		if e.I != len(j.A) {
			return skipRes // which index the new member gets is not documented
		}
		x, err := create()
		if err == "" {
			j.A = append(j.A, x)
		}
		return err
	}
	return "any"
}

// tryModel applies the operation to a tree. The change, if any, is made in place
// only if the operation succeeds.
func (o *TOp) tryModel(j *J) Res {
	es := o.P.E
	if o.Pre != nil {
		pre := *o
		pre.Pre, pre.P = nil, *o.Pre
		if len(pre.P.E) == 0 && pre.P.F != formExtra && pre.P.F != formEmpty || o.N&must != 0 {
			return Res{E: skipRes}
		}
		if res := pre.tryModel(j.clone()); res.E == "" || res.E == skipRes {
			return Res{E: skipRes}
		}
	}
	if o.P.F == formExtra || o.P.F == formEmpty {
		if o.K == "append" && o.P.F == formEmpty || len(es) == 0 {
			return Res{E: skipRes}
		}
		if o.K == "cget" || o.K == "cdel" {
			return Res{E: skipRes}
		}
		return Res{E: "any"}
	}
	if len(es) == 0 && (o.K == "set" || o.K == "get" || o.K == "del" || o.K == "before" || o.K == "after" || o.K == "len" || o.K == "range" || o.K == "reset" || o.K == "move") {
		return Res{E: skipRes}
	}
	var c *J
	if o.V != nil {
		c = o.V.model()
	}
	fail := func(e string) Res { return Res{E: e} }
	switch o.K {
	case "set":
		if c.T == 'x' {
			return fail("any")
		}
		if e := jSet(j, es, c); e != "" {
			return fail(e)
		}
		return Res{V: c.canon(true)}

	case "append":
		if c.T == 'x' {
			return fail("any")
		}
		a := j
		if len(es) > 0 {
			x, e := jGet(j, es)
			switch {
			case e == "NotFound":
				x = jArr()
				if e := jSet(j, es, x); e != "" {
					return fail(e)
				}
			case e != "":
				return fail(e)
			case x.T != 'a':
				return fail("any")
			}
			a = x
		}
		if a.T != 'a' {
			return fail("any")
		}
		if o.N&1 != 0 {
			a.A = append([]*J{c}, a.A...)
		} else {
			a.A = append(a.A, c)
		}
		return Res{V: c.canon(true)}

	case "before", "after":
		if c.T == 'x' {
			return fail("any")
		}
		a, e := jGet(j, es[:len(es)-1])
		if e != "" {
			return fail(e)
		}
		last := es[len(es)-1]
		if a.T != 'a' || !last.isInt() {
			return fail("any")
		}
		i, ok := last.pos(len(a.A))
		if !ok {
			return fail("OutOfRange")
		}
		if o.K == "after" {
			i++
		}
		a.A = append(a.A, nil)
		copy(a.A[i+1:], a.A[i:])
		a.A[i] = c
		return Res{V: c.canon(true)}

	case "del":
		p, e := jGet(j, es[:len(es)-1])
		if e != "" {
			return fail(e)
		}
		last := es[len(es)-1]
		switch p.T {
		case 'o':
			if !last.isStr() {
				return fail("any")
			}
			if !p.del(last.S) {
				return fail("NotFound")
			}
		case 'a':
			if !last.isInt() {
				return fail("any")
			}
			i, ok := last.pos(len(p.A))
			if !ok {
				return fail("OutOfRange")
			}
			p.A = append(append([]*J{}, p.A[:i]...), p.A[i+1:]...)
		default:
			return fail("any")
		}
		return Res{}

	case "dec":
		x, e := jGet(j, es)
		if e != "" {
			return fail(e)
		}
		c, err := parseJSON(o.S)
		if err != nil {
			return fail("any")
		}
		*x = *c
		return Res{}

	case "reset":
		x, e := jGet(j, es)
		if e != "" {
			return fail(e)
		}
		if e := jSet(j, es, x); e != "" {
			return fail(e)
		}
		return Res{V: x.canon(true)}

	case "move":
		if es[len(es)-1].S == o.S && es[len(es)-1].isStr() {
			return Res{E: skipRes}
		}
		x, e := jGet(j, es)
		if e != "" {
			return fail(e)
		}
		p, _ := jGet(j, es[:len(es)-1])
		last := es[len(es)-1]
		if p.T == 'o' {
			p.set(o.S, x)
			p.del(last.S)
		} else {
			i, _ := last.pos(len(p.A))
			p.A = append(append([]*J{}, p.A[:i]...), p.A[i+1:]...)
			p.A = append(p.A, x)
		}
		return Res{V: x.canon(true)}

	case "touch":
		if _, e := jGet(j, es); e != "" {
			return fail(e)
		}
		return Res{}

	case "churn":
		x, e := jGet(j, es)
		if e != "" {
			return fail(e)
		}
		if x.T != 'o' && x.T != 'a' {
			return fail("any")
		}
		return Res{}

	case "sort":
		a, e := jGet(j, es)
		if e != "" || a.T != 'a' {
			return Res{E: "any"} // SortArray does nothing
		}
		jSort(a, o.N)
		return Res{}

	case "cget", "cdel":
		return o.caseless(j)

	case "get", "len", "range", "marsh":
		x, e := jGet(j, es)
		if e != "" {
			return fail(e)
		}
		switch o.K {
		case "len":
			return Res{V: fmt.Sprint(len(x.A) + len(x.K))}
		case "range":
			return Res{V: x.canon(true)}
		case "marsh":
			st := (&oState{}).apply(o.O)
			y, ok := st.marshal(x)
			if !ok {
				return fail("any")
			}
			return Res{V: y.canon(st.order != "")}
		}
		switch o.N &^ (must | atSet) {
		case 1:
			if x.T != 's' {
				return fail("TypeNotMatch")
			}
			return Res{V: x.S}
		case 2:
			if x.T != 't' {
				return fail("TypeNotMatch")
			}
		case 3:
			if x.T != 'n' {
				return fail("TypeNotMatch")
			}
		case 4:
			if x.T != 'o' {
				return fail("TypeNotMatch")
			}
		case 5:
			if x.T != 'a' {
				return fail("TypeNotMatch")
			}
		case 6:
			if x.T != 's' {
				return fail("TypeNotMatch")
			}
			b, err := base64.StdEncoding.DecodeString(x.S)
			if err != nil {
				return fail("any")
			}
			return Res{V: string(b)}
		case 7, 8:
			switch x.T {
			case 's', 'f':
				return Res{E: skipRes} // lenient and left open
			case '#':
			default:
				return fail("TypeNotMatch")
			}
			if o.N&^(must|atSet) == 7 {
				i, err := strconv.ParseInt(x.S, 10, 64)
				if err != nil {
					return Res{E: skipRes} // truncated or out of range
				}
				return Res{V: fmt.Sprint(i)}
			}
			f, err := strconv.ParseFloat(x.S, 64)
			if err != nil {
				return Res{E: skipRes}
			}
			return Res{V: fmt.Sprint(f)}
		}
		return Res{V: x.canon(true)}
	}
	panic("bad tree operation " + o.K)
}

// caseless resolves a path element by element, case-insensitively. When several
// members are candidates any choice is right, and the operation is skipped.
func (o *TOp) caseless(j *J) Res {
	es := o.P.E
	if len(es) == 0 {
		return Res{E: skipRes}
	}
	var parent *J
	var key string
	for _, e := range es {
		parent = j
		if j.T == 'o' && e.isStr() {
			c := caseCandidates(j, e.S)
			if len(c) == 0 {
				return Res{E: "NotFound"}
			}
			if len(c) > 1 {
				return Res{E: skipRes}
			}
			key = c[0]
			j = j.M[key]
			continue
		}
		x, err := jGet(j, []Elem{e})
		if err != "" {
			return Res{E: err}
		}
		j = x
	}
	if o.K == "cdel" {
		if parent.T == 'o' {
			parent.del(key)
		} else {
			i, _ := es[len(es)-1].pos(len(parent.A))
			parent.A = append(append([]*J{}, parent.A[:i]...), parent.A[i+1:]...)
		}
		return Res{}
	}
	return Res{V: j.canon(true)}
}

// caseCandidates lists the keys a caseless lookup may choose.
func caseCandidates(j *J, k string) []string {
	if _, ok := j.M[k]; ok {
		return []string{k}
	}
	var c []string
	for _, x := range j.K {
		if strings.ToLower(x) == strings.ToLower(k) {
			c = append(c, x)
		}
	}
	return c
}

// jSort: by canonical text (members that compare equal are identical).
func jSort(a *J, n int) {
	for i := 1; i < len(a.A); i++ {
		for k := i; k > 0 && textLess(n, a.A[k].canon(true), a.A[k-1].canon(true)); k-- {
			a.A[k], a.A[k-1] = a.A[k-1], a.A[k]
		}
	}
}

func textLess(n int, a, b string) bool {
	if n&1 != 0 {
		return a > b
	}
	return a < b
}

func notExist(v *jsonvalue.V) string {
	if v == nil {
		return "<nil returned>"
	}
	if v.ValueType() != jsonvalue.NotExist || v.Len() != 0 {
		return "<value returned with an error: " + vtext(v) + ">"
	}
	return ""
}

// gone checks the value returned with an error, which is the caller's own then:
// the caller decodes something into it.
func gone(v *jsonvalue.V) string {
	t := notExist(v)
	if t == "" {
		v.UnmarshalJSON([]byte(`{"soiled":[1,{}]}`))
	}
	return t
}

// retV turns a (value, error) result into a Res; with an error the value must be
// a non-nil NotExist one.
func retV(v *jsonvalue.V, err error) Res {
	if err != nil {
		return Res{E: errClass(err), V: gone(v)}
	}
	if v == nil {
		return Res{V: "<nil>"}
	}
	return Res{V: vtext(v)}
}

func split(args []interface{}) (interface{}, []interface{}) { return args[0], args[1:] }

// setterOf uses the typed form of Set where there is one.
func setterOf(v *jsonvalue.V, val *Val) jsonvalue.Setter {
	if val.F == 1 {
		switch j := val.model(); j.T {
		case 'n':
			return v.SetNull()
		case 't':
			return v.SetBool(j.B)
		case 's':
			return v.SetString(j.S)
		case '#':
			if i, ok := goValue(j).(int64); ok {
				return v.SetInt64(i)
			}
			if u, ok := goValue(j).(uint64); ok {
				return v.SetUint64(u)
			}
		case 'a':
			if len(j.A) == 0 {
				return v.SetArray()
			}
		case 'o':
			if len(j.K) == 0 {
				return v.SetObject()
			}
		}
	}
	return v.Set(val.lib())
}

func appenderOf(v *jsonvalue.V, val *Val) jsonvalue.Appender {
	if val.F == 1 {
		switch j := val.model(); j.T {
		case 'n':
			return v.AppendNull()
		case 't':
			return v.AppendBool(j.B)
		case 's':
			return v.AppendString(j.S)
		case '#':
			if i, ok := goValue(j).(int64); ok {
				return v.AppendInt64(i)
			}
		case 'a':
			if len(j.A) == 0 {
				return v.AppendArray()
			}
		case 'o':
			if len(j.K) == 0 {
				return v.AppendObject()
			}
		}
	}
	return v.Append(val.lib())
}

func inserterOf(v *jsonvalue.V, val *Val) jsonvalue.Inserter {
	if val.F == 1 {
		switch j := val.model(); j.T {
		case 'n':
			return v.InsertNull()
		case 't':
			return v.InsertBool(j.B)
		case 's':
			return v.InsertString(j.S)
		case '#':
			if i, ok := goValue(j).(int64); ok {
				return v.InsertInt64(i)
			}
		case 'a':
			if len(j.A) == 0 {
				return v.InsertArray()
			}
		case 'o':
			if len(j.K) == 0 {
				return v.InsertObject()
			}
		}
	}
	return v.Insert(val.lib())
}

// failedBefore is the result of an attempt at path Pre that should have failed.
func failedBefore(r Res) (Res, bool) {
	if r.E == "" || r.V != "" {
		return Res{E: "first", V: "the same Setter, Appender or Inserter returned " + r.String() + " at a path that cannot work"}, false
	}
	return r, true
}

func (o *TOp) setAt(s jsonvalue.Setter, p interface{}, ps []interface{}) Res {
	if o.Pre != nil {
		q, qs := split(o.Pre.all())
		if r, ok := failedBefore(retV(s.At(q, qs...))); !ok {
			return r
		}
	}
	return retV(s.At(p, ps...))
}

func (o *TOp) appendAt(a jsonvalue.Appender, args []interface{}) Res {
	f := a.InTheEnd
	if o.N&1 != 0 {
		f = a.InTheBeginning
	}
	if o.Pre != nil {
		if r, ok := failedBefore(retV(f(o.Pre.all()...))); !ok {
			return r
		}
	}
	return retV(f(args...))
}

func (o *TOp) insertAt(i jsonvalue.Inserter, p interface{}, ps []interface{}) Res {
	f := i.Before
	if o.K == "after" {
		f = i.After
	}
	if o.Pre != nil {
		q, qs := split(o.Pre.all())
		if r, ok := failedBefore(retV(f(q, qs...))); !ok {
			return r
		}
	}
	return retV(f(p, ps...))
}

// lib applies the operation to a library value. Must forms return no error: the
// class is then "must".
func (o *TOp) lib(v *jsonvalue.V) Res { return o.libArgs(v, o.P.all()) }

// libArgs is lib with the path given as these parameters.
func (o *TOp) libArgs(v *jsonvalue.V, args []interface{}) Res {
	if len(args) == 0 && o.K != "append" && o.K != "sort" && o.K != "marsh" && o.K != "dec" && o.K != "touch" && o.K != "churn" {
		return Res{E: skipRes}
	}
	mst := o.N&must != 0
	mres := func(x *jsonvalue.V) Res {
		if x == nil {
			return Res{E: "must", V: "<nil returned>"}
		}
		if x.ValueType() == jsonvalue.NotExist {
			gone(x)
			return Res{E: "must"}
		}
		return Res{V: vtext(x)}
	}
	switch o.K {
	case "set":
		p, ps := split(args)
		if mst {
			if o.N&atSet != 0 {
				v.At(p, ps...).Set(o.V.lib())
			} else {
				v.MustSet(o.V.lib()).At(p, ps...)
			}
			return Res{E: "must"}
		}
		return o.setAt(setterOf(v, o.V), p, ps)
	case "append":
		if mst {
			if o.N&1 != 0 {
				v.MustAppend(o.V.lib()).InTheBeginning(args...)
			} else {
				v.MustAppend(o.V.lib()).InTheEnd(args...)
			}
			return Res{E: "must"}
		}
		return o.appendAt(appenderOf(v, o.V), args)
	case "before", "after":
		p, ps := split(args)
		if mst {
			if o.K == "before" {
				v.MustInsert(o.V.lib()).Before(p, ps...)
			} else {
				v.MustInsert(o.V.lib()).After(p, ps...)
			}
			return Res{E: "must"}
		}
		return o.insertAt(inserterOf(v, o.V), p, ps)
	case "del":
		p, ps := split(args)
		if mst {
			v.MustDelete(p, ps...)
			return Res{E: "must"}
		}
		return Res{E: errClass(v.Delete(p, ps...))}
	case "dec":
		x := v
		if len(args) > 0 {
			var err error
			p, ps := split(args)
			if x, err = v.Get(p, ps...); err != nil {
				return Res{E: errClass(err), V: gone(x)}
			}
		}
		b := []byte(o.S)
		var err error
		switch o.N {
		case 1:
			err = x.UnmarshalBinary(b)
		case 2:
			err = json.Unmarshal(b, x)
		default:
			err = x.UnmarshalJSON(b)
		}
		for i := range b {
			b[i] = "}]x\""[i%4]
		}
		return Res{E: errClass(err)}
	case "reset":
		p, ps := split(args)
		x, err := v.Get(p, ps...)
		if err != nil {
			return Res{E: errClass(err), V: gone(x)}
		}
		return retV(v.Set(x).At(p, ps...))
	case "move":
		p, ps := split(args)
		x, err := v.Get(p, ps...)
		if err != nil {
			return Res{E: errClass(err), V: gone(x)}
		}
		up := []interface{}{}
		for _, e := range o.P.E[:len(o.P.E)-1] {
			up = append(up, e.any())
		}
		if o.P.E[len(o.P.E)-1].isStr() {
			up = append(up, o.S)
			if y, err := v.Set(x).At(up[0], up[1:]...); err != nil {
				return Res{E: errClass(err), V: gone(y)}
			}
			if err := v.Delete(p, ps...); err != nil {
				return Res{E: errClass(err)}
			}
			return retV(v.Get(up[0], up[1:]...))
		}
		if err := v.Delete(p, ps...); err != nil {
			return Res{E: errClass(err)}
		}
		return retV(v.Append(x).InTheEnd(up...))
	case "churn":
		x := v
		if len(args) > 0 {
			var err error
			p, ps := split(args)
			if x, err = v.Get(p, ps...); err != nil {
				return Res{E: errClass(err), V: gone(x)}
			}
		}
		return Res{E: errClass(churn(x, o.N, o.Rep))}
	case "touch":
		x := v
		if len(args) > 0 {
			var err error
			p, ps := split(args)
			if x, err = v.Get(p, ps...); err != nil {
				return Res{E: errClass(err), V: gone(x)}
			}
		}
		touch(x, o.N)
		return Res{}
	case "sort":
		a := v
		if len(args) > 0 {
			p, ps := split(args)
			a = v.MustGet(p, ps...)
		}
		if !a.IsArray() {
			a.SortArray(func(x, y *jsonvalue.V) bool { panic("less function called for no array") })
			return Res{E: "other"}
		}
		n := o.N
		a.SortArray(func(x, y *jsonvalue.V) bool { return textLess(n, vtext(x), vtext(y)) })
		return Res{}
	case "cget":
		p, ps := split(args)
		if mst {
			return mres(v.Caseless().MustGet(p, ps...))
		}
		return retV(v.Caseless().Get(p, ps...))
	case "cdel":
		p, ps := split(args)
		if mst {
			v.Caseless().MustDelete(p, ps...)
			return Res{E: "must"}
		}
		return Res{E: errClass(v.Caseless().Delete(p, ps...))}
	case "len":
		p, ps := split(args)
		x, err := v.Get(p, ps...)
		if err != nil {
			return Res{E: errClass(err), V: gone(x)}
		}
		return Res{V: fmt.Sprint(x.Len())}
	case "range":
		p, ps := split(args)
		return retV(v.Get(p, ps...))
	case "marsh":
		x, err := v, error(nil)
		if len(args) > 0 {
			p, ps := split(args)
			if x, err = v.Get(p, ps...); err != nil {
				return Res{E: errClass(err), V: gone(x)}
			}
		}
		b, err := x.Marshal(libOpts(o.O)...)
		if err != nil {
			if len(b) > 0 {
				return Res{E: errClass(err), V: fmt.Sprintf("bytes with an error: %q", b)}
			}
			return Res{E: errClass(err)}
		}
		j, err := parseJSON(string(b))
		if err != nil {
			return Res{V: "no JSON text: " + err.Error()}
		}
		return Res{V: j.canon((&oState{}).apply(o.O).order != "")}
	case "get":
		p, ps := split(args)
		if mst {
			return mres(v.MustGet(p, ps...))
		}
		switch o.N {
		case 1:
			s, err := v.GetString(p, ps...)
			if err != nil {
				return Res{E: errClass(err), V: s}
			}
			return Res{V: s}
		case 2:
			b, err := v.GetBool(p, ps...)
			if err != nil {
				return Res{E: errClass(err)}
			}
			return Res{V: jBool(b).canon(true)}
		case 3:
			if err := v.GetNull(p, ps...); err != nil {
				return Res{E: errClass(err)}
			}
			return Res{V: "null"}
		case 4:
			return retV(v.GetObject(p, ps...))
		case 5:
			return retV(v.GetArray(p, ps...))
		case 6:
			b, err := v.GetBytes(p, ps...)
			if err != nil {
				return Res{E: errClass(err), V: string(b)}
			}
			return Res{V: string(b)}
		case 7:
			i, err := v.GetInt64(p, ps...)
			if err != nil {
				return Res{E: errClass(err), V: nonZero(i != 0)}
			}
			return Res{V: fmt.Sprint(i)}
		case 8:
			f, err := v.GetFloat64(p, ps...)
			if err != nil {
				return Res{E: errClass(err), V: nonZero(f != 0)}
			}
			return Res{V: fmt.Sprint(f)}
		}
		return retV(v.Get(p, ps...))
	}
	panic("bad tree operation " + o.K)
}

// nonZero is the value part of a failed typed read, which is empty as documented.
func nonZero(b bool) string {
	if b {
		return "a value with an error"
	}
	return ""
}

// agree compares the library's outcome with the model's.
func (o *TOp) agree(want, got Res) bool {
	if o.N&must != 0 && o.K != "sort" {
		if o.K != "get" && o.K != "cget" {
			return got.E == "must"
		}
		if want.E != "" {
			return got.E == "must" && got.V == ""
		}
		return got.E == "" && got.V == want.V
	}
	if want.E != "" {
		return errMatch(want.E, got.E) && got.V == ""
	}
	return got.E == "" && got.V == want.V
}

// ---- generation ----

// genElem makes a path element that fits the tree with some probability.
func genElem(r *R, j *J, keys []string, bad int) Elem {
	if r.P(bad) {
		switch r.N(7) {
		case 0:
			return Elem{K: "f"}
		case 1:
			return Elem{K: "b"}
		case 2:
			return Elem{K: "z"}
		case 3:
			return Elem{K: "v"}
		case 4:
			return iE(r.Pick(99, -99, 3))
		case 5:
			return sE("nowhere")
		}
		if j != nil && j.T == 'a' {
			return sE(r.Str(keys))
		}
		return iE(r.In(-2, 2))
	}
	if j != nil && j.T == 'a' {
		n := len(j.A)
		i := r.In(-n, n)
		if n > 0 && r.P(70) {
			i = r.N(n)
			if n > 8 && r.P(40) {
				i = notable(r, n)
			}
			if r.P(30) {
				i -= n
			}
		}
		return Elem{K: []string{"i", "i", "i", "j", "y", "u"}[r.N(6)], I: i}
	}
	k := "s"
	if r.P(10) {
		k = "m"
	}
	if j != nil && j.T == 'o' && len(j.K) > 0 && r.P(60) {
		return Elem{K: k, S: j.K[r.N(len(j.K))]}
	}
	return Elem{K: k, S: r.Str(keys)}
}

// withPre looks for a path at which o fails.
func (g *genCfg) withPre(r *R, o *TOp, j *J) {
	for try := 0; try < 8; try++ {
		p := genPath(r, j, g.keys, 80)
		pre := *o
		pre.P = p
		if len(p.E) == 0 {
			continue
		}
		if res := pre.tryModel(j.clone()); res.E != "" && res.E != skipRes {
			o.Pre = &p
			return
		}
	}
}

// notable picks a position of an array of n elements (n > 8) at which code
// that treats parts of an array differently could go wrong: the ends, the
// middle, quarters, and the neighbours of powers of two.
func notable(r *R, n int) int {
	var i int
	switch r.N(5) {
	case 0:
		i = 0
	case 1:
		i = n - 1
	case 2:
		i = n / 2
	case 3:
		i = n * r.In(1, 3) / 4
	default:
		i = 1 << r.N(11)
		for i >= n {
			i >>= 1
		}
	}
	if r.P(35) {
		i += r.Pick(-1, 1)
	}
	if i < 0 {
		i = 0
	}
	if i >= n {
		i = n - 1
	}
	return i
}

// genPath walks the tree.
func genPath(r *R, j *J, keys []string, bad int) Path {
	var p Path
	for {
		e := genElem(r, j, keys, bad)
		p.E = append(p.E, e)
		if j != nil {
			if x, err := jGet(j, []Elem{e}); err == "" {
				j = x
			} else {
				j = nil
			}
		}
		if j == nil {
			// what is missing may be created
			if len(p.E) < 5 && r.P(35) {
				if r.P(60) {
					p.E = append(p.E, sE(r.Str(keys)))
				} else if r.P(85) {
					p.E = append(p.E, iE(0))
				} else {
					p.E = append(p.E, iE(r.In(-1, 2)))
				}
				continue
			}
			break
		}
		if len(p.E) > 5 || (j.T != 'o' && j.T != 'a') && r.P(93) || r.P(35) {
			break
		}
	}
	switch r.W(70, 10, 8, 6, 3, 2) {
	case 1:
		p.F = formAny
	case 2:
		p.F = formTyped
	case 3:
		p.F = formArray
	case 4:
		if bad > 0 {
			p.F = formExtra
		}
	case 5:
		if bad > 0 {
			p.F = formEmpty
		}
	}
	return p
}

// genVal makes a value to set.
func (g *genCfg) genVal(r *R) *Val {
	j := g.tree(r, r.Pick(0, 0, 1, 2))
	return &Val{T: j.text(0), F: r.Pick(0, 0, 1, 1, 2, 3)}
}

// numbers of values built from Go may be written differently; keep to those that
// are written the same way.
func (g *genCfg) genValSafe(r *R) *Val {
	v := g.genVal(r)
	if v.F == 2 || v.F == 3 {
		if !goSafe(v.model()) {
			v.F = 0
		}
	}
	return v
}

// goSafe: the tree survives the way through Go values unchanged, with its order.
func goSafe(j *J) bool {
	switch j.T {
	case '#':
		switch x := goValue(j).(type) {
		case int64:
			return fmt.Sprint(x) == j.S
		case uint64:
			return fmt.Sprint(x) == j.S
		}
		return false
	case 'a':
		for _, x := range j.A {
			if !goSafe(x) {
				return false
			}
		}
	case 'o':
		if len(j.K) > 1 {
			return false
		}
		for _, x := range j.M {
			if !goSafe(x) {
				return false
			}
		}
	case 'x', 'f':
		return false
	}
	return true
}

// genTOp makes an operation that fits the tree j (the state expected when it is
// made). bad: percentage of operations meant to fail.
func (g *genCfg) genTOp(r *R, j *J, kinds string, bad int) *TOp {
	b := 0
	if r.P(bad) {
		b = 40
	}
	o := &TOp{}
	all := []string{"set", "append", "before", "after", "del", "sort", "get", "len", "range", "marsh", "cget", "cdel", "dec", "touch", "churn", "reset", "move"}
	var ws []int
	for _, k := range all {
		w := 0
		switch {
		case strings.Contains(kinds, "w") && (k == "set"):
			w = 30
		case strings.Contains(kinds, "w") && k == "append":
			w = 12
		case strings.Contains(kinds, "w") && k == "dec":
			w = 5
		case strings.Contains(kinds, "w") && k == "churn":
			w = 2
		case strings.Contains(kinds, "w") && (k == "reset" || k == "move"):
			w = 3
		case k == "touch" && !strings.HasPrefix(kinds, "c"):
			w = 4
		case strings.Contains(kinds, "w") && k == "del":
			w = 15
		case strings.Contains(kinds, "w") && (k == "before" || k == "after"):
			w = 8
		case strings.Contains(kinds, "s") && k == "sort":
			w = 4
		case strings.Contains(kinds, "r") && k == "get":
			w = 20
		case strings.Contains(kinds, "r") && (k == "len" || k == "range" || k == "marsh"):
			w = 6
		case strings.Contains(kinds, "c") && (k == "cget" || k == "cdel"):
			w = 10
		}
		ws = append(ws, w)
	}
	o.K = all[r.W(ws...)]
	o.P = genPath(r, j, g.keys, b)
	switch o.K {
	case "set", "append", "before", "after":
		o.V = g.genValSafe(r)
		if b > 0 && r.P(15) {
			o.V = &Val{T: []string{"none", "nilv"}[r.N(2)]}
		}
		if o.K == "append" {
			o.N = r.N(2)
			if p, ok := g.arrayPath(r, j); ok && r.P(70) {
				o.P.E = p
			}
			if len(o.P.E) == 0 {
				o.P.F = formVar
			}
		}
		if o.K == "before" || o.K == "after" {
			if p, ok := g.arrayPath(r, j); ok && r.P(85) {
				a, _ := jGet(j, p)
				n := len(a.A)
				o.P.E = append(append([]Elem{}, p...), iE(r.In(-n-b/20, n-1+b/20)))
			}
		}
		if r.P(12) {
			o.N |= must
			if o.K == "set" && r.P(50) {
				o.N |= atSet
			}
		} else if b > 0 && r.P(15) {
			g.withPre(r, o, j)
		}
	case "dec":
		o.N = r.N(3)
		if b == 0 || r.P(50) {
			o.P.F = 0
			if p, ok := anyPath(r, j); ok {
				o.P.E = p
			}
		}
		t := g.tree(r, r.In(0, 2))
		if x, e := jGet(j, o.P.E); e == "" && x.T == 'o' && r.P(40) {
			// the same object with some members renamed
			t = jObj()
			for _, k := range x.K {
				n := k
				for try := 0; try < 5 && (r.P(50) || t.M[n] != nil); try++ {
					n = r.Str(g.keys)
				}
				t.set(n, x.M[k].clone())
			}
		}
		o.S = t.text(r.style())
		if b > 0 && r.P(50) || len(o.P.E) == 0 && r.P(70) {
			// a text that was cut
			t = g.container(r, r.In(0, 2))
			o.S = strings.TrimSpace(t.text(r.style()))
			o.S = o.S[:r.N(len(o.S))]
		}
	case "reset", "move":
		if p, ok := anyPath(r, j); ok && r.P(90) {
			o.P = Path{E: p}
		}
		o.S = r.Str(g.keys)
		for try := 0; try < 3 && len(o.P.E) > 0 && o.S == o.P.E[len(o.P.E)-1].S; try++ {
			o.S = r.Str(g.keys)
		}
		if len(o.P.E) == 0 || o.S == o.P.E[len(o.P.E)-1].S {
			o.K = "reset"
		}
	case "churn":
		o.N = r.N(3)
		o.Rep = edgeSize(r, r.Pick(16, 70, 300, 1100))
		o.P.F = 0
		if p, ok := anyPath(r, j); ok && r.P(50) {
			o.P.E = p
		} else if r.P(90) {
			o.P.E = nil
		}
	case "touch":
		o.N = r.N(touchKinds)
		o.P.F = 0
		if p, ok := anyPath(r, j); ok && r.P(50) {
			o.P.E = p
		} else if r.P(90) {
			o.P.E = nil
		}
	case "sort":
		o.N = r.N(2)
		if p, ok := g.arrayPath(r, j); ok && r.P(90) {
			o.P = Path{E: p}
		}
	case "get":
		o.N = r.Pick(0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8)
		if r.P(15) {
			o.N = must
		}
	case "marsh":
		o.O = genOpts(r, g.keys, 1, false)
		if r.P(50) {
			o.P = Path{}
		} else if o.P.F >= formExtra {
			o.P.F = 0
		}
	case "cget", "cdel", "del":
		if o.K != "del" {
			for i := range o.P.E {
				if o.P.E[i].isStr() && r.P(60) {
					o.P.E[i].S = flipCase(r, o.P.E[i].S)
				}
			}
		}
		if r.P(15) {
			o.N |= must
		}
	}
	return o
}

func flipCase(r *R, s string) string {
	if r.P(40) {
		return strings.ToUpper(s)
	}
	if r.P(40) {
		return strings.ToLower(s)
	}
	var b strings.Builder
	for _, c := range s {
		if r.P(50) {
			b.WriteString(strings.ToUpper(string(c)))
		} else {
			b.WriteString(strings.ToLower(string(c)))
		}
	}
	return b.String()
}

// anyPath finds a member anywhere below the root.
func anyPath(r *R, j *J) ([]Elem, bool) {
	var p []Elem
	for j != nil && (len(p) == 0 || r.P(60)) {
		switch {
		case len(j.A) > 0:
			i := r.N(len(j.A))
			p = append(p, iE(i))
			j = j.A[i]
		case len(j.K) > 0:
			k := j.K[r.N(len(j.K))]
			p = append(p, sE(k))
			j = j.M[k]
		default:
			return p, len(p) > 0
		}
	}
	return p, len(p) > 0
}

// arrayPath finds an array in the tree.
func (g *genCfg) arrayPath(r *R, j *J) ([]Elem, bool) {
	var found [][]Elem
	var walk func(x *J, p []Elem)
	walk = func(x *J, p []Elem) {
		if x.T == 'a' {
			found = append(found, append([]Elem{}, p...))
		}
		for i, y := range x.A {
			walk(y, append(p[:len(p):len(p)], iE(i)))
		}
		for _, k := range x.K {
			walk(x.M[k], append(p[:len(p):len(p)], sE(k)))
		}
	}
	if j == nil {
		return nil, false
	}
	walk(j, nil)
	if len(found) == 0 {
		return nil, false
	}
	if len(found) > 20 && len(found[0]) == 0 && r.P(50) {
		return found[0], true
	}
	return found[r.N(len(found))], true
}

// show lists operations for violation messages.
func showOps(ops []*TOp) string {
	var b strings.Builder
	for i, o := range ops {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(o.String())
	}
	return b.String()
}
