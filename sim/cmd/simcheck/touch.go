package main

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

const touchKinds = 8

// touch reads a value and everything below it, in one of several ways, and
// throws away what it gets: reading must leave no trace. N selects the way.
func touch(v *jsonvalue.V, n int) {
	if v == nil {
		return
	}
	e := &Env{}
	switch n % touchKinds {
	case 0:
		_ = v.String()
	case 1:
		convText(v, true)
	case 2:
		for k := 0; k < 5; k++ {
			exportText(v, k)
		}
	case 3:
		v.MustMarshal(jsonvalue.OptKeySequence([]string{"b", "a"}), jsonvalue.OptOmitNull(true))
		v.MustMarshalString(jsonvalue.OptSetSequence(), jsonvalue.OptIndent("", " "))
		v.MustMarshal(jsonvalue.OptUTF8(), jsonvalue.OptEscapeHTML(true))
		v.MarshalJSON()
	case 4:
		v.Equal(v)
		v.LessThan(v)
		x := jsonvalue.New(1)
		v.Equal(x)
		v.GreaterThan(x)
		x.LessThanOrEqual(v)
	case 5:
		jsonvalue.Import(v)
		jsonvalue.New(map[string]interface{}{"a": v})
	case 6:
		for k := 0; k < 5; k++ {
			walkText(e, v, k)
		}
	case 7:
		getsText(e, v, "a", nil)
		getsText(e, v, 0, nil)
		getsText(e, v, "b", []interface{}{0})
	}
	if n%touchKinds == 2 || n%touchKinds == 5 || n%touchKinds == 3 {
		return // deep by themselves
	}
	for _, x := range v.ForRangeArr() {
		touch(x, n)
	}
	m := v.ForRangeObj()
	for _, k := range keysOf(m) {
		touch(m[k], n)
	}
}

// churn adds members and takes them away again, in one of several ways.
func churn(v *jsonvalue.V, n, rep int) error {
	const key = "churned"
	var err error
	keep := func(e error) {
		if err == nil {
			err = e
		}
	}
	set := func(k string, i int) {
		_, e := v.Set(i).At(k)
		keep(e)
	}
	if v.IsObject() {
		switch n {
		case 1: // one key set again and again
			for i := 0; i < rep; i++ {
				set(key, i)
			}
			keep(v.Delete(key))
		case 2: // many keys
			k := make([]string, rep)
			for i := range k {
				k[i] = key + string(rune('a'+i%26)) + string(rune('a'+i/26%26)) + string(rune('a'+i/676))
				set(k[i], i)
			}
			for i := range k {
				keep(v.Delete(k[(i+rep/2)%rep]))
			}
		default:
			for i := 0; i < rep; i++ {
				set(key, i)
				keep(v.Delete(key))
			}
		}
		return err
	}
	if !v.IsArray() {
		return errC08
	}
	for i := 0; i < rep; i++ {
		var e error
		if n == 1 {
			_, e = v.Append(i).InTheBeginning()
		} else {
			_, e = v.Append(i).InTheEnd()
		}
		keep(e)
		if n == 0 {
			keep(v.Delete(-1))
		}
	}
	if n != 0 {
		for i := 0; i < rep; i++ {
			p := 0
			if n == 2 {
				p = -1
			}
			keep(v.Delete(p))
		}
	}
	return err
}
