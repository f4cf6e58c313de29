package main

import (
	"fmt"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// iterText consumes channel iterators. Receiving goes through the simulator.
func iterText(e *Env, v *jsonvalue.V, n int) string {
	switch n {
	case 0:
		return strings.Join(drainObj(e, v.IterObjects()), ";")
	case 1:
		return strings.Join(drainArr(e, v.IterArray()), ";")
	case 2:
		a, b := v.IterObjects(), v.IterArray()
		x := drainArr(e, b)
		return strings.Join(append(drainObj(e, a), x...), ";")
	}
	// take one and go away
	it, ok := simrt.Recv2(v.IterObjects())
	if ok && it == nil {
		return "nil delivered"
	}
	return fmt.Sprint(ok)
}

func drainObj(e *Env, ch <-chan *jsonvalue.ObjectIter) []string {
	var out []string
	for {
		it, ok := simrt.Recv2(ch)
		if !ok {
			break
		}
		out = append(out, it.K+"="+e.text(it.V))
	}
	sort.Strings(out)
	return out
}

func drainArr(e *Env, ch <-chan *jsonvalue.ArrayIter) []string {
	var out []string
	for {
		it, ok := simrt.Recv2(ch)
		if !ok {
			break
		}
		out = append(out, fmt.Sprintf("%d=%s", it.I, e.text(it.V)))
	}
	return out
}

func sortedStrings(a []string) []string {
	b := append([]string{}, a...)
	sort.Strings(b)
	return b
}
