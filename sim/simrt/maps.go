package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapModes: how a hash map yields its members.
const (
	MapSorted = iota
	MapReversed
	MapShuffled
	MapRotated
)

//go:norace
func mapChoice() (int, uint64) {
	if cur == nil {
		soloMapN++
		return soloMapMode, Hash(soloMapSeed, 0xffff, soloMapN)
	}
	cur.mapN++
	return s.cfg.MapMode, Hash(s.cfg.MapSeed, uint64(cur.id), cur.mapN)
}

func permute(n int, swap func(i, j int)) {
	mode, h := mapChoice()
	if n < 2 {
		return
	}
	switch mode {
	case MapReversed:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case MapShuffled:
		for i := n - 1; i > 0; i-- {
			h = mix2(h, uint64(i))
			swap(i, int(h%uint64(i+1)))
		}
	case MapRotated:
		k := int(h % uint64(n))
		rev := func(i, j int) {
			for ; i < j; i, j = i+1, j-1 {
				swap(i, j)
			}
		}
		rev(0, k-1)
		rev(k, n-1)
		rev(0, n-1)
	}
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// MapIt drives a range over a map.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapRange stands for the range clause over a map: the order is the simulator's.
// As in Go, members removed before they are reached do not appear.
func MapRange[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var zk K
	var zv V
	it := &MapIt[K, V]{m: m}
	if len(m) == 0 {
		mapChoice()
		return it, zk, zv
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	switch ks := any(it.keys).(type) {
	case []string:
		sort.Strings(ks)
	default:
		sort.Slice(it.keys, func(i, j int) bool {
			return keyLess(reflect.ValueOf(it.keys[i]), reflect.ValueOf(it.keys[j]))
		})
	}
	permute(len(it.keys), func(i, j int) { it.keys[i], it.keys[j] = it.keys[j], it.keys[i] })
	return it, zk, zv
}

// Next moves to the next member.
func (it *MapIt[K, V]) Next(pk *K, pv *V) bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		if pk != nil {
			*pk = k
		}
		if pv != nil {
			*pv = v
		}
		return true
	}
	return false
}

// MapKeys stands for reflect.Value.MapKeys.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	if len(keys) > 1 {
		k := keys[0].Kind()
		if k != reflect.Float32 && k != reflect.Float64 && k != reflect.Interface && k != reflect.Ptr {
			sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		}
	}
	permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// MapIter stands for reflect.MapIter.
type MapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// NewMapIter stands for reflect.Value.MapRange.
func NewMapIter(v reflect.Value) *MapIter {
	return &MapIter{m: v, keys: MapKeys(v), i: -1}
}

// Next moves to the next member.
func (it *MapIter) Next() bool {
	for it.i+1 < len(it.keys) {
		it.i++
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
	it.i = len(it.keys)
	return false
}

// Key returns the current key.
func (it *MapIter) Key() reflect.Value { return it.keys[it.i] }

// Value returns the current value.
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
