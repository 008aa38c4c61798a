package main

import (
	"fmt"
	"reflect"
	"sort"
)

// digest hashes a value with everything reachable from it, unexported fields
// included; with spare set, also the unused room of slices, which an append
// through an alias would write to. Shared and cyclic pointers count once.
func digest(v any, spare bool) uint64 {
	w := walker{h: 14695981039346656037, seen: map[uintptr]uint64{}, spare: spare}
	w.walk(reflect.ValueOf(v))
	return w.h
}

type walker struct {
	h     uint64
	seen  map[uintptr]uint64
	spare bool
}

func (w *walker) num(tag byte, n uint64) {
	w.h = (w.h ^ uint64(tag)) * 1099511628211
	w.h = (w.h ^ n) * 0x9e3779b97f4a7c15
	w.h ^= w.h >> 29
}

func (w *walker) str(s string) {
	w.num('S', uint64(len(s)))
	for ; len(s) >= 8; s = s[8:] {
		w.num('b', uint64(s[0])|uint64(s[1])<<8|uint64(s[2])<<16|uint64(s[3])<<24|uint64(s[4])<<32|uint64(s[5])<<40|uint64(s[6])<<48|uint64(s[7])<<56)
	}
	for i := 0; i < len(s); i++ {
		w.num('c', uint64(s[i]))
	}
}

func (w *walker) walk(v reflect.Value) {
	if !v.IsValid() {
		w.num('0', 0)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w.num('0', 0)
			return
		}
		p := v.Pointer()
		if n, ok := w.seen[p]; ok {
			w.num('^', n)
			return
		}
		w.seen[p] = uint64(len(w.seen))
		w.num('*', 0)
		w.walk(v.Elem())
	case reflect.Interface:
		w.num('i', 0)
		w.walk(v.Elem())
	case reflect.Struct:
		w.num('{', uint64(v.NumField()))
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	case reflect.Slice:
		n := v.Len()
		if v.IsNil() {
			w.num('n', 0)
			return
		}
		w.num('[', uint64(n))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w.str(string(v.Bytes()))
			return
		}
		if w.spare && v.Cap() > n {
			v = v.Slice3(0, v.Cap(), v.Cap())
			n = v.Cap()
		}
		for i := 0; i < n; i++ {
			w.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Map:
		w.num('m', uint64(v.Len()))
		type kv struct {
			k string
			v reflect.Value
		}
		var ks []kv
		for it := v.MapRange(); it.Next(); {
			ks = append(ks, kv{fmt.Sprint(it.Key()), it.Value()})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
		for _, k := range ks {
			w.str(k.k)
			w.walk(k.v)
		}
	case reflect.Func:
		w.num('f', uint64(v.Pointer()))
	case reflect.String:
		w.str(v.String())
	case reflect.Bool:
		if v.Bool() {
			w.num('t', 1)
		} else {
			w.num('t', 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.num('d', uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.num('u', v.Uint())
	case reflect.Float32, reflect.Float64:
		w.num('g', uint64(v.Float()))
	default:
		w.num('?', uint64(v.Kind()))
	}
}
