package main

// heapKey writes a canonical dump of everything reachable from a value, unexported fields included: two values
// with the same dump are isomorphic heap graphs (pointers are numbered in first-visit order; maps are visited in
// sorted key order), so merging states with equal dumps cannot merge states with different futures.

import (
	"crypto/sha256"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type dumper struct {
	b   strings.Builder
	ids map[uintptr]int
}

func heapDump(x any) string {
	d := &dumper{ids: map[uintptr]int{}}
	d.walk(reflect.ValueOf(x))
	return d.b.String()
}

func heapKey(x any) string {
	h := sha256.Sum256([]byte(heapDump(x)))
	return string(h[:16])
}

func (d *dumper) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		d.b.WriteString("nil")
	case reflect.Bool:
		if v.Bool() {
			d.b.WriteByte('T')
		} else {
			d.b.WriteByte('F')
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.Pointer()
		if v.Elem().Kind() != reflect.Struct {
			// Pointers to plain values: identity matters too (aliasing), number them as well.
		}
		if n, ok := d.ids[p]; ok {
			d.b.WriteString("@" + strconv.Itoa(n))
			return
		}
		d.ids[p] = len(d.ids)
		d.b.WriteString("&")
		d.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString(v.Elem().Type().String() + ":")
		d.walk(v.Elem())
	case reflect.Struct:
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.walk(v.Field(i))
			d.b.WriteByte(',')
		}
		d.b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		fallthrough
	case reflect.Array:
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		type ent struct {
			s string
			k reflect.Value
		}
		var es []ent
		for _, k := range v.MapKeys() {
			es = append(es, ent{sortKey(k), k})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].s < es[j].s })
		d.b.WriteString("map[")
		for _, e := range es {
			d.walk(e.k)
			d.b.WriteByte('=')
			d.walk(v.MapIndex(e.k))
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.Func:
		if v.IsNil() {
			d.b.WriteString("nil")
		} else {
			d.b.WriteString("func")
		}
	default:
		d.b.WriteString(v.Kind().String())
	}
}

// sortKey is a structural text of a map key, with pointers already on the path cut.
func sortKey(v reflect.Value) string {
	if v.Kind() == reflect.String {
		return v.String()
	}
	var b strings.Builder
	sk(&b, v, map[uintptr]bool{}, 0)
	return b.String()
}

func sk(b *strings.Builder, v reflect.Value, path map[uintptr]bool, depth int) {
	if depth > 24 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		p := v.Pointer()
		if path[p] {
			b.WriteString("^")
			return
		}
		path[p] = true
		sk(b, v.Elem(), path, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		sk(b, v.Elem(), path, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sk(b, v.Field(i), path, depth+1)
			b.WriteByte(',')
		}
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			p2 := map[uintptr]bool{}
			for x := range path {
				p2[x] = true
			}
			var kb strings.Builder
			sk(&kb, k, p2, depth+1)
			es = append(es, kb.String())
		}
		sort.Strings(es)
		b.WriteString(strings.Join(es, ";"))
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			sk(b, v.Index(i), path, depth+1)
			b.WriteByte(',')
		}
	default:
		d := dumper{ids: map[uintptr]int{}}
		d.walk(v)
		b.WriteString(d.b.String())
	}
}
