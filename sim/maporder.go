package sim

import (
	"fmt"
	"reflect"
	"sort"
)

// Order iterates over a map in an order that is the simulator's decision.
type Order struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
	cur  reflect.Value
}

// MapOrder stands in for ranging over m (a map) in instrumented code.
func MapOrder(m interface{}) *Order {
	o := &Order{m: reflect.ValueOf(m)}
	o.keys = o.m.MapKeys()
	w := W
	if w == nil || len(o.keys) < 2 {
		return o
	}
	ks := o.keys
	less := func(a, b reflect.Value) bool {
		switch a.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return a.Uint() < b.Uint()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return a.Int() < b.Int()
		case reflect.String:
			return a.String() < b.String()
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	}
	sort.SliceStable(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	for i := 0; i+1 < len(ks); i++ {
		j := i + w.Draw("maporder", len(ks)-i)
		ks[i], ks[j] = ks[j], ks[i]
	}
	w.Count("map.iteration_ordered")
	return o
}

// Next moves on, and stores key and value through k and v (pointers, or nil).
func (o *Order) Next(k, v interface{}) bool {
	for o.i < len(o.keys) {
		key := o.keys[o.i]
		o.i++
		val := o.m.MapIndex(key)
		if !val.IsValid() {
			continue // deleted meanwhile
		}
		if k != nil {
			reflect.ValueOf(k).Elem().Set(key)
		}
		if v != nil {
			reflect.ValueOf(v).Elem().Set(val)
		}
		return true
	}
	return false
}
