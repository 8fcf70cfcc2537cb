package vs

import (
	"cmp"
	"fmt"
	"reflect"
	"slices"
)

var mapDesc bool

// MapKeys returns the keys of m in the order this exploration iterates maps:
// ascending or descending, a parameter of the scenario.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		SortKeys(keys)
		if e := ex; e != nil && !e.dead && e.ctl.cfg.MapPerm && len(keys) <= 4 {
			for i := 0; i < len(keys)-1; i++ {
				j := i + Choose(len(keys)-i)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// SortKeys orders keys deterministically.
func SortKeys[K any](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	case []uint32:
		slices.Sort(ks)
	case []uint64:
		slices.Sort(ks)
	default:
		var zero K
		t := reflect.TypeOf(&zero).Elem()
		if t.Kind() == reflect.String {
			slices.SortFunc(keys, func(a, b K) int {
				return cmp.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
			})
		} else {
			type kv struct {
				s string
				k K
			}
			l := make([]kv, len(keys))
			for i, k := range keys {
				l[i] = kv{fmt.Sprintf("%T %020v", k, k), k}
			}
			slices.SortFunc(l, func(a, b kv) int { return cmp.Compare(a.s, b.s) })
			for i := range l {
				keys[i] = l[i].k
			}
		}
	}
	if mapDesc {
		slices.Reverse(keys)
	}
}
