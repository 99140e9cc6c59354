package rt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// ShuffleMaps switches the seeded map order on; off, maps are walked in key order.
var ShuffleMaps bool

// MapRange walks m in an order the run decides. It has the semantics of a
// range statement over a map: entries removed during the walk are not produced.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		if len(keys) > 1 && ShuffleMaps {
			Hit("map.range")
			shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// shuffle uses one draw when the order stays sorted (the simplest outcome),
// and a sub-generator seeded by one more draw otherwise, so that maps of
// hundreds of entries cost two choices.
func shuffle(n int, swap func(i, j int)) {
	switch Draw(4) {
	case 0:
		return
	case 1: // reversed
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case 2: // rotate by swapping the first with another
		swap(0, 1+Draw(n-1))
	default:
		s := uint64(Draw(1<<20)) + 1
		for i := n - 1; i > 0; i-- {
			s ^= s << 13
			s ^= s >> 7
			s ^= s << 17
			swap(i, int(s%uint64(i+1)))
		}
	}
}

// Shuffle exposes the seeded shuffle to shims.
func Shuffle(n int, swap func(i, j int)) {
	if n > 1 {
		shuffle(n, swap)
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	if len(keys) < 2 {
		return
	}
	rv := reflect.ValueOf(keys)
	switch rv.Type().Elem().Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return rv.Index(i).String() < rv.Index(j).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return rv.Index(i).Int() < rv.Index(j).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(i, j int) bool { return rv.Index(i).Uint() < rv.Index(j).Uint() })
	default:
		s := make([]string, len(keys))
		for i, k := range keys {
			s[i] = fmt.Sprintf("%+v", k)
		}
		sort.Sort(&byString[K]{keys, s})
	}
}

type byString[K any] struct {
	k []K
	s []string
}

func (b *byString[K]) Len() int           { return len(b.k) }
func (b *byString[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byString[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}
