package zzsimrt

import (
	"cmp"
	"fmt"
	"iter"
	"slices"
)

var (
	mapsOn  bool
	mapRand PRNG
	// MapIterations counts iterations over maps whose order the simulator chose.
	MapIterations uint64
)

// SeedMaps makes map iteration order a function of seed.
//
//go:norace
func SeedMaps(seed uint64) { mapsOn, mapRand = true, PRNG{s: seed} }

//go:norace
func mapDraw(n int) int { return mapRand.N(n) }

//go:norace
func mapsActive() bool { MapIterations++; return mapsOn }

func compareKeys(a, b any) int {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return cmp.Compare(x, y)
		}
	case uint64:
		if y, ok := b.(uint64); ok {
			return cmp.Compare(x, y)
		}
	case int:
		if y, ok := b.(int); ok {
			return cmp.Compare(x, y)
		}
	}
	return 0
}

// MapVisits counts the entries put in order, as a measure of work.
var MapVisits int

//go:norace
func visit(n int) { MapVisits += n }

type namedKey[K any] struct {
	name string
	key  K
}

func orderKeys[K any](keys []K) {
	visit(len(keys))
	var k K
	switch any(k).(type) {
	case string, uint64, int:
		slices.SortFunc(keys, func(a, b K) int { return compareKeys(any(a), any(b)) })
	default:
		named := make([]namedKey[K], len(keys))
		for i, k := range keys {
			named[i] = namedKey[K]{fmt.Sprintf("%T:%v", any(k), any(k)), k}
		}
		slices.SortFunc(named, func(a, b namedKey[K]) int { return cmp.Compare(a.name, b.name) })
		for i := range named {
			keys[i] = named[i].key
		}
	}
	for i := len(keys) - 1; i > 0; i-- {
		j := mapDraw(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
}

// MapIter ranges over a map in an order the simulator chooses.
func MapIter[K comparable, V any](m map[K]V) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if !mapsActive() {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		orderKeys(keys)
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeysIter is MapIter for loops that only name the key.
func MapKeysIter[K comparable, V any](m map[K]V) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapIter(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// Maps_Keys, Maps_Values and Maps_All stand for their namesakes in package maps.
func Maps_Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] { return MapKeysIter(m) }

func Maps_Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapIter(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Maps_All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return MapIter(m) }

// XMaps_Keys and XMaps_Values stand for their namesakes in golang.org/x/exp/maps.
func XMaps_Keys[M ~map[K]V, K comparable, V any](m M) []K { return slices.Collect(MapKeysIter(m)) }

func XMaps_Values[M ~map[K]V, K comparable, V any](m M) []V { return slices.Collect(Maps_Values(m)) }
