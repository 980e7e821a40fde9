// Package maps is the standard package with a fixed iteration order.
package maps

import (
	"iter"
	rm "maps"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range mc.MapKeys(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range mc.MapKeys(m) {
			if !yield(m[k]) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range mc.MapKeys(m) {
			if !yield(k, m[k]) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M              { return rm.Clone(m) }
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return rm.Equal(m1, m2) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return rm.EqualFunc(m1, m2, eq)
}
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for _, k := range mc.MapKeys(src) {
		dst[mc.TouchKey(k)] = src[k]
	}
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, k := range mc.MapKeys(m) {
		if del(k, m[k]) {
			delete(m, k)
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		m[mc.TouchKey(k)] = v
	}
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := map[K]V{}
	Insert(m, seq)
	return m
}
