// Package maps is a drop-in replacement whose iteration order the world decides.
package maps

import (
	"iter"
	rmaps "maps"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return rt.MapRange(m) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range rt.MapRange(m) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range rt.MapRange(m) {
			if !yield(v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                   { return rmaps.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) { rmaps.Copy(d, s) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V         { return rmaps.Collect(s) }
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V]) { rmaps.Insert(m, s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool        { return rmaps.Equal(a, b) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return rmaps.EqualFunc(a, b, eq)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range rt.MapRange(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
