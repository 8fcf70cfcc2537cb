// Package vmaps replaces package maps with deterministic iteration.
package vmaps

import (
	"iter"
	std "maps"

	"vmc/vs"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(y func(K) bool) {
		for _, k := range vs.MapKeys(m) {
			if _, ok := m[k]; ok && !y(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(y func(V) bool) {
		for _, k := range vs.MapKeys(m) {
			if v, ok := m[k]; ok && !y(v) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(y func(K, V) bool) {
		for _, k := range vs.MapKeys(m) {
			if v, ok := m[k]; ok && !y(k, v) {
				return
			}
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V]) { std.Insert(m, s) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V         { return std.Collect(s) }
func Clone[M ~map[K]V, K comparable, V any](m M) M                   { return std.Clone(m) }
func Copy[A ~map[K]V, B ~map[K]V, K comparable, V any](d A, s B)     { std.Copy(d, s) }
func Equal[A, B ~map[K]V, K, V comparable](a A, b B) bool            { return std.Equal(a, b) }
func EqualFunc[A ~map[K]V, B ~map[K]W, K comparable, V, W any](a A, b B, f func(V, W) bool) bool {
	return std.EqualFunc(a, b, f)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, f func(K, V) bool) {
	for _, k := range vs.MapKeys(m) {
		if v, ok := m[k]; ok && f(k, v) {
			delete(m, k)
		}
	}
}
