//go:build go1.23

package vrt

import "iter"

// MapsKeys is maps.Keys in the order chosen by the explorer.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.Key) {
				return
			}
		}
	}
}

// MapsValues is maps.Values in the order chosen by the explorer.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.Value()) {
				return
			}
		}
	}
}

// MapsAll is maps.All in the order chosen by the explorer.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.Key, e.Value()) {
				return
			}
		}
	}
}
