package core

import (
	"fmt"
	"hash/fnv"
	"iter"
)

// Slice makes a sequence of a slice.
func Slice[T any](s []T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for _, x := range s {
			if !yield(x) {
				return
			}
		}
	}
}

// Words enumerates all sequences over 0..k-1 with length lo..hi, shortest first.
// The yielded slice is fresh.
func Words(k, lo, hi int) iter.Seq[[]int] {
	return func(yield func([]int) bool) {
		for n := lo; n <= hi; n++ {
			w := make([]int, n)
			for {
				if !yield(append([]int{}, w...)) {
					return
				}
				i := n - 1
				for i >= 0 && w[i] == k-1 {
					w[i] = 0
					i--
				}
				if i < 0 {
					break
				}
				w[i]++
			}
		}
	}
}

// Product enumerates all tuples with 0 <= t[i] < dims[i].
func Product(dims ...int) iter.Seq[[]int] {
	return func(yield func([]int) bool) {
		for _, d := range dims {
			if d == 0 {
				return
			}
		}
		w := make([]int, len(dims))
		for {
			if !yield(append([]int{}, w...)) {
				return
			}
			i := len(dims) - 1
			for i >= 0 && w[i] == dims[i]-1 {
				w[i] = 0
				i--
			}
			if i < 0 {
				return
			}
			w[i]++
		}
	}
}

// Batch groups a sequence.
func Batch[T any](seq iter.Seq[T], n int) iter.Seq[[]T] {
	return func(yield func([]T) bool) {
		var b []T
		for x := range seq {
			b = append(b, x)
			if len(b) == n {
				if !yield(b) {
					return
				}
				b = nil
			}
		}
		if len(b) > 0 {
			yield(b)
		}
	}
}

// Map transforms a sequence.
func Map[A, B any](seq iter.Seq[A], f func(A) B) iter.Seq[B] {
	return func(yield func(B) bool) {
		for x := range seq {
			if !yield(f(x)) {
				return
			}
		}
	}
}

// Subsets enumerates all subsets of 0..n-1 as index lists.
func Subsets(n int) iter.Seq[[]int] {
	return func(yield func([]int) bool) {
		for m := 0; m < 1<<n; m++ {
			var s []int
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					s = append(s, i)
				}
			}
			if !yield(s) {
				return
			}
		}
	}
}

// Perms enumerates all permutations of 0..n-1.
func Perms(n int) iter.Seq[[]int] {
	return func(yield func([]int) bool) {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == n {
				return yield(append([]int{}, p...))
			}
			for j := i; j < n; j++ {
				p[i], p[j] = p[j], p[i]
				if !rec(i + 1) {
					return false
				}
				p[i], p[j] = p[j], p[i]
			}
			return true
		}
		rec(0)
	}
}

// ShortHash identifies a message.
func ShortHash(s string) string {
	h := fnv.New32a()
	h.Write([]byte(s))
	return fmt.Sprintf("%08x", h.Sum32())
}
