// Package ft is an offline stand-in for github.com/indigo-web/utils/ft.
package ft

func Map[T, U any](fn func(T) U, in []T) []U {
	out := make([]U, 0, len(in))
	for _, el := range in {
		out = append(out, fn(el))
	}
	return out
}

func Sum[T int | int64 | uint | float64 | string](in []T) (sum T) {
	for _, el := range in {
		sum += el
	}
	return sum
}
