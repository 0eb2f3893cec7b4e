package mc

// Ladder gives the sizes up to max around which something may change: all powers of two and of ten
// with their neighbours.
func Ladder(max int) (sizes []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 0 && n <= max && !seen[n] {
			seen[n] = true
			sizes = append(sizes, n)
		}
	}
	for n := 0; n <= 4; n++ {
		add(n)
	}
	for n := 8; n <= max+1; n *= 2 {
		add(n - 2)
		add(n - 1)
		add(n)
		add(n + 1)
		add(n + n/2)
	}
	for n := 10; n <= max; n *= 10 {
		add(n - 1)
		add(n)
		add(n + 1)
	}
	return sizes
}
