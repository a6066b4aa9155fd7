package main

import "time"

// shrink minimises a failing decision sequence, keeping the violation class.
func shrink(p *Prop, tier string, choices []uint32, class string, limit time.Duration) []uint32 {
	end := time.Now().Add(limit)
	best := append([]uint32(nil), choices...)
	tries := 0
	try := func(c []uint32) bool {
		if time.Now().After(end) || tries > 4000 {
			return false
		}
		tries++
		o := execute(p, tier, 0, 0, c, true, false)
		if o.V != nil && o.V.Class == class {
			n := o.Choices
			// Trailing zeros are implied.
			for len(n) > 0 && n[len(n)-1] == 0 {
				n = n[:len(n)-1]
			}
			if less(n, best) {
				best = append([]uint32(nil), n...)
				return true
			}
		}
		return false
	}
	try(best)
	for pass := 0; pass < 6; pass++ {
		before := append([]uint32(nil), best...)
		// cut the tail
		for k := len(best) / 2; k >= 1; k /= 2 {
			for len(best) > k && try(best[:len(best)-k]) {
			}
		}
		// delete blocks
		for k := len(best) / 2; k >= 1; k /= 2 {
			for i := len(best) - k; i >= 0; i -= k {
				if i+k > len(best) {
					continue
				}
				c := append(append([]uint32(nil), best[:i]...), best[i+k:]...)
				try(c)
			}
			if time.Now().After(end) {
				break
			}
		}
		// zero blocks
		for k := len(best) / 2; k >= 1; k /= 2 {
			for i := 0; i+k <= len(best); i += k {
				c := append([]uint32(nil), best...)
				ch := false
				for j := i; j < i+k; j++ {
					if c[j] != 0 {
						c[j], ch = 0, true
					}
				}
				if ch {
					try(c)
				}
			}
			if time.Now().After(end) {
				break
			}
		}
		// lower single values
		for i := 0; i < len(best); i++ {
			if i < len(best) && best[i] > 0 {
				for _, v := range []uint32{0, 1, best[i] / 2, best[i] - 1} {
					if i < len(best) && v < best[i] {
						c := append([]uint32(nil), best...)
						c[i] = v
						if try(c) {
							break
						}
					}
				}
			}
		}
		if time.Now().After(end) || !less(best, before) {
			break
		}
	}
	return best
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
