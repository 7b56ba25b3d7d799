package sat

import (
	"math/rand"
	"testing"
)

func TestRandom(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	ns, nu := 0, 0
	for it := 0; it < 20000; it++ {
		n := 1 + rng.Intn(9)
		m := rng.Intn(5 * n)
		cls := [][]int{}
		for i := 0; i < m; i++ {
			k := 1 + rng.Intn(4)
			c := []int{}
			for j := 0; j < k; j++ {
				v := 1 + rng.Intn(n)
				if rng.Intn(2) == 0 {
					v = -v
				}
				c = append(c, v)
			}
			cls = append(cls, c)
		}
		s := New(n, rng)
		s.RandPol = it%2 == 0
		for _, c := range cls {
			s.Add(c)
		}
		for q := 0; q < 4; q++ {
			as := []int{}
			for v := 1; v <= n; v++ {
				switch rng.Intn(4) {
				case 0:
					as = append(as, v)
				case 1:
					as = append(as, -v)
				}
			}
			want := false
			for x := 0; x < 1<<n && !want; x++ {
				ok := true
				ev := func(l int) bool {
					if l > 0 {
						return x>>(l-1)&1 == 1
					}
					return x>>(-l-1)&1 == 0
				}
				for _, a := range as {
					ok = ok && ev(a)
				}
				for _, c := range cls {
					b := false
					for _, l := range c {
						b = b || ev(l)
					}
					ok = ok && b
				}
				want = ok
			}
			if got := s.Solve(as...); got != want {
				t.Fatalf("got %v want %v: %v under %v", got, want, cls, as)
			}
			nv, ok := Naive(n, cls, as, 1<<20)
			if !ok || nv != want {
				t.Fatalf("naive got %v want %v", nv, want)
			}
			if want {
				ns++
			} else {
				nu++
			}
		}
	}
	t.Logf("%d sat %d unsat", ns, nu)
}
