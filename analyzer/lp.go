package main

// Exact linear arithmetic: is a conjunction of linear constraints (over
// monomials) infeasible over the rationals? Decided by phase 1 of the simplex
// method on the Farkas dual with overflow-checked 64-bit fractions; overflow
// makes the answer "don't know".

type rat struct{ n, d int64 } // d > 0

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mkRat(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	g := gcd64(n, d)
	n, d = n/g, d/g
	if d < 0 {
		n, d = -n, -d
	}
	return rat{n, d}
}

type ratOverflow struct{}

func rmul(a, b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		n, ok := mulOv(a.n, b.n)
		if !ok {
			panic(ratOverflow{})
		}
		return rat{n, 1}
	}
	g1, g2 := gcd64(a.n, b.d), gcd64(b.n, a.d)
	n, ok1 := mulOv(a.n/g1, b.n/g2)
	d, ok2 := mulOv(a.d/g2, b.d/g1)
	if !ok1 || !ok2 {
		panic(ratOverflow{})
	}
	return rat{n, d}
}

func rdiv(a, b rat) rat {
	if b.n < 0 {
		return rmul(a, rat{-b.d, -b.n})
	}
	return rmul(a, rat{b.d, b.n})
}

func rsub(a, b rat) rat {
	if b.n == 0 {
		return a
	}
	if a.d == 1 && b.d == 1 {
		n, ok := addOv(a.n, -b.n)
		if !ok {
			panic(ratOverflow{})
		}
		return rat{n, 1}
	}
	x, ok1 := mulOv(a.n, b.d)
	y, ok2 := mulOv(b.n, a.d)
	d, ok3 := mulOv(a.d, b.d)
	if !ok1 || !ok2 || !ok3 {
		panic(ratOverflow{})
	}
	n, ok := addOv(x, -y)
	if !ok {
		panic(ratOverflow{})
	}
	return mkRat(n, d)
}

// infeasible reports whether {c >= 0 | c in cons} has no rational solution.
func infeasible(cons []*Poly) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ratOverflow); !ok {
				panic(r)
			}
			res = false
		}
	}()
	// Farkas: exists lambda >= 0 with sum lambda_i * coef_i = 0 and sum lambda_i * c_i = -1.
	rows := map[*mono]int{}
	for _, c := range cons {
		for _, t := range c.t {
			if _, ok := rows[t.m]; !ok {
				rows[t.m] = len(rows)
			}
		}
	}
	m, n := len(rows)+1, len(cons)
	if m > 80 || n > 260 {
		return false
	}
	// tableau with artificial variables as the starting basis (not stored)
	a := make([][]rat, m)
	for i := range a {
		a[i] = make([]rat, n+1)
		for j := range a[i] {
			a[i][j].d = 1
		}
	}
	last := m - 1
	for j, c := range cons {
		for _, t := range c.t {
			a[rows[t.m]][j] = rat{t.c, 1}
		}
		a[last][j] = rat{-c.c, 1}
	}
	a[last][n] = rat{1, 1} // sum lambda_i * (-c_i) = 1
	// objective: minimise the sum of artificials = sum of rows; reduced cost of
	// column j is -sum_i a[i][j].
	z := make([]rat, n+1)
	for j := 0; j <= n; j++ {
		s := rat{0, 1}
		for i := 0; i < m; i++ {
			s = rsub(s, rat{-a[i][j].n, a[i][j].d})
		}
		z[j] = s
	}
	basis := make([]int, m)
	for i := range basis {
		basis[i] = -1
	}
	for it := 0; it < 400; it++ {
		if z[n].n == 0 {
			return true
		}
		// entering column: Bland after a while, largest coefficient first
		col := -1
		for j := 0; j < n; j++ {
			if z[j].n > 0 {
				if col < 0 {
					col = j
					if it > 60 {
						break
					}
				} else if float64(z[j].n)/float64(z[j].d) > float64(z[col].n)/float64(z[col].d) {
					col = j
				}
			}
		}
		if col < 0 {
			return false
		}
		row := -1
		var best rat
		for i := 0; i < m; i++ {
			if a[i][col].n > 0 {
				q := rdiv(a[i][n], a[i][col])
				if row < 0 || rsub(q, best).n < 0 || (rsub(q, best).n == 0 && basis[i] < basis[row]) {
					row, best = i, q
				}
			}
		}
		if row < 0 {
			return false // unbounded cannot happen in phase 1
		}
		pv := a[row][col]
		for j := 0; j <= n; j++ {
			if a[row][j].n != 0 {
				a[row][j] = rdiv(a[row][j], pv)
			}
		}
		for i := 0; i < m; i++ {
			if i == row || a[i][col].n == 0 {
				continue
			}
			f := a[i][col]
			for j := 0; j <= n; j++ {
				if a[row][j].n != 0 {
					a[i][j] = rsub(a[i][j], rmul(f, a[row][j]))
				}
			}
		}
		f := z[col]
		for j := 0; j <= n; j++ {
			if a[row][j].n != 0 {
				z[j] = rsub(z[j], rmul(f, a[row][j]))
			}
		}
		basis[row] = col
	}
	return false
}
