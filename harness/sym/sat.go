package sym

// decide decides the clauses under fixed values, for native runs: a plain
// solver that learns from conflicts.
func decide(cs [][]int, fixed map[int]bool) (bool, map[int]bool) {
	num := map[int]int{} // variables in use
	names := []int{}
	lit := func(l int) int { // 2*i or 2*i+1
		a, neg := l, 0
		if l < 0 {
			a, neg = -l, 1
		}
		i, ok := num[a]
		if !ok {
			i = len(names)
			num[a] = i
			names = append(names, a)
		}
		return 2*i + neg
	}
	db := [][]int{}
	for _, c := range cs {
		in := map[int]bool{}
		d := []int{}
		taut := false
		for _, l := range c {
			x := lit(l)
			if in[x^1] {
				taut = true
			}
			if !in[x] {
				in[x] = true
				d = append(d, x)
			}
		}
		if !taut {
			db = append(db, d)
		}
	}
	for k, v := range fixed {
		x := lit(k)
		if !v {
			x ^= 1
		}
		db = append(db, []int{x})
	}
	n := len(names)
	val := make([]int8, 2*n) // 1 true, -1 false
	level, reason := make([]int, n), make([]int, n)
	act, phase := make([]float64, n), make([]bool, n)
	inc := 1.0
	watch := make([][]int, 2*n)
	var trail, marks []int
	head := 0
	set := func(x, why int) {
		val[x], val[x^1] = 1, -1
		level[x/2], reason[x/2] = len(marks), why
		trail = append(trail, x)
	}
	undo := func(to int) {
		at := marks[to]
		for _, x := range trail[at:] {
			val[x], val[x^1] = 0, 0
			phase[x/2] = x&1 == 0
		}
		trail, marks, head = trail[:at], marks[:to], at
	}
	propagate := func() int {
		for head < len(trail) {
			f := trail[head] ^ 1
			head++
			ws := watch[f]
			keep := ws[:0]
			for k, i := range ws {
				c := db[i]
				if c[0] == f {
					c[0], c[1] = c[1], c[0]
				}
				if val[c[0]] == 1 {
					keep = append(keep, i)
					continue
				}
				moved := false
				for j := 2; j < len(c); j++ {
					if val[c[j]] >= 0 {
						c[1], c[j] = c[j], c[1]
						watch[c[1]] = append(watch[c[1]], i)
						moved = true
						break
					}
				}
				if moved {
					continue
				}
				keep = append(keep, i)
				if val[c[0]] < 0 {
					keep = append(keep, ws[k+1:]...)
					watch[f] = keep
					return i
				}
				set(c[0], i)
			}
			watch[f] = keep
		}
		return -1
	}
	for i, c := range db {
		switch len(c) {
		case 0:
			return false, nil
		case 1:
			if val[c[0]] < 0 {
				return false, nil
			}
			if val[c[0]] == 0 {
				set(c[0], i)
			}
		default:
			watch[c[0]] = append(watch[c[0]], i)
			watch[c[1]] = append(watch[c[1]], i)
		}
	}
	for {
		bad := propagate()
		if bad < 0 {
			best := -1
			for i := 0; i < n; i++ {
				if val[2*i] == 0 && (best < 0 || act[i] > act[best]) {
					best = i
				}
			}
			if best < 0 {
				out := map[int]bool{}
				for i, a := range names {
					out[a] = val[2*i] == 1
				}
				return true, out
			}
			marks = append(marks, len(trail))
			x := 2*best + 1
			if phase[best] {
				x = 2 * best
			}
			set(x, -1)
			continue
		}
		if len(marks) == 0 {
			return false, nil
		}
		// The first point all implications of the last level pass through.
		seen := make([]bool, n)
		learnt := []int{-1}
		open, at, back := 0, len(trail)-1, 0
		x := -1
		for why := bad; ; {
			for _, y := range db[why] {
				v := y / 2
				if y == x || seen[v] || level[v] == 0 {
					continue
				}
				seen[v] = true
				act[v] += inc
				if level[v] == len(marks) {
					open++
				} else {
					learnt = append(learnt, y)
					if level[v] > back {
						back = level[v]
					}
				}
			}
			for !seen[trail[at]/2] {
				at--
			}
			x = trail[at]
			at--
			open--
			if open == 0 {
				break
			}
			why = reason[x/2]
		}
		learnt[0] = x ^ 1
		if inc *= 1.05; inc > 1e100 {
			for i := range act {
				act[i] *= 1e-100
			}
			inc *= 1e-100
		}
		undo(back)
		db = append(db, learnt)
		if len(learnt) > 1 {
			for j := 2; j < len(learnt); j++ {
				if level[learnt[j]/2] > level[learnt[1]/2] {
					learnt[1], learnt[j] = learnt[j], learnt[1]
				}
			}
			watch[learnt[0]] = append(watch[learnt[0]], len(db)-1)
			watch[learnt[1]] = append(watch[learnt[1]], len(db)-1)
		}
		set(learnt[0], len(db)-1)
	}
}
