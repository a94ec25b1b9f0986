package main

// alphaEq: equal up to the names of bound variables
func alphaEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.sort != b.sort || a.size != b.size {
		return false
	}
	budget := 20000
	return alphaRec(a, b, map[*Term]*Term{}, map[*Term]*Term{}, &budget)
}

func alphaRec(a, b *Term, m, w map[*Term]*Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if x, ok := m[a]; ok {
		return x == b
	}
	if _, ok := w[b]; ok {
		return false
	}
	if a == b && !a.hasB {
		return true
	}
	if a.op != b.op || a.sort != b.sort || a.name != b.name || a.ival != b.ival || len(a.args) != len(b.args) || len(a.bnd) != len(b.bnd) {
		return false
	}
	if a.op == OForall || a.op == OExists {
		for i := range a.bnd {
			if a.bnd[i].sort != b.bnd[i].sort {
				return false
			}
			if _, ok := m[a.bnd[i]]; ok {
				return false
			}
			m[a.bnd[i]] = b.bnd[i]
			w[b.bnd[i]] = a.bnd[i]
		}
		r := alphaRec(a.args[0], b.args[0], m, w, budget)
		for i := range a.bnd {
			delete(m, a.bnd[i])
			delete(w, b.bnd[i])
		}
		return r
	}
	if len(a.args) == 0 {
		return a == b
	}
	if a.op == OEq {
		if alphaRec(a.args[0], b.args[0], m, w, budget) && alphaRec(a.args[1], b.args[1], m, w, budget) {
			return true
		}
		return alphaRec(a.args[0], b.args[1], m, w, budget) && alphaRec(a.args[1], b.args[0], m, w, budget)
	}
	for i := range a.args {
		if !alphaRec(a.args[i], b.args[i], m, w, budget) {
			return false
		}
	}
	return true
}
