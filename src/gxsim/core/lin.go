package core

// LinOp is one operation of a recorded history, stamped with the simulator's
// event sequence numbers.
type LinOp struct {
	Task    int
	Call    int64
	Ret     int64
	Name    string
	In      any
	Out     any
	Pending bool // never returned: may or may not have taken effect
}

// CheckLin looks for a linearization of ops. step returns whether the
// operation with that output is possible in the state, and the next state;
// for a pending operation out is nil. States must be comparable strings of the
// model. It gives up (unknown) after maxNodes search nodes.
func CheckLin(init string, ops []LinOp, step func(state string, op *LinOp) (bool, string), maxNodes int) (ok, unknown bool) {
	n := len(ops)
	if n > 62 {
		if n > 250 {
			return true, true
		}
		return checkLin[[4]uint64](init, ops, step, maxNodes)
	}
	return checkLin[[1]uint64](init, ops, step, maxNodes)
}

func checkLin[M [1]uint64 | [4]uint64](init string, ops []LinOp, step func(state string, op *LinOp) (bool, string), maxNodes int) (ok, unknown bool) {
	type key struct {
		mask  M
		state string
	}
	seen := map[key]bool{}
	must := 0 // operations that returned
	for i := range ops {
		if !ops[i].Pending {
			must++
		}
	}
	nodes := 0
	var dfs func(mask M, placed int, state string) bool
	dfs = func(mask M, placed int, state string) bool {
		if placed == must {
			return true
		}
		k := key{mask, state}
		if seen[k] {
			return false
		}
		seen[k] = true
		nodes++
		if nodes > maxNodes {
			unknown = true
			return true
		}
		// earliest return among the operations not yet placed
		minRet := int64(1) << 62
		for i := range ops {
			if mask[i>>6]&(1<<uint(i&63)) == 0 && !ops[i].Pending && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := range ops {
			if mask[i>>6]&(1<<uint(i&63)) != 0 || ops[i].Call > minRet {
				continue
			}
			if good, ns := step(state, &ops[i]); good {
				m, p := mask, placed
				m[i>>6] |= 1 << uint(i&63)
				if !ops[i].Pending {
					p++
				}
				if dfs(m, p, ns) {
					return true
				}
			}
		}
		return false
	}
	var none M
	r := dfs(none, 0, init)
	return r, unknown
}
