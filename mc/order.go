package main

// Map-iteration-order control. The check binary is built with an overlay of
// internal/runtime/maps (see build.sh) in which the random iteration offset is
// replaced by a permutation chosen here, so that the order in which Go maps
// are visited is an input of the exploration instead of a coin toss.

import (
	_ "unsafe"
)

//go:linkname verifOn internal/runtime/maps.VerifOn
var verifOn uint32

//go:linkname verifDefault internal/runtime/maps.VerifDefault
var verifDefault uint64

//go:linkname verifSeedV internal/runtime/maps.VerifSeed
var verifSeedV uint64

//go:linkname verifOther internal/runtime/maps.VerifOther
var verifOther uint64

//go:linkname verifBit internal/runtime/maps.VerifBit
var verifBit uint32

//go:linkname verifReset internal/runtime/maps.VerifReset
var verifReset func()

// Perm encodes the order in which the 8 slots of a small map are visited, three bits per position.
type Perm uint64

func mkPerm(p ...int) (r Perm) {
	for i, x := range p {
		r |= Perm(x) << (3 * i)
	}
	return
}

var permIdentity = mkPerm(0, 1, 2, 3, 4, 5, 6, 7)
var permReverse = mkPerm(7, 6, 5, 4, 3, 2, 1, 0)

// quickPerms: orders under which every pair of the first slots is seen in both orders and every one of
// the first three slots is seen first.
var quickPerms = []Perm{
	permReverse,
	mkPerm(1, 2, 0, 3, 4, 5, 6, 7),
	alternate(0, permReverse),
	alternate(1, permReverse),
}

// plainOrders: for enumerations that are wide already.
var plainOrders = []Perm{permIdentity, permReverse, alternate(0, permReverse), alternate(1, permReverse)}

// allPerms: every permutation of the first four slots (others ascending), plus all rotations and the reverse.
func allPerms() []Perm {
	seen := map[Perm]bool{permIdentity: true}
	var out []Perm
	add := func(p Perm) {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	add(permReverse)
	for r := 1; r < 8; r++ {
		var s [8]int
		for i := range s {
			s[i] = (i + r) % 8
		}
		add(mkPerm(s[:]...))
	}
	for _, q := range permutations(4) {
		add(mkPerm(append(append([]int{}, q...), 4, 5, 6, 7)...))
	}
	for j := 0; j < 6; j++ {
		add(alternate(j, permReverse))
		add(alternate(j, mkPerm(1, 2, 0, 3, 4, 5, 6, 7)))
	}
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// alternate is an order in which two permutations take turns: the k-th iteration since the last beginOrder uses q
// when bit j of k is set, and p otherwise. Any two of the first 2^n iterations differ for some j < n, so code that
// relies on two iterations of a map agreeing is met by n orders, where one order for all iterations never meets it.
func alternate(j int, q Perm) Perm { return 1<<62 | Perm(j)<<56 | q }

// setGlobalOrder makes every map iteration in the process use the given order.
func setGlobalOrder(p Perm) {
	if p>>62&1 == 0 {
		verifDefault = uint64(p)
		verifOn = 2
		return
	}
	verifDefault = uint64(permIdentity)
	verifOther = uint64(p & (1<<24 - 1))
	verifBit = uint32(p >> 56 & 31)
	verifOn = 3
}

// beginOrder starts the turns of this goroutine anew, so that what follows does not depend on what ran before.
func beginOrder() { verifReset() }
