package h

import "vpharness/vp"

// Generated lists of the current grammar.
func current(k int) *gen {
	return &gen{k: k, names: true, gaps: true, locals: true, domains: true, forms: true}
}

func C24_One() {
	k := 2
	if vp.Deep() {
		k = 3
	}
	generated(current(k), 1)
}

func C24_Two() { generated(current(2), 2) }

func C24_More() {
	k := 1
	if vp.Deep() {
		k = 2
	}
	generated(current(k), 3+vp.Choice("elements", 2))
}
