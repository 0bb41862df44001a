package h

import "vpharness/vp"

// C15: numeric offsets shift the instant by exactly the stated time.

// offset is a symbolic zone of the sign k and four digits, and its seconds.
func offset(id string, k int) (string, int) {
	v := vp.Int("off"+id, 0, 5999) // hours 00-99, minutes 00-59
	off := v * 60
	if k == 1 {
		off = -off
	}
	return []string{"+", "-", ""}[k] + dec(v/60, 2) + dec(v%60, 2), off
}

// every offset, in every month
func C15_All() {
	vp.Options("cut")
	z, off := offset("", vp.Choice("sgn", 3))
	m := 1 + vp.Choice("m", 12)
	expectTime("15 "+monthNames[m-1]+" 2024 12:00:00 "+z, instant(2024, m, 15, 12, 0, 0, off), off)
}

// every offset at every hour
func C15_Hours() {
	vp.Options("cut")
	z, off := offset("", vp.Choice("sgn", 3))
	hs, hh := num("h", 2, 0, 23)
	expectTime("31 Dec 1999 "+hs+":00:00 "+z, instant(1999, 12, 31, hh, 0, 0, off), off)
}

// without seconds, with the other parts of a date around it
func C15_Forms() {
	vp.Options("cut")
	k := vp.Choice("sgn", 3)
	z, off := offset("", k)
	pre, sp, post := "", " ", ""
	switch vp.Choice("where", 3) {
	case 0:
		pre = pick("pre", "Mon, ", "(c) Sun , ", " ")
	case 1:
		sp = pick("sp", "\t", "  ", "\r\n ", " (c) ")
	case 2:
		post = pick("post", " ", " (c)", "(Europe)")
	}
	expectTime(pre+"1 Jan 2001 10:00"+pick("sec", "", ":00")+sp+z+post, instant(2001, 1, 1, 10, 0, 0, off), off)
}

// the same local time at two offsets
func C15_Difference() {
	vp.Options("cut")
	a, x := offset("a", vp.Choice("sgna", 3))
	b, y := offset("b", vp.Choice("sgnb", 3))
	t, err := parseDate("1 Jan 2000 00:00:00 " + a)
	u, err2 := parseDate("1 Jan 2000 00:00:00 " + b)
	vp.Check(err == nil && err2 == nil, "both dates are accepted")
	if err == nil && err2 == nil {
		vp.Check(int(t.Unix())-int(u.Unix()) == y-x, "the instants differ by the offsets")
	}
}
