package h

import "vpharness/vp"

// C25: every RFC 5322 date-time is read as RFC 5322 says.

func strictDate(s []rune) {
	t, err := parseDate(string(s))
	st, ok := refDate(s, false)
	if !ok || !st.valid() {
		return
	}
	vp.Check(err == nil, "the date is accepted")
	if err != nil {
		return
	}
	vp.Check(int(t.Unix()) == instant(st.y, st.m, st.d, st.hh, st.mm, st.ss, st.off), "the instant is right")
	_, o := t.Zone()
	vp.Check(o == st.off, "the offset is right")
}

func C25_Hole() {
	vp.Options("cut")
	n := 4
	if vp.Deep() {
		n = 5
	}
	strictDate(inDate(n))
}

func C25_Text() {
	vp.Options("cut")
	n := 5
	if vp.Deep() {
		n = 6
	}
	// any text after a date and a minute
	strictDate(append([]rune("29 Feb 2004 12:34"), runes("x", vp.Choice("n", n+1), ascii)...))
}

// names and digits free at the same time
func C25_Fields() {
	vp.Options("cut")
	sp := func(name string) []rune { return runes(name, 1, []rune{'\t', '\t', ' ', ' '}) }
	var s []rune
	add := func(x []rune) { s = append(s, x...) }
	add(runes("w", 3, letters))
	add([]rune(","))
	add(sp("s0"))
	add(runes("d", 2, digits))
	add(sp("s1"))
	add([]rune(monthNames[vp.Choice("m", 12)]))
	add(sp("s2"))
	add([]rune("20"))
	add(runes("y", 1, digits))
	add([]rune("4"))
	add(sp("s3"))
	add([]rune("1"))
	add(runes("h", 1, digits))
	add([]rune(":45:56"))
	add(sp("s4"))
	add([]rune("+0100"))
	strictDate(s)
}

// one edit at any place of a well-formed text
func C25_Edit() {
	vp.Options("cut")
	n := 2
	if vp.Deep() {
		n = 3
	}
	vp.SetClock(1600000000)
	strictDate(edited(dateTexts, n))
}

// all fields of a date free together, the instant known without the reader
func C25_Spelled() { spelled() }

// every combination of the optional parts and forms of a date
func C25_Generated() {
	vp.Options("cut")
	s, unix, off := genDate(1)
	expectTime(s, unix, off)
}
