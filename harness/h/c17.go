package h

import "vpharness/vp"

// C17: malformed dates are refused.

func onlyLooseDate(s []rune) {
	t, err := parseDate(string(s))
	if err != nil {
		vp.Check(t.IsZero(), "a refused text yields no time")
		return
	}
	_, ok := refDate(s, true)
	vp.Check(ok, "an accepted text is a date-time")
}

// the parts of a date-time, any of which may be replaced
var dateForms = [][]string{
	{"Fri", ", ", "21", " ", "Nov", " ", "1997", " ", "09", ":", "55", ":", "06", " ", "-0600", ""},
	{"1", " ", "jan", " ", "2000", " ", "23", ":", "59", " ", "GMT", ""},
}

// inDate is a date-time with symbolic characters before a part or instead of
// it.
func inDate(n int) []rune {
	x := runes("x", 1+vp.Choice("n", n), ascii)
	parts := dateForms[vp.Choice("form", 2)]
	at := vp.Choice("at", len(parts))
	instead := vp.Choice("instead", 2) == 1
	var s []rune
	for i, p := range parts {
		if i == at {
			s = append(s, x...)
			if instead {
				continue
			}
		}
		s = append(s, []rune(p)...)
	}
	return s
}

func C17_Text() {
	vp.Options("cut")
	n := 5
	if vp.Deep() {
		n = 7
	}
	onlyLooseDate(runes("c", n, ascii))
}

func C17_Hole() {
	vp.Options("cut")
	n := 4
	if vp.Deep() {
		n = 5
	}
	onlyLooseDate(inDate(n))
}

// two places at once
func C17_TwoHoles() {
	vp.Options("cut")
	parts := dateForms[vp.Choice("form", 2)]
	a := vp.Choice("a", len(parts))
	b := a + 1 + vp.Choice("b", 4)
	if b >= len(parts) {
		return
	}
	var s []rune
	for i, p := range parts {
		switch i {
		case a:
			s = append(s, runes("x", 1, ascii)...)
		case b:
			s = append(s, runes("y", 1, ascii)...)
			if vp.Choice("insteadb", 2) == 1 {
				continue
			}
		}
		s = append(s, []rune(p)...)
	}
	onlyLooseDate(s)
}

func rejectDate(s string) {
	t, err := parseDate(s)
	vp.Check(err != nil, "the malformed date is refused")
	vp.Check(t.IsZero(), "a refused text yields no time")
}

// any three letters are a month, or a day, or a zone, or the text is refused
func C17_Names() {
	vp.Options("cut")
	x := runes("x", 3, letters)
	p := &ref{x, false}
	is := func(names []string) bool {
		return p.name(0, names, func(j, _ int) bool { return j == 3 })
	}
	switch vp.Choice("which", 3) {
	case 0:
		_, err := parseDate("21 " + string(x) + " 1997 09:55:06 +0000")
		vp.Check((err == nil) == is(monthNames), "month names and nothing else are accepted")
	case 1:
		_, err := parseDate(string(x) + ", 21 Nov 1997 09:55:06 +0000")
		vp.Check((err == nil) == is(dayNames), "day names and nothing else are accepted")
	case 2:
		_, err := parseDate("21 Nov 1997 09:55:06 " + string(x))
		vp.Check((err == nil) == is(zoneNames), "zone names and nothing else are accepted")
	}
}

// wrong numbers of digits, and fields missing, added or in another order
func C17_Families() {
	vp.Options("cut")
	d := func(n int) string { return vp.Chars("d", n, digits) }
	switch vp.Choice("fam", 40) {
	case 0:
		rejectDate(d(3) + " Nov 1997 09:55:06 +0000")
	case 1:
		rejectDate("21 Nov " + d(1) + " 09:55:06 +0000")
	case 2:
		rejectDate("21 Nov " + d(3) + " 09:55:06 +0000")
	case 3:
		rejectDate("21 Nov 1997 " + d(3) + ":55:06 +0000")
	case 4:
		rejectDate("21 Nov 1997 09:" + d(1) + ":06 +0000")
	case 5:
		rejectDate("21 Nov 1997 09:" + d(3) + ":06 +0000")
	case 6:
		rejectDate("21 Nov 1997 09:55:" + d(1) + " +0000")
	case 7:
		rejectDate("21 Nov 1997 09:55:" + d(3) + " +0000")
	case 8:
		rejectDate("21 Nov 1997 09:55:06 +" + d(3))
	case 9:
		rejectDate("21 Nov 1997 09:55:06 -" + d(5))
	case 10:
		rejectDate("21 Nov 1997 09:55:06 " + d(2))
	case 11:
		rejectDate("21 Nov 1997 09:55:06." + d(2) + " +0000")
	case 12:
		rejectDate("21 Nov 1997 " + d(2) + " +0000")
	case 13:
		rejectDate("21 Nov " + d(2) + ":55:06 +0000")
	case 14:
		rejectDate("Nov 1997 " + d(2) + ":55:06 +0000")
	case 15:
		rejectDate("21 1997 " + d(2) + ":55:06 +0000")
	case 16:
		rejectDate("Nov " + d(2) + " 1997 09:55:06 +0000")
	case 17:
		rejectDate("1997 Nov " + d(2) + " 09:55:06 +0000")
	case 18:
		rejectDate("1997-11-" + d(2) + " 09:55:06 +0000")
	case 19:
		rejectDate("1997-11-" + d(2) + "T09:55:06Z")
	case 20:
		rejectDate("Fri Nov " + d(2) + " 09:55:06 1997")
	case 21:
		rejectDate("Friday, " + d(2) + " Nov 1997 09:55:06 +0000")
	case 22:
		rejectDate("Fri " + d(2) + " Nov 1997 09:55:06 +0000")
	case 23:
		rejectDate(d(2) + " November 1997 09:55:06 +0000")
	case 24:
		rejectDate(d(2) + " 11 1997 09:55:06 +0000")
	case 25:
		rejectDate(d(2) + " Nov 1997 09:55:06 +0000 +0000")
	case 26:
		rejectDate(d(2) + " Nov 1997 09:55:06 EST EDT")
	case 27:
		rejectDate(d(2) + " Nov 1997 09:55:06 +0000 EST")
	case 28:
		rejectDate(d(2) + " Nov 1997 09:55:06 +EST")
	case 29:
		rejectDate(d(2) + " Nov 1997 09:55:06 +-0000")
	case 30:
		rejectDate(d(2) + " Nov 1997 09:55:06 +00:00")
	case 31:
		rejectDate(d(2) + " Nov 1997 09:55:06:07 +0000")
	case 32:
		rejectDate(d(2) + " Nov 1997 09.55.06 +0000")
	case 33:
		rejectDate("-" + d(1) + " Nov 1997 09:55:06 +0000")
	case 34:
		rejectDate(d(2) + " Nov -997 09:55:06 +0000")
	case 35:
		rejectDate(d(2) + " Nov 1997 -9:55:06 +0000")
	case 36:
		rejectDate(d(2) + " Nov 1997 09:55:06 am")
	case 37:
		rejectDate("Fri, Sat, " + d(2) + " Nov 1997 09:55:06 +0000")
	case 38:
		rejectDate(d(2) + " Nov 1997 09:55:06 +0000 (c")
	case 39:
		rejectDate(", " + d(2) + " Nov 1997 09:55:06 +0000")
	}
}

// text after the end
func C17_After() {
	vp.Options("cut")
	// anything that is no offset and does not begin a zone name with U
	x := vp.Chars("x", 1+vp.Choice("n", 2), append([]rune{'!', '\'', '*', 'T', 'V', 't', 'v', '~'}, nonASCII...))
	rejectDate("21 Nov 1997 09:55:06" + pick("z", "", " +0000", " EST") + pick("c", " ", " (c) ", "(c)", ", ") + x + pick("post", "", " ", " (c)"))
}

// one edit at any place of a well-formed text
func C17_Edit() {
	vp.Options("cut")
	n := 2
	if vp.Deep() {
		n = 3
	}
	vp.SetClock(1600000000)
	onlyLooseDate(edited(dateTexts, n))
}
