package h

import "vpharness/vp"

// A generator of date-times with their meaning, in the manner of gen: at most
// k of the parts depart from their plain forms.

// genDate is a date-time, its instant and its offset.
func genDate(k int) (string, int, int) {
	g := &gen{k: k, gaps: true}
	white := func(id string) string { // next to a four-digit year
		switch g.vary(true, "y"+id, 4) {
		case 1:
			return vp.Chars(id, 2, wsp)
		case 2:
			return "\r\n" + vp.Chars(id, 1, wsp)
		case 3:
			return "\t\r\n" + vp.Chars(id, 2, wsp)
		}
		return " "
	}
	s := g.gap("0", "")
	// the day of the week
	if c := g.vary(true, "dow", 8); c != 7 {
		s += anycase("w", dayNames[(4+c)%7]) + g.gap("1", "") + "," + g.gap("2", " ")
	}
	// the day of the month
	d := 0
	switch g.vary(true, "day", 4) {
	case 0:
		d = vp.Int("d", 10, 28)
		s += dec(d, 2)
	case 1:
		d = vp.Int("d", 1, 9)
		s += dec(d, 1)
	case 2:
		d = vp.Int("d", 1, 9)
		s += dec(d, 2)
	case 3:
		d = vp.Int("d", 1, 9)
		s += dec(d, 1)
		g.obs = true // nothing may stand between day and month
	}
	if g.obs {
		g.obs = false
	} else {
		s += g.gap("3", " ")
	}
	m := 1 + (10+g.vary(true, "month", 12))%12
	s += anycase("mon", monthNames[m-1])
	// the year
	y := 1997
	switch g.vary(true, "year", 5) {
	case 0:
		s += white("a") + "1997" + white("b")
	case 1:
		y = 2004
		s += white("a") + "2004" + white("b")
	case 2:
		y = 1
		s += white("a") + "0001" + white("b")
	case 3: // two digits
		y = 1921 + 99*vp.Choice("century", 2)
		vp.SetClock(1600000000)
		s += g.gap("4", " ") + dec(y%100, 2) + g.gap("5", " ")
	case 4:
		y = 9998
		s += white("a") + "9998" + white("b")
	}
	// the time
	hh, mm, ss, off := 0, 0, 0, 0
	sec := g.vary(true, "sec", 3)
	if sec == 2 { // its carry is C13's
		hh, mm = 19, 28
		s += "19"
	} else if g.vary(true, "hour", 2) == 0 {
		hh = vp.Int("h", 10, 23)
		s += dec(hh, 2)
	} else {
		hh = vp.Int("h", 0, 9)
		s += dec(hh, 1)
	}
	if sec != 2 {
		mm = vp.Int("n", 0, 59)
	}
	s += g.gap("6", "") + ":" + g.gap("7", "") + dec(mm, 2)
	switch sec {
	case 0:
		ss = vp.Int("s", 0, 59)
		s += g.gap("8", "") + ":" + g.gap("9", "") + dec(ss, 2)
	case 2:
		ss = 60
		s += ":60"
	}
	// the zone
	switch c := g.vary(true, "zone", 4+len(zoneNames)); c {
	case 0, 1, 2:
		h, n := 5, 30
		off = h*3600 + n*60
		s += g.gap("10", "") + " " + []string{"+", "-", ""}[c] + dec(h, 2) + dec(n, 2)
		if c == 1 {
			off = -off
		}
	case 3:
	default:
		off = zoneHours[c-4] * 3600
		s += g.gap("10", " ") + anycase("z", zoneNames[c-4])
	}
	s += g.gap("11", "")
	return s, instant(y, m, d, hh, mm, ss, off), off
}

func C18_Generated() {
	vp.Options("cut")
	k := 2
	if vp.Deep() {
		k = 3
	}
	s, unix, off := genDate(k)
	expectTime(s, unix, off)
}
