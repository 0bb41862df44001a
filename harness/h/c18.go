package h

import "vpharness/vp"

// C18: the optional parts of a date change nothing else.

const nGaps = 12

// gaps are the places that may hold comments and folding white space; fws
// tells that the place holds white space besides, tight that it may be empty.
//
//	0 dow 1 , 2 day 3 month 4 year 5 hour 6 : 7 minute 8 : 9 second 10 zone 11
type gapText [nGaps]string

// spell writes a date-time with the text g in its gaps.
func spell(g gapText, dow, day, mon, year, h, m, sec, zone string) string {
	s := g[0]
	if dow != "" {
		s += dow + g[1] + "," + g[2]
	}
	s += day + g[3] + mon + g[4] + year + g[5] + h + g[6] + ":" + g[7] + m
	if sec != "" {
		s += g[8] + ":" + g[9] + sec
	}
	return s + g[10] + zone + g[11]
}

// plainGaps is one space at each place that needs one.
func plainGaps(sp string) gapText {
	return gapText{2: sp, 3: sp, 4: sp, 5: sp, 10: sp}
}

// one piece of comments and white space in one gap
func C18_Gaps() {
	vp.Options("cut")
	g := plainGaps(" ")
	k := vp.Choice("gap", nGaps)
	short := vp.Choice("shortyear", 2) == 1
	kinds := nCfws
	if k == 4 && !short {
		kinds = 4 // white space only
	}
	w := cfws("w", vp.Choice("kind", kinds))
	switch {
	case k == 5 && !short:
		g[k] += w
	case k == 10:
		g[k] = w + g[k]
	default:
		g[k] = w
	}
	year := "1997"
	if short {
		vp.SetClock(1600000000)
		year = "97"
	}
	ms, mm := num("n", 2, 0, 59)
	expectTime(spell(g, "Fri", "21", "Nov", year, "09", ms, "06", "-0600"), instant(1997, 11, 21, 9, mm, 6, -21600), -21600)
}

// the same with other optional parts left out
func C18_Short() {
	vp.Options("cut")
	g := plainGaps(" ")
	k := []int{0, 3, 5, 6, 7, 10, 11}[vp.Choice("gap", 7)]
	w := cfws("w", vp.Choice("kind", nCfws))
	if k == 5 {
		g[k] += w
	} else {
		g[k] = w
	}
	dow := pick("dow", "", "Mon")
	zone := pick("zone", "", "EST")
	off := 0
	if zone != "" {
		off = -18000
	}
	d := vp.Int("d", 1, 9)
	expectTime(spell(g, dow, dec(d, 1), "Feb", "2004", "23", "45", "", zone), instant(2004, 2, d, 23, 45, 0, off), off)
}

// every gap at once
func C18_AllGaps() {
	vp.Options("cut")
	g := gapText{}
	white := vp.Chars("p", 1, wsp)
	c := vp.Chars("c", 1, ctextA)
	w := pick("kind", white+white, "\r\n"+white, white+"\r\n"+white, "("+c+")", white+"("+c+")"+white, "("+c+"(\\)))", "(\r\n"+white+")", "() \r\n ()")
	for i := range g {
		g[i] = w
	}
	g[4] = white
	g[5] = white + g[5]
	g[10] += white
	hs, hh := num("h", 2, 0, 23)
	expectTime(spell(g, pick("dow", "", "Sun"), "1", "Mar", "1900", hs, "00", "59", "+0545"), instant(1900, 3, 1, hh, 0, 59, 20700), 20700)
}

// recorded finding: no comment may touch a four-digit year
func C18_YearComment() {
	vp.Options("cut")
	g := plainGaps(" ")
	w := cfws("w", 4+vp.Choice("kind", nCfws-4))
	vp.Known("year-comment", true)
	switch vp.Choice("where", 3) {
	case 0:
		g[4] = w
	case 1:
		g[4] = " " + w + " "
	case 2:
		g[5] = w
	}
	t, err := parseDate(spell(g, "", "21", "Nov", "1997", "09", "55", "06", "-0600"))
	vp.Check(err == nil, "a comment is accepted next to the year")
	if err == nil {
		vp.Check(int(t.Unix()) == instant(1997, 11, 21, 9, 55, 6, -21600), "the instant is right")
	}
}

// the day of the week, right or wrong, in any letter case
func C18_DayOfWeek() {
	vp.Options("cut")
	pre := pick("pre", "", " ", "\r\n\t", "(c)")
	mid := pick("mid", "", " ", "(c)")
	post := pick("post", "", " ", "\t", "  ", "\r\n ", "(c)")
	d := vp.Int("d", 1, 31)
	expectTime(pre+anycase("w", dayNames[vp.Choice("dow", 7)])+mid+","+post+dec(d, 2)+" Dec 2020 00:00:00 +0000", instant(2020, 12, d, 0, 0, 0, 0), 0)
}

// without seconds, with a leading zero or none, with one digit for the hour
func C18_Digits() {
	vp.Options("cut")
	d, h := vp.Int("d", 1, 9), vp.Int("h", 0, 9)
	ds := pick("zerod", "", "0") + dec(d, 1)
	hs := pick("zeroh", "", "0") + dec(h, 1)
	sec, ss := "", 0
	if vp.Choice("sec", 2) == 1 {
		sec, ss = num("s", 2, 0, 59)
		sec = ":" + sec
	}
	off := 0
	zone := pick("zone", "", " +0000", " GMT", " -0130")
	if zone == " -0130" {
		off = -5400
	}
	m := 1 + vp.Choice("m", 12)
	expectTime(pick("dow", "", "Tue, ")+ds+" "+monthNames[m-1]+" 2019 "+hs+":07"+sec+zone, instant(2019, m, d, h, 7, ss, off), off)
}
