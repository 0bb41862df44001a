package h

import "vpharness/vp"

// C13: a date-time gives exactly the instant it states.

var monthNames = []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}

var monthLen = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// dec is the number in n decimal digits.
func dec(v, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s = string(rune('0'+v%10)) + s
		v /= 10
	}
	return s
}

// num is a symbolic number of lo to hi in n digits, and its value.
func num(name string, n, lo, hi int) (string, int) {
	v := vp.Int(name, lo, hi)
	return dec(v, n), v
}

// daysFrom1970 counts the days from 1970-01-01 to the date, by the rule of
// the leap years alone.
func daysFrom1970(y, m, d int) int {
	before := 0
	for i := 0; i < m-1; i++ {
		before += monthLen[i]
	}
	leap := vp.And(y%4 == 0, vp.Or(y%100 != 0, y%400 == 0))
	if m > 2 {
		before = vp.IteInt(leap, before+1, before)
	}
	// leap years from year 0 up to the year before y; year 0 is one
	p := y + 399 // that is, in [1,y+399] less the 97 of the first 400 years
	leaps := p/4 - p/100 + p/400 - 96
	return y*365 + leaps + before + d - 1 - 719528
}

// instant is the expected Unix time.
func instant(y, m, d, hh, mm, ss, off int) int {
	return daysFrom1970(y, m, d)*86400 + hh*3600 + mm*60 + ss - off
}

// expectTime states that s is the instant, seen at the offset.
func expectTime(s string, unix, off int) {
	t, err := parseDate(s)
	vp.Check(err == nil, "the date is accepted")
	if err != nil {
		return
	}
	vp.Check(int(t.Unix()) == unix, "the instant is right")
	_, o := t.Zone()
	vp.Check(o == off, "the offset is right")
	vp.Check(t.Nanosecond() == 0, "no fraction of a second")
}

// date is a symbolic valid date: the texts of its day and year, and their
// values.
func date(m int) (ds, ys string, d, y int) {
	if m == 2 && vp.Choice("leapday", 2) == 1 {
		q := vp.Int("q", 0, 2499)
		vp.Assume(vp.Or(q%25 != 0, q%100 == 0))
		return "29", dec(4*q, 4), 29, 4 * q
	}
	ys, y = num("y", 4, 0, 9999)
	if vp.Choice("daydigits", 2) == 1 {
		ds, d = num("d", 1, 1, 9)
	} else {
		ds, d = num("d", 2, 1, monthLen[m-1])
	}
	return
}

// all fields free
func C13_All() {
	vp.Options("cut")
	m := 1 + vp.Choice("m", 12)
	ds, ys, d, y := date(m)
	hs, hh := num("h", 2, 0, 23)
	ms, mm := num("n", 2, 0, 59)
	ss, sec := num("s", 2, 0, 59)
	expectTime(ds+" "+anycase("mon", monthNames[m-1])+" "+ys+" "+hs+":"+ms+":"+ss+" +0000", instant(y, m, d, hh, mm, sec, 0), 0)
}

// a leap second comes after the second before it
func C13_Leap() {
	vp.Options("cut")
	m := 1 + vp.Choice("m", 12)
	ds, ys, d, y := date(m)
	hs, hh := "23", 23
	ms, mm := "59", 59
	switch vp.Choice("turn", 3) {
	case 0:
		ms, mm = num("n", 2, 0, 58)
		fallthrough
	case 1:
		hs, hh = num("h", 2, 0, 22)
	}
	expectTime(ds+" "+monthNames[m-1]+" "+ys+" "+hs+":"+ms+":60 +0000", instant(y, m, d, hh, mm, 60, 0), 0)
}

// the instant is shifted by the offset whatever the year, also across its turns
func C13_Offset() {
	vp.Options("cut")
	ys, y := num("y", 4, 1, 9998)
	switch vp.Choice("case", 4) {
	case 0:
		expectTime("1 Jan "+ys+" 00:30:00 +0100", instant(y, 1, 1, 0, 30, 0, 3600), 3600)
	case 1:
		expectTime("31 Dec "+ys+" 23:30:00 -0930", instant(y, 12, 31, 23, 30, 0, -34200), -34200)
	case 2:
		expectTime("28 Feb "+ys+" 23:30:00 EST", instant(y, 2, 28, 23, 30, 0, -18000), -18000)
	case 3:
		expectTime("1 Mar "+ys+" 00:00:59 +1400", instant(y, 3, 1, 0, 0, 59, 50400), 50400)
	}
}

// every month in every letter case
func C13_Months() {
	vp.Options("cut")
	m := 1 + vp.Choice("m", 12)
	ds, d := num("d", 2, 1, 28)
	expectTime(ds+pick("sp", " ", "\t", "")+anycase("mon", monthNames[m-1])+pick("sp2", " ", "\t", "  ")+"1997 09:55:06", instant(1997, m, d, 9, 55, 6, 0), 0)
}

// leading zeros of the day, and dates next to each other
func C13_DayDigits() {
	vp.Options("cut")
	m := 1 + vp.Choice("m", 12)
	d := vp.Int("d", 1, 9)
	y := vp.Int("y", 1900, 2100)
	expectTime(pick("zero", "0", "")+dec(d, 1)+" "+monthNames[m-1]+" "+dec(y, 4)+" 23:59:59 +0000", instant(y, m, d, 23, 59, 59, 0), 0)
}

// all fields free in every kind of spelling
func C13_Spelled() { spelled() }

func spelled() {
	vp.Options("cut")
	months := []int{2, 7, 12}
	if vp.Deep() {
		months = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	}
	m := months[vp.Choice("m", len(months))]
	ds, d := num("d", 2, 1, 28)
	y := []int{1969, 2000}[vp.Choice("y", 2)]
	ys := dec(y, 4)
	hs, hh := num("h", 2, 0, 23)
	ms, mm := num("n", 2, 0, 59)
	sp := pick("sp", " ", "\r\n ", "\t ")
	s := ""
	if vp.Choice("dow", 2) == 1 {
		s = "Sat," + sp
	}
	s += ds + sp + monthNames[m-1] + sp + ys + sp + hs + ":" + ms
	ss, off := 0, 0
	if vp.Choice("sec", 2) == 1 {
		t, v := num("s", 2, 0, 59)
		s, ss = s+":"+t, v
	}
	switch vp.Choice("zone", 4) {
	case 0:
		zh, h := num("zh", 2, 0, 23)
		s, off = s+sp+"+"+zh+"30", h*3600+1800
	case 1:
		zm, n := num("zm", 2, 0, 59)
		s, off = s+sp+"-00"+zm, -n*60
	case 2:
		s, off = s+sp+"edt", -4*3600
	}
	expectTime(s, instant(y, m, d, hh, mm, ss, off), off)
}
