package h

import "vpharness/vp"

// C14: two-digit years fall in the hundred years up to now.

func twoDigit(now, yy int) int {
	return vp.IteInt(yy > now%100, 1900+yy, 2000+yy)
}

// nowAndYear is any year of the century and any two digits.
func nowAndYear(last int) (now, yy int) {
	z := vp.Int("z", 0, (last-2000)*100+99)
	return 2000 + z/100, z % 100
}

// any year of the century, at the turns of the year and in between
func C14_Window() {
	vp.Options("cut")
	now, yy := nowAndYear(2099)
	day := []int{0, 1, 58, 59, 60, 181, 363, 364}[vp.Choice("day", 8)]
	sec := []int{0, 43200, 86399}[vp.Choice("sec", 3)]
	vp.SetClock(int64(instant(now, 1, 1, 0, 0, 0, 0) + day*86400 + sec))
	m := []int{1, 6, 12}[vp.Choice("m", 3)]
	y := twoDigit(now, yy)
	expectTime("15 "+monthNames[m-1]+" "+dec(yy, 2)+" 12:00:00 +0000", instant(y, m, 15, 12, 0, 0, 0), 0)
}

// the last and the first second of a year
func C14_Turn() {
	vp.Options("cut")
	now, yy := nowAndYear(2098)
	late := vp.Choice("late", 2)
	vp.SetClock(int64(instant(now+1, 1, 1, 0, 0, 0, 0) - 1 + late))
	expectTime("1 Mar "+dec(yy, 2)+" 00:00:00 +0000", instant(twoDigit(now+late, yy), 3, 1, 0, 0, 0, 0), 0)
}

// leap days of both centuries
func C14_Leap() {
	vp.Options("cut")
	z := vp.Int("z", 0, 100*24-1)
	now, yy := 2000+z/24, 4+z%24*4
	vp.SetClock(int64(instant(now, 7, 1, 0, 0, 0, 0)))
	expectTime("29 Feb "+dec(yy, 2)+" 00:00:00 +0000", instant(twoDigit(now, yy), 2, 29, 0, 0, 0, 0), 0)
}

// comments and white space around the year; the clock does not touch other
// fields or four-digit years
func C14_Forms() {
	vp.Options("cut")
	now, yy := nowAndYear(2099)
	vp.SetClock(int64(instant(now, 5, 5, 5, 5, 5, 0)))
	y := twoDigit(now, yy)
	switch vp.Choice("form", 6) {
	case 0:
		expectTime("2 Jan"+dec(yy, 2)+" 03:04:05 -0500", instant(y, 1, 2, 3, 4, 5, -18000), -18000)
	case 1:
		expectTime("2 Jan (c) "+dec(yy, 2)+" (d) 03:04 EST", instant(y, 1, 2, 3, 4, 0, -18000), -18000)
	case 2:
		expectTime("Fri, 2 Jan\r\n "+dec(yy, 2)+"\t03:04", instant(y, 1, 2, 3, 4, 0, 0), 0)
	case 3:
		expectTime("2 Jan 19"+dec(yy, 2)+" 03:04:05 +0000", instant(1900+yy, 1, 2, 3, 4, 5, 0), 0)
	case 4:
		expectTime("2 Jan 00"+dec(yy, 2)+" 03:04:05 +0000", instant(yy, 1, 2, 3, 4, 5, 0), 0)
	case 5:
		expectTime("2 Jan "+dec(yy, 2)+"00 03:04:05 +0000", instant(yy*100, 1, 2, 3, 4, 5, 0), 0)
	}
}

// in other months, hours and zones
func C14_Fields() {
	vp.Options("cut")
	now, yy := nowAndYear(2099)
	vp.SetClock(int64(instant(now, 12, 31, 23, 59, 59, 0)))
	y := twoDigit(now, yy)
	m := 1 + vp.Choice("m", 12)
	// far enough inside the year, and at its ends
	switch vp.Choice("at", 3) {
	case 0:
		expectTime("1 "+monthNames[m-1]+" "+dec(yy, 2)+" 00:00:00 +1200", instant(y, m, 1, 0, 0, 0, 43200), 43200)
	case 1:
		expectTime("28 "+monthNames[m-1]+" "+dec(yy, 2)+" 23:59:59 -1200", instant(y, m, 28, 23, 59, 59, -43200), -43200)
	case 2:
		expectTime("09 "+monthNames[m-1]+" "+dec(yy, 2)+" 10:00 PDT", instant(y, m, 9, 10, 0, 0, -25200), -25200)
	}
}
