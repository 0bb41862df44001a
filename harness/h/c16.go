package h

import (
	"time"

	"vpharness/vp"
)

// C16: named zones mean their offsets in any letter case; no zone means UTC.

var zoneNames = []string{"ut", "utc", "gmt", "est", "edt", "cst", "cdt", "mst", "mdt", "pst", "pdt"}
var zoneHours = []int{0, 0, 0, -5, -4, -6, -5, -7, -6, -8, -7}

func C16_Names() {
	vp.Options("cut")
	z := vp.Choice("z", len(zoneNames))
	off := zoneHours[z] * 3600
	m := []int{1, 2, 7, 12}[vp.Choice("m", 4)]
	ds, d := num("d", 2, 1, 28)
	ys, y := num("y", 4, 1, 9998)
	hs, hh := num("h", 2, 0, 23)
	ms, mm := num("n", 2, 0, 59)
	expectTime(ds+" "+monthNames[m-1]+" "+ys+" "+hs+":"+ms+":07 "+anycase("z", zoneNames[z]), instant(y, m, d, hh, mm, 7, off), off)
}

func C16_Forms() {
	vp.Options("cut")
	z := vp.Choice("z", len(zoneNames))
	off := zoneHours[z] * 3600
	sp := pick("sp", " ", "\t", "", "\r\n ", " (c) ", "(EST)")
	post := pick("post", "", " ", "(c)", " (PDT)")
	sec := pick("sec", "", ":00")
	hs, hh := num("h", 2, 0, 23)
	expectTime("Mon, 1 Jan 2001 "+hs+":00"+sec+sp+anycase("z", zoneNames[z])+post, instant(2001, 1, 1, hh, 0, 0, off), off)
}

func C16_NoZone() {
	vp.Options("cut")
	elsewhere := time.Local
	defer func() { time.Local = elsewhere }()
	time.Local = time.FixedZone("L", 20700)
	m := 1 + vp.Choice("m", 12)
	ds, ys, d, y := date(m)
	hs, hh := num("h", 2, 0, 23)
	ms, mm := num("n", 2, 0, 59)
	sec := vp.Choice("sec", 3)
	s, v := "", 0
	if sec > 0 {
		s, v = num("s", 2, 0, 59)
		s = ":" + s
	}
	post := []string{"", "", " (EST)"}[sec]
	expectTime(ds+" "+monthNames[m-1]+" "+ys+" "+hs+":"+ms+s+post, instant(y, m, d, hh, mm, v, 0), 0)
}
