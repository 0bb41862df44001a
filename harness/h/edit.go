package h

import "vpharness/vp"

// Well-formed texts of many kinds, edited at any one place.

var listForms = []string{
	"a \"b\" <l.m@d.e>",
	"\"q\\\"r\" <\"l m\"@[1.2]>",
	"g: a@b, c <d@e>;, f@g",
	"(c (d)) a@b\t(e)",
	"a@b,,c@d; e@f",
	"n <@r,@s.t:l@d>, m@e",
	"a. b@c <l@d>",
	"\"g:a@b,c<d@e>\";",
	"x@y:25, z@[a]",
	"\"l\".m.\"n\" @ d . e",
	"\r\n a\r\n\tb <l@d>\r\n ",
	"a <>, b@c.",
	"g:;h : i@j",
	"=?utf-8?q?a_b?= =?us-ascii?b?YQ==?= c <l@d>", // not for C24
}

var dateTexts = []string{
	"Fri, 21 Nov 1997 09:55:06 -0600",
	"1 jan 00 3:59 GMT",
	"\r\n Sat\t,(c) 29 FEB 2004 23:59 (x) +1130 (y)",
	"31 Dec 1999 23 : 59 : 59 0500",
}

// edited is one of the texts with n free characters put in at any place,
// any one character replaced, or a few taken out or doubled.
func edited(forms []string, n int) []rune {
	t := []rune(forms[vp.Choice("form", len(forms))])
	at := vp.Choice("at", len(t)+1)
	to := at
	var x []rune
	switch e := vp.Choice("edit", 5); e {
	case 0:
		x = runes("x", n, ascii)
	case 1:
		to = at + 1
		x = runes("x", 1, ascii)
	case 2, 3:
		to = at + e - 1
	case 4:
		to = at + 1
		if to > len(t) {
			break
		}
		x = []rune{t[at], t[at]}
	}
	vp.Assume(to <= len(t))
	var s []rune
	s = append(s, t[:at]...)
	s = append(s, x...)
	return append(s, t[to:]...)
}
