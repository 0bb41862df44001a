package h

import (
	"net/mail"

	"vpharness/vp"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// C19: results do not depend on earlier calls.

// past is an input of some kind, accepted or refused.
func past(id string, kind int) string {
	a := vp.Chars("l"+id, 1, atextN) + "@" + vp.Chars("d"+id, 1, atextN)
	switch kind {
	case 0:
		return a
	case 1:
		return "n" + vp.Chars("n"+id, 1, atextN) + " <" + a + ">"
	case 2:
		return "\"" + vp.Chars("n"+id, 1, qtextA) + " \\" + vp.Chars("p"+id, 1, qchar) + "\" <" + a + ">"
	case 3:
		return "=?utf-8?q?" + vp.Chars("n"+id, 1, alnum) + "?= <" + a + ">"
	case 4:
		return "g: " + a + ", <" + a + ">; m@e"
	case 5: // refused
		return "n" + vp.Chars("n"+id, 1, atextN) + " <" + a
	case 6: // refused
		return "\"" + a
	case 7: // refused
		return a + " " + a
	case 8:
		return "=?koi8-r?q?" + vp.Chars("n"+id, 1, alnum) + "?= <" + a + ">"
	case 9:
		return ""
	case 10:
		return "a.\"b\"" + a + "[], <@" + a[:1] + ":" + a + ":25>"
	case 11: // refused
		return "(" + a
	case 12: // refused by the check of quotes around groups
		return "\"g: " + a
	}
	return vp.Chars("c"+id, 2, []rune{'\t', '\t', '\r', '\r', ' ', ' ', '"', '"', ',', ',', ':', '<', '>', '>', '@', '@'})
}

const nPasts = 14

func copyOf(l []*mail.Address) []mail.Address {
	var c []mail.Address
	for _, a := range l {
		c = append(c, *a)
	}
	return c
}

// unchanged states that the mailboxes and their copies agree.
func unchanged(l []*mail.Address, c []mail.Address, what string) {
	vp.Check(len(l) == len(c), what+": the number of mailboxes")
	if len(l) != len(c) {
		return
	}
	for i := range c {
		vp.Check(l[i].Name == c[i].Name && l[i].Address == c[i].Address, what+": the mailboxes")
	}
}

// X, then Y, then X again
func C19_Between() {
	x := past("x", vp.Choice("kx", nPasts))
	y := past("y", vp.Choice("ky", nPasts))
	l1, err1 := rfc5322.ParseAddressList(x)
	c1 := copyOf(l1)
	l2, err2 := rfc5322.ParseAddressList(y)
	c2 := copyOf(l2)
	unchanged(l1, c1, "a later call changes an earlier result")
	l3, err3 := parse(x)
	vp.Check((err1 == nil) == (err3 == nil), "the outcome is the same again")
	unchanged(l3, c1, "the same input again")
	unchanged(l1, c1, "a later call changes an earlier result")
	unchanged(l2, c2, "a later call changes an earlier result")
	for i := range l1 {
		for j := range l3 {
			vp.Check(l1[i] != l3[j], "results are not shared")
		}
	}
	_ = err2
}

// after a fixed or symbolic history, an input with a known result
func C19_After() {
	vp.Options("cut")
	n := 1 + vp.Choice("n", 2)
	for i := 0; i < n; i++ {
		id := string(rune('p' + i))
		rfc5322.ParseAddressList(past(id, vp.Choice("k"+id, nPasts)))
	}
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	switch vp.Choice("then", 4) {
	case 0:
		expect(l+"@"+d, want{"", l + "@" + d})
	case 1:
		expect("n"+l+" m <a@"+d+">, b@c", want{"n" + l + " m", "a@" + d}, want{"", "b@c"})
	case 2:
		reject(l + "@")
	case 3:
		expect("g:;")
	}
}

// many calls
func C19_Many() {
	vp.Options("cut")
	n := []int{3, 6, 12}[vp.Choice("n", 3)]
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	kind := vp.Choice("kind", 3)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			rfc5322.ParseAddressList("x" + itoa(i) + " <" + l + "@" + d + ">")
		case 1:
			rfc5322.ParseAddressList("\"" + l + "@" + d)
		case 2:
			rfc5322.ParseDateTime("1 Jan 2000 00:00 " + l)
		}
	}
	expect("n <"+l+"@"+d+">", want{"n", l + "@" + d})
}

// what the caller does with a result is his own
func C19_Own() {
	vp.Options("cut")
	x := past("x", vp.Choice("kx", 5))
	l1, _ := rfc5322.ParseAddressList(x)
	c1 := copyOf(l1)
	for i := range l1 {
		l1[i].Name, l1[i].Address = "changed", vp.Chars("z"+itoa(i), 1, letters)
	}
	if len(l1) > 0 {
		l1[0] = nil
		l1 = append(l1[:1], &mail.Address{Name: "more"})
	}
	l2, err := parse(x)
	vp.Check(err == nil, "the input is accepted again")
	unchanged(l2, c1, "the same input after changing the result")
}

// the reader counts when the call is made
func C19_Reader() {
	vp.Options("cut")
	defer uninstall()
	t, u := vp.Chars("t", 1, alnum), vp.Chars("u", 1, alnum)
	src := "=?koi8-r?q?" + t + "?="
	how1, how2 := vp.Choice("how1", 6), vp.Choice("how2", 6)
	set := func(how int) string {
		if how == 5 {
			uninstall()
			return src
		}
		install(how)
		return answer(how, src, t)
	}
	want1 := set(how1)
	l1, err := rfc5322.ParseAddressList(src + " <l@d>")
	expectRes(l1, err, want{want1, "l@d"})
	want2 := set(how2)
	expect(src+" <l@d>, =?utf-8?q?"+u+"?= <m@e>", want{want2, "l@d"}, want{u, "m@e"})
	expectRes(l1, err, want{want1, "l@d"})
	uninstall()
	l3, err := rfc5322.ParseAddressList(src + " <l@d>")
	expectRes(l3, err, want{src, "l@d"})
}

// pastDate is a date of some kind, accepted or refused.
func pastDate(id string, kind int) string {
	switch kind {
	case 0:
		s, _ := num("d"+id, 2, 1, 28)
		return s + " Jan 2020 10:11:12 +0100"
	case 1:
		s, _ := num("y"+id, 4, 0, 9999)
		return "Mon, 3 Apr " + s + " 01:02 EST"
	case 2:
		s, _ := num("m"+id, 2, 0, 59)
		return "3 Mar 99 01:" + s
	case 3: // refused
		return vp.Chars("r"+id, 1, digits) + " Foo 2020 10:11:12"
	case 4: // refused
		return "3 Mar 1999 01:0" + vp.Chars("x"+id, 1, letters)
	case 5: // refused
		return "3 Mar 1999"
	}
	return "(c) 7 dEC 2001 23:59:60 gmt (" + vp.Chars("c"+id, 1, atextN) + ")"
}

const nPastDates = 7

func C19_DateBetween() {
	vp.SetClock(1700000000)
	x := pastDate("x", vp.Choice("kx", nPastDates))
	y := pastDate("y", vp.Choice("ky", nPastDates))
	t1, err1 := rfc5322.ParseDateTime(x)
	u, o1 := t1.Unix(), 0
	_, o1 = t1.Zone()
	rfc5322.ParseDateTime(y)
	t3, err3 := parseDate(x)
	vp.Check((err1 == nil) == (err3 == nil), "the outcome is the same again")
	_, o3 := t3.Zone()
	vp.Check(t3.Unix() == u && o1 == o3, "the instant is the same again")
	_, o1b := t1.Zone()
	vp.Check(t1.Unix() == u && o1b == o1, "the earlier instant stays")
}

// dates and addresses do not touch each other
func C19_Mixed() {
	vp.SetClock(1700000000)
	x := past("x", vp.Choice("kx", nPasts))
	l1, err1 := rfc5322.ParseAddressList(x)
	c1 := copyOf(l1)
	s, d := num("d", 2, 1, 28)
	z := vp.Choice("z", 2)
	if z == 1 {
		rfc5322.ParseDateTime(pastDate("y", vp.Choice("ky", nPastDates)))
	}
	expectTime(s+" Jan 2020 10:11:12 -0100", instant(2020, 1, d, 10, 11, 12, -3600), -3600)
	l3, err3 := parse(x)
	vp.Check((err1 == nil) == (err3 == nil), "the outcome is the same again")
	unchanged(l3, c1, "the same input again")
	unchanged(l1, c1, "a later call changes an earlier result")
}

// the year of two digits is judged by the clock of its own call
func C19_Clock() {
	vp.Options("cut")
	a, b := vp.Int("a", 0, 99), vp.Int("b", 0, 99)
	yy := []int{0, 9, 50, 99}[vp.Choice("yy", 4)]
	for i, now := range []int{a, b, a} {
		vp.SetClock(int64(instant(2000+now, 7, 1, 0, 0, 0, 0)))
		t, err := rfc5322.ParseDateTime("1 Feb " + dec(yy, 2) + " 00:00 UTC")
		vp.Check(err == nil, "the date is accepted")
		vp.Check(int(t.Unix()) == instant(vp.IteInt(yy > now, 1900+yy, 2000+yy), 2, 1, 0, 0, 0, 0), "call "+itoa(i)+": the century is that of the clock")
	}
}
