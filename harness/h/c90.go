package h

import (
	"io"

	"vpharness/vp"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// C90: concurrent calls do not interfere.

// outcome renders what a call returned.
func outcome(date bool, s string) string {
	if date {
		t, err := rfc5322.ParseDateTime(s)
		if err != nil {
			return "refused"
		}
		if vp.Symbolic() {
			return "a date"
		}
		return t.Format("2006-01-02 15:04:05 -0700 MST")
	}
	l, err := rfc5322.ParseAddressList(s)
	if err != nil {
		return "refused"
	}
	r := ""
	for _, a := range l {
		r += a.Name + "\x00" + a.Address + "\x01"
	}
	return r
}

func both(x []string) {
	vp.Show("first", x[0])
	vp.Show("second", x[1])
}

// two address lists of any kinds
func C90_Lists() {
	x := []string{past("x", vp.Choice("kx", nPasts)), past("y", vp.Choice("ky", nPasts))}
	both(x)
	vp.Concurrent(func(i int) string { return outcome(false, x[i]) })
}

// two date-times of any kinds
func C90_Dates() {
	x := []string{pastDate("x", vp.Choice("kx", nPastDates)), pastDate("y", vp.Choice("ky", nPastDates))}
	both(x)
	vp.Concurrent(func(i int) string { return outcome(true, x[i]) })
}

// a list and a date-time
func C90_Mixed() {
	x := []string{past("x", vp.Choice("kx", nPasts)), pastDate("y", vp.Choice("ky", nPastDates))}
	both(x)
	vp.Concurrent(func(i int) string { return outcome(i == 1, x[i]) })
}

// lists that depart from the plain form, each on its own
func C90_Generated() {
	k := 1
	if vp.Deep() {
		k = 2
	}
	g := &gen{k: k, names: true, gaps: true, locals: true, domains: true, forms: true, seps: true, obs: true, words: true}
	src := g.list(1 + vp.Choice("elements", 2))
	x := []string{src, "m <n" + vp.Chars("l", 1, atextN) + "@d>"}
	both(x)
	vp.Concurrent(func(i int) string { return outcome(false, x[i]) })
}

// with a reader installed
func C90_Reader() {
	defer uninstall()
	how := vp.Choice("how", 3)
	rfc5322.CharsetReader = func(charset string, in io.Reader) (io.Reader, error) {
		if how == 2 {
			return nil, errReader
		}
		b, err := io.ReadAll(in)
		return &partReader{data: append([]byte(charset), b...), step: 1 + how*99, err: io.EOF}, err
	}
	x := []string{"=?koi8-r?q?" + vp.Chars("t", 1, alnum) + "?= <l@d>", "=?x-y?b?YWJj?= =?utf-8?q?" + vp.Chars("u", 1, alnum) + "?= <l@d>"}
	both(x)
	vp.Concurrent(func(i int) string { return outcome(false, x[i]) })
}
