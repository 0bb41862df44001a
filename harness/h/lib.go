// Package h holds the property harnesses.
//
// A harness builds an input from symbolic pieces (vp.Chars, vp.Int …), calls
// the real parser and states with vp.Check what must hold.  The engine runs it
// with every symbolic piece left open; the replay binary runs it natively with
// the pieces of one witness.
package h

import (
	"fmt"
	"net/mail"
	"strings"
	"time"

	"vpharness/vp"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// Warm runs the parsers once on fixed inputs.
func Warm() {
	l, err := rfc5322.ParseAddressList(`"a b" (c) <x.y@z.w>, =?utf-8?q?b?= <e@f>; g: h@i;`)
	if err != nil || len(l) != 3 {
		panic("warm")
	}
	if _, err := rfc5322.ParseDateTime("Fri, 21 Nov 1997 09:55:06 -0600"); err != nil {
		panic("warm date")
	}
}

// --- character sets (inclusive ranges) ----------------------------------------

var (
	ascii   = []rune{0, 0x7f}
	digits  = []rune{'0', '9'}
	letters = []rune{'A', 'Z', 'a', 'z'}
	alnum   = []rune{'0', '9', 'A', 'Z', 'a', 'z'}
	wsp     = []rune{'\t', '\t', ' ', ' '}

	// RFC 6532 code points (everything above ASCII but the surrogates)
	nonASCII = []rune{0x80, 0xd7ff, 0xe000, 0x10ffff}
	anyRune  = []rune{0, 0xd7ff, 0xe000, 0x10ffff}

	// RFC 5322 atext
	atextA = []rune{'!', '!', '#', '\'', '*', '+', '-', '-', '/', '9', '=', '=', '?', '?', 'A', 'Z', '^', '~'}
	atext  = append(append([]rune{}, atextA...), nonASCII...)
	// atext without '=': it cannot look like an encoded word, so the grammar
	// has far fewer readings to tell apart
	atextN = []rune{'!', '!', '#', '\'', '*', '+', '-', '-', '/', '9', '?', '?', 'A', 'Z', '^', '~'}
	// atext and the dot
	dotText = append([]rune{'!', '!', '#', '\'', '*', '+', '-', '9', '=', '=', '?', '?', 'A', 'Z', '^', '~'}, nonASCII...)

	// RFC 5322 qtext (no '"', no '\'), printable only
	qtextA = []rune{'!', '!', '#', '[', ']', '~'}
	// the part of it that means something outside quotes
	qspecial = []rune{'(', ')', ',', ',', '.', '.', ':', '>', '@', '@', '[', '[', ']', ']'}
	qtext    = append(append([]rune{}, qtextA...), nonASCII...)
	// VCHAR with no meaning outside quotes either
	qplain = []rune{'!', '!', '#', '\'', '*', '+', '-', '-', '/', '9', '?', '?', 'A', 'Z', '^', '~'}
	// what a quoted pair may quote: VCHAR / WSP
	qchar = append([]rune{'\t', '\t', ' ', '~'}, nonASCII...)
	// RFC 5322 ctext (no '(', ')', '\')
	ctextA = []rune{'!', '\'', '*', '[', ']', '~'}
	ctext  = append(append([]rune{}, ctextA...), nonASCII...)
	// RFC 5322 dtext (no '[', ']', '\')
	dtext = append([]rune{'!', 'Z', '^', '~'}, nonASCII...)
	// obsolete control characters of qtext and ctext
	ctl = []rune{1, 8, 0x0b, 0x0c, 0x0e, 0x1f, 0x7f, 0x7f}
)

// --- observations ---------------------------------------------------------------

func parse(s string) ([]*mail.Address, error) {
	vp.Show("input", s)
	l, err := rfc5322.ParseAddressList(s)
	note(l, err)
	return l, err
}

func note(l []*mail.Address, err error) {
	vp.NoteBool("err", err != nil)
	vp.NoteInt("n", len(l))
	for i, a := range l {
		if a == nil {
			vp.NoteInt("nil", i)
			continue
		}
		vp.NoteStr(fmt.Sprintf("name%d", i), a.Name)
		vp.NoteStr(fmt.Sprintf("addr%d", i), a.Address)
	}
}

func parseDate(s string) (time.Time, error) {
	vp.Show("input", s)
	t, err := rfc5322.ParseDateTime(s)
	vp.NoteBool("err", err != nil)
	if err == nil {
		_, off := t.Zone()
		vp.NoteInt("unix", int(t.Unix()))
		vp.NoteInt("offset", off)
	}
	return t, err
}

// want is one expected mailbox.
type want struct{ name, addr string }

// expect states that s parses to exactly the mailboxes w.
func expect(s string, w ...want) {
	l, err := parse(s)
	expectRes(l, err, w...)
}

func expectRes(l []*mail.Address, err error, w ...want) {
	vp.Check(err == nil, "the input is accepted")
	if err != nil {
		return
	}
	vp.Check(len(l) == len(w), "the number of mailboxes is right")
	if len(l) != len(w) {
		return
	}
	for i := range w {
		vp.Check(l[i] != nil, "no mailbox is nil")
		if l[i] == nil {
			return
		}
		vp.Check(l[i].Address == w[i].addr, "the address is right")
		vp.Check(l[i].Name == w[i].name, "the display name is right")
	}
}

// reject states that s is refused and yields nothing.
func reject(s string) {
	l, err := parse(s)
	vp.Check(err != nil, "the malformed input is refused")
	vp.Check(len(l) == 0, "a refused input yields no mailboxes")
}

// same states that s parses exactly like ref.
func same(ref, s string) {
	l0, err := rfc5322.ParseAddressList(ref)
	if err != nil {
		vp.Check(false, "the reference form is accepted")
		return
	}
	var w []want
	for _, a := range l0 {
		w = append(w, want{a.Name, a.Address})
	}
	expect(s, w...)
}

// pick is one of the texts, explored case by case.
func pick(name string, xs ...string) string { return xs[vp.Choice(name, len(xs))] }

// word is a run of n symbolic characters of the set.
func word(name string, n int, set []rune) string { return vp.Chars(name, n, set) }

// oneOf is a run of 1..n symbolic characters (the length is explored).
func oneOf(name string, n int, set []rune) string {
	return vp.Chars(name, 1+vp.Choice(name+".len", n), set)
}

// widths are the non-ASCII code points by the length of their UTF-8 form.
var widths = [][]rune{nil, {0x80, 0x7ff}, {0x800, 0xd7ff, 0xe000, 0xffff}, {0x10000, 0x10ffff}}

// mono is a run of n characters that are all ASCII characters of the set, or
// all non-ASCII with UTF-8 forms of one length: one case per length.
func mono(name string, n int, set []rune) string {
	w := vp.Choice(name+".width", 4)
	if w > 0 {
		set = widths[w]
	}
	return vp.Chars(name, n, set)
}

// spot is a run of n ASCII characters of the set with one non-ASCII character
// at some position, or none.
func spot(name string, n int, set []rune) string {
	k := vp.Choice(name+".spot", n+1)
	if k == n {
		return vp.Chars(name, n, set)
	}
	return vp.Chars(name+".a", k, set) + vp.Chars(name, 1, nonASCII) + vp.Chars(name+".b", n-1-k, set)
}

var _ = strings.Join

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
