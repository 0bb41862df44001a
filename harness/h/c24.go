package h

import "vpharness/vp"

// C24: every RFC 5322 address list is read as RFC 5322 says.

// strictly states that s, if it is an address list of RFC 5322, is accepted
// with the mailboxes the reference reads.
func strictly(s []rune) {
	l, err := parse(string(s))
	b, ok := refRead(s, false)
	if !ok {
		return
	}
	vp.Check(err == nil, "the address list is accepted")
	if err != nil {
		return
	}
	vp.Check(len(l) == len(b), "the number of mailboxes is right")
	if len(l) != len(b) {
		return
	}
	for i := range b {
		vp.Check(l[i].Address == b[i].addr, "the address is right")
		vp.Check(l[i].Name == b[i].name, "the display name is right")
	}
}

func C24_Text() {
	vp.Options("cut")
	n := 5
	if vp.Deep() {
		n = 7
	}
	strictly(runes("c", n, ascii))
}

func C24_Hole() {
	vp.Options("cut")
	n := 3
	if vp.Deep() {
		n = 4
	}
	at := vp.Choice("at", nHoles-2)
	if at >= 11 {
		at += 2 // not those inside an encoded word
	}
	strictly(inHole(at, runes("x", n, ascii)))
}

// one edit at any place of a well-formed text
func C24_Edit() {
	vp.Options("cut")
	n := 2
	if vp.Deep() {
		n = 3
	}
	strictly(edited(listForms[:len(listForms)-1], n))
}
