package main

import (
	"math/rand"
	"unicode/utf16"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func utf16One(s string) {
	begin(s, "utf16")
	defer func() {
		if r := recover(); r != nil {
			found(s, "utf16", "panic: %v", r)
		}
	}()
	got := lexer.EncodeUTF16(s)
	want := utf16.Encode([]rune(s))
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		found(s, "utf16", "%x instead of %x", got, want)
	}
}

func utf16Search(one *Witness) {
	if one != nil {
		utf16One(one.Input)
		return
	}
	utf16One("")
	for r := rune(0); r <= 0x10FFFF; r++ {
		utf16One(string(r))
		utf16One("a" + string(r) + "b" + string(r))
	}
	al := []string{"a", "é", "\uffff", "\ue000", "\ud7ff", "\U00010000", "\U0010FFFF", "\x80", "\xff", "\xed\xa0\x80", "\x00", "\ufffd"}
	rnd := rand.New(rand.NewSource(*seed))
	for i := 0; i < 300000 && !timeUp(); i++ {
		s := ""
		for k := rnd.Intn(12); k > 0; k-- {
			s += al[rnd.Intn(len(al))]
		}
		utf16One(s)
	}
}
