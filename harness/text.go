package main

import (
	"strings"
	"unicode/utf8"
)

// Texts are exchanged with the specification as strings with one UTF-16 code
// unit per rune: bytes which are no valid UTF-8, control characters and
// characters outside of the BMP are mapped to private use characters.
var astral = []rune{'😀', '𝄞', '🐘', '𠮷'}

func encText(s string) string {
	b := new(strings.Builder)
	for len(s) > 0 {
		r, w := utf8.DecodeRuneInString(s)
		switch {
		case r == utf8.RuneError && w <= 1:
			b.WriteRune(0xE000 + rune(s[0]))
		case r == '\n' || r == '\t' || r == '\r':
			b.WriteRune(r)
		case r < 0x20 || r == 0x7f:
			b.WriteRune(0xE400 + r)
		case r > 0xFFFF:
			x := 0xE200 + r%0x100
			for i, a := range astral {
				if a == r {
					x = 0xE100 + rune(i)
				}
			}
			b.WriteRune(x)
		default:
			b.WriteRune(r)
		}
		s = s[w:]
	}
	return b.String()
}

func decText(s string) string {
	b := new(strings.Builder)
	for _, r := range s {
		switch {
		case r >= 0xE000 && r < 0xE100:
			b.WriteByte(byte(r - 0xE000))
		case r >= 0xE100 && r < 0xE100+rune(len(astral)):
			b.WriteRune(astral[r-0xE100])
		case r >= 0xE400 && r < 0xE480:
			b.WriteByte(byte(r - 0xE400))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}
