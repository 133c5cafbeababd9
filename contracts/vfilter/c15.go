package vfilter

import (
	"www.velocidex.com/golang/vfilter/utils"
)

// C15: what quoted text denotes.

func between(c, lo, hi int) bool { return vAnd(lo <= c, c <= hi) }

// hexDigit: its value, -1 for anything else.
func hexDigit(c int) int {
	return vIteInt(between(c, '0', '9'), c-'0',
		vIteInt(between(c, 'a', 'f'), c-'a'+10,
			vIteInt(between(c, 'A', 'F'), c-'A'+10, -1)))
}

func isHex(in string, p int) bool {
	return vAnd(hexDigit(vByte(in, p)) >= 0, hexDigit(vByte(in, p+1)) >= 0)
}

// unitLen: how many bytes of the literal's text the unit at p takes, 0 when
// the text ends in the middle of an escape.
func unitLen(in string, p int) int {
	c, n := vByte(in, p+1), len(in)
	return vIteInt(vByte(in, p) != '\\', 1,
		vIteInt(p+1 >= n, 0,
			vIteInt(vAnd(c != 'x', c != 'X'), 2,
				vIteInt(p+3 >= n, 0,
					vIteInt(isHex(in, p+2), 4, 1)))))
}

// unitByte: the byte it denotes.
func unitByte(in string, p int) int {
	c := vByte(in, p+1)
	return vIteInt(vByte(in, p) != '\\', vByte(in, p),
		vIteInt(c == 'n', '\n',
			vIteInt(c == 'r', '\r',
				vIteInt(c == 't', '\t',
					vIteInt(vAnd(c != 'x', c != 'X'), c,
						vIteInt(isHex(in, p+2), 16*hexDigit(vByte(in, p+2))+hexDigit(vByte(in, p+3)), '\\'))))))
}

// at lists where the units of the literal start, size their lengths
// and val the bytes they denote.
func unquotes(q int, s string, at, size, val []int) {
	n := len(size)
	vRequires(vAnd(len(s) >= 2, vAnd(vByte(s, 0) == q, vByte(s, len(s)-1) == q)))
	in := s[1 : len(s)-1]
	vRequires(len(at) == n+1)
	vRequires(len(val) == n)
	vRequires(vAnd(at[0] == 0, at[n] <= len(in)))
	of := func(k int) int { return size[k] }
	vRequires(vForallOn(n, of, func(k int) bool {
		return vAnd(vAnd(at[k] >= 0, at[k] < len(in)),
			vAnd(size[k] == unitLen(in, at[k]), vAnd(vAnd(size[k] > 0, val[k] == unitByte(in, at[k])), at[k+1] == at[k]+size[k])))
	}))
	vRequires(vOr(at[n] == len(in), unitLen(in, at[n]) == 0))
	vLoopInv(func(i, j int) bool {
		return 0 <= j && j <= n && i == at[j] && (j == n || size[j] > 0)
	})
	vLoopInv(func(out []byte, j int) bool {
		return vForall(j, func(k int) bool { return int(out[k]) == val[k] })
	})
	got := utils.Unquote(s)
	vEnsures("one byte for each unit", len(got) == n)
	vEnsures("the byte of each unit", vForall(n, func(k int) bool { return int(got[k]) == val[k] }))
}

// @contract: C15
// @covers: utils.Unquote
// @norac
// @weight: 8
func C15_string_double(s string, at, size, val []int) { unquotes('"', s, at, size, val) }

// @contract: C15
// @covers: utils.Unquote
// @norac
// @weight: 8
func C15_string_single(s string, at, size, val []int) {
	// not a text that starts like the triple quoted ones
	vRequires(vOr(len(s) < 6, vOr(vByte(s, 1) != '\'', vByte(s, 2) != '\'')))
	unquotes('\'', s, at, size, val)
}

// @contract: C15
// @covers: utils.Unquote
func C15_verbatim(text string) {
	vEnsures("triple quoted text is taken verbatim", utils.Unquote("'''"+text+"'''") == text)
}

// @contract: C15
// @covers: utils.Unquote
func C15_panicfree(s string) {
	vLoopInv(func(i, j int) bool { return 0 <= j && j <= i && i <= len(s)-2 })
	got := utils.Unquote(s)
	vEnsures("no longer than its text", len(got) <= len(s))
}

// @contract: C15
// @covers: utils.Unquote_ident
func C15_ident_panicfree(s string) {
	got := utils.Unquote_ident(s)
	vEnsures("no longer than its text", len(got) <= len(s))
}

// @contract: C15
// @covers: utils.Unquote_ident
func C15_ident(name string) {
	vRequires(!vExists(len(name), func(k int) bool { return name[k] == '`' }))
	vEnsures("only the quotes are lost", utils.Unquote_ident("`"+name+"`") == name)
	if len(name) == 0 || name[0] != '`' {
		vEnsures("no quotes", utils.Unquote_ident(name) == name)
	}
}
