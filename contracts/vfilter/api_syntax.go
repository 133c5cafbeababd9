package vfilter

import (
	"errors"
	"strings"
	"unicode/utf8"

	"github.com/alecthomas/participle/v2/lexer"
)

// C16: malformed texts and token positions, through the public API.

var apiPieces = []string{"SELECT", "select", "FROM", "WHERE", "LIMIT", "GROUP BY", "ORDER BY", "DESC", "LET", "EXPLAIN", "AS",
	"AND", "OR", "NOT", "IN", "NULL", "TRUE", "a", "b.c", "f(x=1)", "f(", "(", ")", "[", "]", "{", "}", ",", "=", "=~", "<=", "=>", "*",
	"+", "-", "/", ".", "1", "-2.5e3", "0x1F", "'s'", `"d"`, `'é\''`, "'''m\nl'''", "`q r`", "-`x`", "'", `"`, "'''", "`", "\\", "#", "$", "é", "世界", "\xff",
	"/* c */", "-- c\n", "// c\n", "/*", "\n", "\r\n", "\t", " ", "&&", "||", ";", "!", "\x00"}

var apiGood = []string{"SELECT a, b + 1 AS c FROM src(x='é', y=[1, 2]) WHERE a =~ 'x' AND NOT b LIMIT 3",
	"LET f(x, y=2) = x + y", "SELECT * FROM { SELECT 1 FROM x } GROUP BY a ORDER BY b DESC", "LET X <= SELECT `a b`, '''m\nl''' FROM y",
	"x=>x + 1", "SELECT {a=1, b=[1,]} FROM x", "EXPLAIN SELECT * FROM x", "SELECT '世\\x41' FROM x -- e\n"}

func apiMangled(s vSeed) string {
	r := apiRand(s)
	out := ""
	if r.Intn(2) == 0 {
		sep := []string{" ", "", "\n"}[r.Intn(3)]
		for i := r.Intn(9); i >= 0; i-- {
			out += apiPieces[r.Intn(len(apiPieces))] + sep
		}
	} else {
		out = apiGood[r.Intn(len(apiGood))]
		for i := r.Intn(4); i > 0; i-- {
			a, b := r.Intn(len(out)+1), r.Intn(len(out)+1)
			if a > b {
				a, b = b, a
			}
			switch r.Intn(5) {
			case 0, 1:
				out = out[:a]
			case 2:
				out = out[:a] + apiPieces[r.Intn(len(apiPieces))] + out[a:]
			case 3:
				out = out[:a] + out[b:]
			case 4:
				out = out[:b] + out[a:]
			}
		}
	}
	if r.Intn(8) == 0 {
		out = strings.Repeat(" \n", r.Intn(12)) + out
	}
	return out
}

// apiQuotes: the message quotes the text around the position.
func apiQuotes(name, text string, err error) {
	msg := err.Error()
	var pos lexer.Position
	var at interface {
		Position() lexer.Position
		Message() string
	}
	if !errors.As(err, &at) {
		return
	}
	pos = at.Position()
	vInfo("%s of %q: %q at %v", name, text, msg, pos)
	vEnsures("a position in the text", pos.Offset >= 0 && pos.Offset <= len(text) && pos.Line >= 1 && pos.Column >= 1)
	vEnsures("its line", pos.Line <= 1+strings.Count(text[:pos.Offset], "\n"))
	i := strings.LastIndex(msg, ": "+at.(error).Error())
	if i < 0 {
		i = strings.Index(msg, ": ")
	}
	if i < 0 {
		i = len(msg)
	}
	quoted := msg[:i]
	ok := false
	for k := range quoted {
		if quoted[k] == '|' && apiAround(text, quoted[:k], quoted[k+1:], pos.Offset) {
			ok = true
		}
	}
	vEnsures("quotes the place", ok)
}

// apiAround: before and after are what surrounds some place next to offset.
func apiAround(text, before, after string, offset int) bool {
	for p := offset - 1; p <= offset+1; p++ {
		if p >= 0 && p <= len(text) && strings.HasSuffix(text[:p], before) && strings.HasPrefix(text[p:], after) && len(before) <= 12 && len(after) <= 12 {
			return true
		}
	}
	return false
}

// @contract: C16
// @bounded: sampled broken queries: pieces of the grammar in random order, and correct queries cut, joined and spliced at random
// @covers: vfilter.Parse vfilter.MultiParse vfilter.MultiParseWithComments vfilter.ParseLambda reportError
func C16_api_parse(s vSeed) {
	text := apiMangled(s)
	vInfo("text %q", text)
	q, err := Parse(text)
	vEnsures("a query or an error", err != nil || q != nil)
	if err != nil {
		apiQuotes("Parse", text, err)
	}
	m, err2 := MultiParse(text)
	vEnsures("statements or an error", err2 != nil || len(m) > 0)
	vEnsures("no statement with an error", err2 == nil || len(m) == 0)
	if err2 != nil {
		apiQuotes("MultiParse", text, err2)
	}
	vEnsures("one query is a sequence of one", err != nil || err2 == nil)
	c, err3 := MultiParseWithComments(text)
	vEnsures("statements or an error, with comments", err3 != nil || len(c) > 0)
	if err3 != nil {
		apiQuotes("MultiParseWithComments", text, err3)
	}
	l, err4 := ParseLambda(text)
	vEnsures("a lambda or an error", err4 != nil || l != nil)
	if _, terr := Tokenize(text); terr != nil {
		vEnsures("what is no sequence of tokens is no query", err != nil && err2 != nil && err3 != nil && err4 != nil)
	}
	n, err5 := Parse(text)
	vEnsures("the same answer again", (err5 == nil) == (err == nil) && (n == nil) == (q == nil))
}

// @contract: C16
// @bounded: correct sample queries, every prefix that ends inside a bracket or a literal
// @covers: vfilter.Parse vfilter.MultiParse
func C16_api_truncated(s vSeed) {
	r := apiRand(s)
	open := []string{"SELECT f(", "SELECT [1, ", "SELECT {a=1", "SELECT (1 + ", "SELECT a FROM {SELECT b FROM x", "SELECT 'abc", "SELECT '''abc", "SELECT `abc",
		"SELECT a FROM x WHERE", "SELECT a FROM x LIMIT", "SELECT a FROM", "SELECT", "LET a =", "LET a(", "SELECT a, FROM x WHERE )", "SELECT a +", "SELECT a FROM x ORDER BY", "SELECT a FROM x GROUP BY"}
	text := open[r.Intn(len(open))]
	for r.Intn(3) == 0 {
		text = "SELECT a FROM { " + text
	}
	if r.Intn(3) == 0 {
		text = strings.Repeat("\n", r.Intn(5)) + text + strings.Repeat(" ", r.Intn(15))
	}
	vInfo("text %q", text)
	_, err := Parse(text)
	vEnsures("an error", err != nil)
	apiQuotes("Parse", text, err)
	_, err2 := MultiParse("SELECT 1 FROM x " + text)
	vEnsures("an error in the second statement", err2 != nil)
	apiQuotes("MultiParse", "SELECT 1 FROM x "+text, err2)
}

// @contract: C16
// @bounded: sampled texts as above
// @covers: vfilter.Tokenize findEndPos
func C16_api_tokens(s vSeed) {
	text := apiMangled(s)
	vInfo("text %q", text)
	toks, err := Tokenize(text)
	if err != nil {
		vEnsures("no tokens with an error", len(toks) == 0)
		return
	}
	last := 0
	for i, t := range toks {
		vInfo("token %d %v %q %v %v", i, t.Type, t.Value, t.Pos, t.EndPos)
		vEnsures("within the text, in order", t.Pos.Offset >= last && t.EndPos.Offset >= t.Pos.Offset && t.EndPos.Offset <= len(text))
		vEnsures("delimits its own text", text[t.Pos.Offset:t.EndPos.Offset] == t.Value)
		vEnsures("only blanks between", strings.TrimSpace(text[last:t.Pos.Offset]) == "")
		vEnsures("a type of token", t.Type != "" && !strings.EqualFold(t.Type, "whitespace"))
		apiPlace("start", text, t.Pos)
		apiPlace("end", text, t.EndPos)
		last = t.EndPos.Offset
	}
	vEnsures("nothing left over", strings.TrimSpace(text[last:]) == "")
}

// apiPlace: line and column agree with the offset (columns count characters).
func apiPlace(name, text string, pos lexer.Position) {
	before := text[:pos.Offset]
	vEnsures(name+" on its line", pos.Line == 1+strings.Count(before, "\n"))
	line := before[strings.LastIndex(before, "\n")+1:]
	if utf8.ValidString(text) {
		vEnsures(name+" in its column", pos.Column == 1+utf8.RuneCountInString(line))
	}
}
