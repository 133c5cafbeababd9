package vfilter

import (
	"errors"

	"github.com/alecthomas/participle/v2"
	"github.com/alecthomas/participle/v2/lexer"
)

// C16: malformed queries and positions.

// @contract: C16
// @covers: reportError
func C16_report(expression string, pos lexer.Position) {
	vRequires(pos.Offset >= 0 && pos.Offset <= len(expression))
	err := reportError(errors.New("syntax"), pos, expression)
	vEnsures("an error", err != nil)
}

// @contract: C16
// @covers: findEndPos
func C16_end(start lexer.Position, value string) {
	vRequires(start.Offset >= 0 && start.Line >= 1 && start.Column >= 1)
	vRequires(start.Offset <= 1<<40 && start.Line <= 1<<40 && start.Column <= 1<<40)
	vLoopInv(func(res *lexer.Position, pos int) bool {
		return pos >= 0 && pos <= len(value) && res.Line >= start.Line && res.Line <= start.Line+pos &&
			res.Column >= 1 && res.Column <= start.Column+pos
	})
	end := findEndPos(start, value)
	vEnsures("after its last byte", end.Offset == start.Offset+len(value))
	vEnsures("not before its line", end.Line >= start.Line)
	vEnsures("columns count from one", end.Column >= 1)
	vEnsures("same file", end.Filename == start.Filename)
}

// @contract: C16
// @covers: findEndPos
func C16_end_line(start lexer.Position, value string) {
	vRequires(start.Offset >= 0 && start.Line >= 1 && start.Column >= 1)
	vRequires(start.Offset <= 1<<40 && start.Line <= 1<<40 && start.Column <= 1<<40)
	vRequires(vForall(len(value), func(k int) bool { return value[k] != '\n' }))
	vLoopInv(func(res *lexer.Position, pos int) bool {
		return pos >= 0 && pos <= len(value) && res.Line == start.Line &&
			res.Column >= start.Column && res.Column <= start.Column+pos && (pos == 0 || res.Column > start.Column)
	})
	end := findEndPos(start, value)
	vEnsures("on its line", end.Line == start.Line)
	vEnsures("not before it", end.Column >= start.Column)
	vEnsures("no more columns than bytes", end.Column-start.Column <= len(value))
	vEnsures("a text has an extent", len(value) == 0 || end.Column > start.Column)
}

// What the parser library is assumed to return: a query or an error, which is
// of one of its own two kinds, placed inside the text or at its end, or of
// some other kind.
var c16pos lexer.Position
var c16kind int
var c16vql *VQL
var c16multi *MultiVQL

type c16error struct{ pos lexer.Position }

func (self *c16error) Error() string            { return "unexpected" }
func (self *c16error) Message() string          { return "unexpected" }
func (self *c16error) Position() lexer.Position { return self.pos }

type c16other struct{ code int }

func (self *c16other) Error() string { return "other" }

func c16err() error {
	switch c16kind {
	case 0:
		return nil
	case 1:
		return &lexer.Error{Pos: c16pos}
	case 2:
		return &c16error{c16pos}
	}
	return &c16other{}
}

func c16parse(p *participle.Parser[VQL], name, text string, opts ...participle.ParseOption) (*VQL, error) {
	return c16vql, c16err()
}

func c16parseMulti(p *participle.Parser[MultiVQL], name, text string, opts ...participle.ParseOption) (*MultiVQL, error) {
	return c16multi, c16err()
}

// @contract: C16
// @covers: vfilter.Parse reportError
// @assume: v2.Parser.ParseString=c16parse
// @norac
func C16_parse(expression string, kind int, pos lexer.Position, vql *VQL) {
	vRequires(pos.Offset >= 0 && pos.Offset <= len(expression))
	c16kind, c16pos, c16vql = kind, pos, vql
	got, err := Parse(expression)
	vEnsures("an error for a malformed text", (err != nil) == (kind != 0))
	vEnsures("the query otherwise", kind != 0 || got == vql)
}

// @contract: C16
// @covers: vfilter.MultiParse vfilter.MultiParseWithComments reportError
// @assume: v2.Parser.ParseString=c16parseMulti
// @norac
func C16_multiparse(expression string, kind int, pos lexer.Position, comments bool) {
	vRequires(pos.Offset >= 0 && pos.Offset <= len(expression) && kind != 0)
	c16kind, c16pos, c16multi = kind, pos, nil
	var got []*VQL
	var err error
	if comments {
		got, err = MultiParseWithComments(expression)
	} else {
		got, err = MultiParse(expression)
	}
	vEnsures("an error for a malformed text", err != nil)
	vEnsures("no statements", len(got) == 0)
}
