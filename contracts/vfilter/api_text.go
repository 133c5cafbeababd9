package vfilter

import (
	"strings"
	"unicode/utf8"

	"www.velocidex.com/golang/vfilter/utils"
)

// C15: the text of literals and identifiers, through the public API.

// apiDecoded is the byte sequence the text of a literal denotes.
func apiDecoded(in string) string {
	hex := func(c byte) int {
		i := strings.IndexByte("0123456789abcdefABCDEF", c)
		if i >= 16 {
			i -= 6
		}
		return i
	}
	out := []byte{}
	for len(in) > 0 {
		c := in[0]
		if c != '\\' {
			out, in = append(out, c), in[1:]
			continue
		}
		if len(in) == 1 {
			break
		}
		switch e := in[1]; e {
		case 'n', 'r', 't':
			out, in = append(out, map[byte]byte{'n': '\n', 'r': '\r', 't': '\t'}[e]), in[2:]
		case 'x', 'X':
			if len(in) < 4 {
				return string(out)
			}
			a, b := hex(in[2]), hex(in[3])
			if a < 0 || b < 0 {
				out, in = append(out, '\\'), in[1:]
			} else {
				out, in = append(out, byte(16*a+b)), in[4:]
			}
		default:
			out, in = append(out, e), in[2:]
		}
	}
	return string(out)
}

var apiParts = []string{"a", "Z", "0", " ", "\n", "\t", `\n`, `\r`, `\t`, `\\`, `\'`, `\"`, `\x41`, `\XfF`,
	`\x0a`, `\xg1`, `\x1`, `\xZZ`, `\q`, `\0`, "é", "世", `\x80`, `\xe9`, "%", "`", "{", "--", "//", "/*", "'", `"`}

func apiQuoted(s vSeed, max int) (out string, q string) {
	r := apiRand(s)
	for i := r.Intn(max + 1); i > 0; i-- {
		out += apiParts[r.Intn(len(apiParts))]
	}
	if r.Intn(5) == 0 {
		out += []string{`\`, `\x`, `\x4`, "\xff"}[r.Intn(4)]
	}
	return out, []string{"'", `"`}[r.Intn(2)]
}

// @contract: C15
// @covers: utils.Unquote
// @bounded
func C15_api_unquote(s vSeed) {
	in, q := apiQuoted(s, 5)
	lit := q + in + q
	vRequires(!(len(lit) >= 6 && strings.HasPrefix(lit, "'''")))
	vInfo("literal %q", lit)
	apiSame("decodes to what it denotes", apiText(apiDecoded(in)), apiText(utils.Unquote(lit)))
}

// @contract: C15
// @covers: utils.Unquote
// @bounded
func C15_api_literal(s vSeed) {
	in, q := apiQuoted(s, 4)
	// no bare quote of this kind, nor an escaped closing one
	bare := strings.Replace(in, `\\`, "", -1)
	bare = strings.Replace(bare, `\`+q, "", -1)
	vRequires(!strings.Contains(bare, q) && !strings.HasSuffix(bare, `\`) && in != "" && utf8.ValidString(in))
	lit := q + in + q
	vInfo("literal %q", lit)
	rows := apiNew().query("SELECT " + lit + " AS X FROM scope()")
	vEnsures("one row", len(rows) == 1)
	v, _ := apiNew().col(rows[0], "X")
	apiSame("decodes to what it denotes", apiText(apiDecoded(in)), apiText(v))
}

// @contract: C15
// @covers: utils.Unquote
// @bounded
func C15_api_verbatim(s vSeed) {
	in, _ := apiQuoted(s, 5)
	q := `'''`
	vRequires(!strings.Contains(in, q) && !strings.HasSuffix(in, "'"))
	vInfo("text %q", in)
	apiSame("kept by unquoting", apiText(in), apiText(utils.Unquote(q+in+q)))
	if utf8.ValidString(in) {
		rows := apiNew().query("SELECT " + q + in + q + " AS X FROM scope()")
		vEnsures("one row", len(rows) == 1)
		v, _ := apiNew().col(rows[0], "X")
		apiSame("taken verbatim", apiText(in), apiText(v))
	}
}

// @contract: C15
// @covers: utils.Unquote_ident
// @bounded
func C15_api_ident(s vSeed) {
	r := apiRand(s)
	name := ""
	for i := r.Intn(3) + 1; i > 0; i-- {
		name += []string{"a", "B", " ", "-", "1", ".", "select", "'", `"`, "世", "$", `\n`, `\`, "é", "(", "LET", "="}[r.Intn(17)]
	}
	vInfo("identifier %q", name)
	vEnsures("unquoted", utils.Unquote_ident("`"+name+"`") == name)
	rows := apiNew().query("SELECT 17 AS `" + name + "` FROM scope()")
	vEnsures("one row", len(rows) == 1)
	keys := apiNew().scope.GetMembers(rows[0])
	apiSame("the column has the name between the quotes", name, strings.Join(keys, "|"))
	if !strings.Contains(name, ".") {
		rows = apiNew().query("LET `" + name + "` = 18 SELECT `" + name + "` AS X FROM scope()")
		vEnsures("one row of the variable", len(rows) == 1)
		v, _ := apiNew().col(rows[0], "X")
		apiSame("the variable has the name between the quotes", "18", apiText(v))
	}
}
