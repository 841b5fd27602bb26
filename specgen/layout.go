package specgen

import (
	"math/rand/v2"
	"strings"
)

// Layout. To the language, blanks, line ends and comments between two tokens
// are all the same; to the lexer, which is made of Go's, a line end after
// many tokens is a semicolon.

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// tokens of a specification, without its comments.
func tokens(src string) []string {
	var r []string
	for i := 0; i < len(src); {
		switch rest := src[i:]; {
		case strings.HasPrefix(rest, "/*"):
			i += 4 + strings.Index(rest[2:], "*/")
		case strings.HasPrefix(rest, "//"):
			i += strings.IndexByte(rest+"\n", '\n')
		case word(src[i]):
			j := i
			for j < len(src) && word(src[j]) {
				j++
			}
			r = append(r, src[i:j])
			i = j
		case strings.IndexByte(" \t\r\n", src[i]) >= 0:
			i++
		default:
			r = append(r, src[i:i+1])
			i++
		}
	}
	return r
}

var gaps = [][]string{
	{" ", " ", " ", "\n", "\n\t", "\t"},
	{"\n"},
	{"", "", "", " "},
	{"\r\n", " ", "\r\n\t", " // note;\r\n", "/* of two\r\n * lines */"},
	{" ", "\n", " // note; }\n", "/* note */", "/* of two\n * lines; */", "\n\n\n", "", " /**/ ", "//\n"},
}

// relayout writes the same tokens in another way.
func relayout(r *rand.Rand, defs []string) {
	g := gaps[r.IntN(len(gaps))]
	long := -2 // a line longer than usual buffers
	if r.IntN(12) == 0 {
		long = r.IntN(100)
	}
	gap := func(must bool) string {
		if long--; long == -1 {
			return strings.Repeat(" ", 66000)
		}
		s := g[r.IntN(len(g))]
		if must && s == "" {
			return " "
		}
		return s
	}
	for i, d := range defs {
		var b strings.Builder
		prev := ""
		for _, t := range tokens(d) {
			// A division is not part of the language: nothing but words can run together.
			b.WriteString(gap(prev != "" && word(prev[0]) && word(t[0])))
			b.WriteString(t)
			prev = t
		}
		b.WriteString(gap(true))
		defs[i] = b.String()
	}
}
