package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"unicode"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
)

// the delimiter hugs the text of every line that has any
func refDelim(s, d string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		m := strings.TrimFunc(l, unicode.IsSpace)
		if m == "" {
			continue
		}
		k := len(l) - len(strings.TrimLeftFunc(l, unicode.IsSpace))
		ls[i] = l[:k] + d + m + d + l[k+len(m):]
	}
	return strings.Join(ls, "\n")
}

func TestVerifC07Lines(t *testing.T) {
	alpha := []string{"a", "bc", " ", "  ", "\n", "\n", "\t", "\u00a0", "*", "é", "\u2003", "\r", "\xff", "中", "\xe2\x80", "\v", "\u0085", "\u2028", "\u2029", "\u1680", "\u3000", "\u205f", "x \n y"}
	vrun(t, func(r *rand.Rand) string {
		s, d := randFrom(r, alpha, r.Intn(10)), pick(r, "*", "**", "_", "__", "~~", "")
		lastInput = fmt.Sprintf("text %q delimiter %q", s, d)
		sample("l", lastInput)
		if got, want := string(textutils.DelimiterForEveryLine([]byte(s), []byte(d))), refDelim(s, d); got != want {
			return fmt.Sprintf("DelimiterForEveryLine(%q, %q) = %q, want %q", s, d, got, want)
		}
		return ""
	})
}

// emphasis in a conversion: over line breaks, paragraphs, nested and adjacent
func TestVerifC07Emphasis(t *testing.T) {
	mk := func(em, strong, strike string) *converter.Converter {
		return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter(em), commonmark.WithStrongDelimiter(strong)), strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(strike))))
	}
	delims := [][3]string{{"*", "**", "~~"}, {"_", "__", "~~"}, {"*", "__", "~"}}
	var cs []*converter.Converter
	for _, d := range delims {
		cs = append(cs, mk(d[0], d[1], d[2]))
	}
	vrun(t, func(r *rand.Rand) string {
		k := r.Intn(len(delims))
		kind := r.Intn(3)
		d := delims[k][kind]
		tags := [][]string{{"em", "i"}, {"strong", "b"}, {"del", "s", "strike"}}[kind]
		e := tags[r.Intn(len(tags))]
		wordy := func() string { return pick(r, "a", "b c", "d", "é", "x&amp;y", "中", "1 2 3", "(q)", "\u00a0", "\u2028", "") }
		var src, md string
		sp := pick(r, " ", "")
		switch r.Intn(9) {
		case 0: // line breaks, some lines blank
			var in, out []string
			for n := 1 + r.Intn(4); n > 0; n-- {
				w := wordy()
				in = append(in, w)
				out = append(out, strings.ReplaceAll(w, "&amp;", "&"))
			}
			body := strings.Join(in, "<br>")
			if !strings.ContainsAny(in[0], "abcdéx中12q") || !strings.ContainsAny(in[len(in)-1], "abcdéx中12q") || strings.Contains(body, "<br><br>") || strings.Contains(body, "\u00a0") {
				return ""
			}
			src = "<p>q <" + e + ">" + body + "</" + e + "> z</p>"
			for i := range out {
				out[i] = refDelim(out[i], d)
			}
			md = "q " + strings.Join(out, "  \n") + " z"
		case 1: // paragraphs inside
			src = "<" + e + "><p>one</p><p>two</p></" + e + ">"
			md = d + "one" + d + "\n\n" + d + "two" + d
		case 2: // spaces at the edges move outside
			src = "<p>q" + "<" + e + "> one two </" + e + ">z</p>"
			md = "q " + d + "one two" + d + " z"
		case 3: // nested
			f := tags[r.Intn(len(tags))]
			src = "<p>q <" + e + ">one <" + f + ">two</" + f + "> three</" + e + "> z</p>"
			md = "q " + d + "one two three" + d + " z"
		case 4: // adjacent
			src = "<p>q <" + e + ">one</" + e + ">" + sp + "<" + e + ">two</" + e + "> z</p>"
			md = "q " + d + "one" + sp + "two" + d + " z"
			if sp == " " {
				return ""
			}
		case 5: // empty or blank
			src = "<p>q <" + e + ">" + sp + "</" + e + ">z</p>"
			md = "q z"
		case 6: // a list and a quote inside
			src = "<blockquote><" + e + ">one<br>two</" + e + "></blockquote>"
			md = "> " + d + "one" + d + "  \n> " + d + "two" + d
		case 7: // another kind inside
			k2 := (kind + 1) % 2
			f, d2 := []string{"em", "strong"}[k2], delims[k][k2]
			if kind == 2 {
				return ""
			}
			src = "<p><" + e + ">one <" + f + ">two</" + f + "> three<br>four</" + e + "></p>"
			md = d + "one " + d2 + "two" + d2 + " three" + d + "  \n" + d + "four" + d
		case 8: // several in one paragraph, in a heading and a table cell
			src = "<h3><" + e + ">one</" + e + "> two <" + e + ">three</" + e + "></h3><p>a <" + e + ">b</" + e + ">, c</p>"
			md = "### " + d + "one" + d + " two " + d + "three" + d + "\n\na " + d + "b" + d + ", c"
		}
		out := convWith(cs[k], src)
		sample("e", src+" => "+out)
		if out != md {
			return fmt.Sprintf("HTML %q with delimiters %q converts to %q, expected %q", src, delims[k], out, md)
		}
		return ""
	})
}
