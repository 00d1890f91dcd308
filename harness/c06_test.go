package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"
)

var spaces2 = regexp.MustCompile("  +")

// what inline code shows: on one line, runs of spaces as one, none around it
func codeText(s string) string {
	s = strings.NewReplacer("\n", " ", "\r", " ").Replace(s)
	if strings.TrimSpace(s) == "" {
		return s
	}
	s = strings.TrimSpace(strings.ReplaceAll(s, "\t", " "))
	return spaces2.ReplaceAllString(s, " ")
}

// a code span with that text
func codeSpan(s string) string {
	s = codeText(s)
	if strings.TrimSpace(s) == "" {
		return "`" + s + "`"
	}
	f := strings.Repeat("`", longestRun(s, '`')+1)
	if s[0] == '`' || s[len(s)-1] == '`' {
		s = " " + s + " "
	}
	return f + s + f
}

var inlineAlpha = []string{"a", "bc", "`", "``", "`", "```", " ", "  ", "\n", "\n\n", "\t", "*", "_", "\\", "<b>", "&amp;", "[x](y)", "é", "\u00a0", "\u2028", "#", "|", "~", "\\`", "  \n", "&#13;", "$", "!["}

func TestVerifC06Inline(t *testing.T) {
	plain, full := newConv(), fullConv()
	vrun(t, func(r *rand.Rand) string {
		s := randFrom(r, inlineAlpha, 1+r.Intn(8))
		if r.Intn(3) > 0 {
			s = pick(r, "x", "`", "`x", "x`") + s + pick(r, "x", "`", "`x", "x`")
		}
		if strings.TrimSpace(codeText(strings.ReplaceAll(s, "&#13;", "\r"))) == "" {
			return ""
		}
		e := pick(r, "code", "code", "var", "samp", "kbd", "tt")
		if e != "code" {
			s = strings.TrimSpace(s)
			if strings.HasPrefix(s, "&#13;") || strings.HasSuffix(s, "&#13;") {
				return ""
			}
		}
		in := strings.ReplaceAll(hesc(s), "&amp;#13;", "&#13;")
		s = strings.ReplaceAll(s, "&#13;", "\r")
		span := "<" + e + ">" + in + "</" + e + ">"
		want := codeSpan(s)
		show := "<code>" + esc(codeText(s)) + "</code>"
		c := plain
		src, md, h := "", "", ""
		switch pick(r, "p", "p", "h2", "li", "bq", "em", "a", "end", "two", "tags") {
		case "p":
			src, md, h = "<p>q "+span+" z</p>", "q "+want+" z", "<p>q "+show+" z</p>\n"
		case "end":
			src, md, h = "<p>"+span+"</p>", want, ""
		case "two":
			src, md, h = "<p>"+span+" - "+span+"</p>", want+" - "+want, "<p>"+show+" - "+show+"</p>\n"
		case "h2":
			if spaces2.MatchString(want) || strings.Contains(want, "\u00a0") {
				return ""
			}
			src, md, h = "<h2>q "+span+" z</h2>", "## q "+want+" z", "<h2>q "+show+" z</h2>\n"
		case "li":
			src, md, h = "<ul><li>q "+span+" z</li></ul>", "- q "+want+" z", "<ul>\n<li>q "+show+" z</li>\n</ul>\n"
		case "bq":
			src, md, h = "<blockquote>q "+span+" z</blockquote>", "> q "+want+" z", "<blockquote>\n<p>q "+show+" z</p>\n</blockquote>\n"
		case "em":
			src, md, h = "<p>q <em>y "+span+" z</em></p>", "q *y "+want+" z*", "<p>q <em>y "+show+" z</em></p>\n"
		case "a":
			src, md, h = `<p>q <a href="/u">y `+span+" z</a></p>", "q [y "+want+" z](/u)", `<p>q <a href="/u">y `+show+" z</a></p>\n"
		case "tags":
			c = full
			src, md, h = "<p>q <"+e+"><span>"+in+"</span><b></b></"+e+"> z</p>", "q "+want+" z", "<p>q "+show+" z</p>\n"
		}
		out := convWith(c, src)
		sample("i", src+" => "+out)
		if out != md {
			return fmt.Sprintf("HTML %q converts to %q, expected %q", src, out, md)
		}
		if h == "" || strings.Contains(s, "\u00a0") || strings.Contains(s, "\u2028") {
			return ""
		}
		if got := mdHTML(out); got != h {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q", src, out, got)
		}
		return ""
	})
}
