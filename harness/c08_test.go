package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

func headLine(r *rand.Rand) string {
	s := randLine(r)
	switch r.Intn(6) {
	case 0:
		s = tidy(s + pick(r, "#", " #", " ##", "###", `\#`, ` \#`, " # #", "##", " \\\\#", "a#", "#\\"))
	case 1:
		s = tidy(pick(r, "#", "# ", "1. ", "- ", "=== ", "> ", "+ ") + s)
	}
	return s
}

// any text in a heading reads back as that text in a heading of that level
func TestVerifC08Text(t *testing.T) {
	atx, setext := newConv(), newConv(commonmark.WithHeadingStyle("setext"))
	vrun(t, func(r *rand.Rand) string {
		level := 1 + r.Intn(6)
		s := headLine(r)
		c, name := atx, "atx"
		if r.Intn(3) == 0 {
			c, name = setext, "setext"
		}
		src := fmt.Sprintf("<h%d>%s</h%d>", level, hesc(s), level)
		want := fmt.Sprintf("<h%d>%s</h%d>\n", level, esc(s), level)
		switch r.Intn(4) {
		case 0:
			src, want = "<p>q</p>"+src+"<p>z</p>", "<p>q</p>\n"+want+"<p>z</p>\n"
		case 1:
			src, want = "<blockquote>"+src+"<p>z</p></blockquote>", "<blockquote>\n"+want+"<p>z</p>\n</blockquote>\n"
		case 2:
			src, want = "<ul><li>"+src+"<p>z</p></li></ul>", "<ul>\n<li>\n"+want+"<p>z</p>\n</li>\n</ul>\n"
		}
		out := convWith(c, src)
		sample("h", src+" => "+out)
		if name == "setext" && level < 3 && (reFence.MatchString(s) || strings.HasPrefix(s, ">")) {
			return ""
		}
		if got := mdHTML(out); got != want {
			return fmt.Sprintf("%s: HTML %q converts to %q, which CommonMark reads as %q", name, src, out, got)
		}
		return ""
	})
}

// the shape: one line for atx, an underline as wide as the text for setext
func TestVerifC08Shape(t *testing.T) {
	mk := func(style string, off bool) *converter.Converter {
		o := commonmark.WithHeadingStyle("atx")
		if style == "setext" {
			o = commonmark.WithHeadingStyle("setext")
		}
		p := converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(o))
		if off {
			return converter.NewConverter(p, converter.WithEscapeMode("disabled"))
		}
		return converter.NewConverter(p)
	}
	convs := map[string]*converter.Converter{"atx": mk("atx", false), "setext": mk("setext", false), "atxoff": mk("atx", true), "setextoff": mk("setext", true)}
	vrun(t, func(r *rand.Rand) string {
		level := 1 + r.Intn(6)
		n := 1 + r.Intn(3)
		var lines, in []string
		for i := 0; i < n; i++ {
			l := pick(r, "one", "two three", "é中x", "a", "four five six seven", "x # y", "a - b", "#hash#b")
			lines = append(lines, l)
			in = append(in, l)
		}
		sep := pick(r, "<br>", "<br>", "<br><br>", "</div><div>", "&#13;", "\n", "</p><p>")
		body := strings.Join(in, sep)
		if sep == "</div><div>" {
			body = "<div>" + body + "</div>"
		}
		if sep == "</p><p>" {
			body = "<p>" + body + "</p>"
		}
		style := pick(r, "atx", "setext", "atxoff", "setextoff")
		src := fmt.Sprintf("<h%d>%s</h%d>", level, body, level)
		out := convWith(convs[style], src)
		sample("s", src+" => "+out)
		bad := func(want string) string {
			return fmt.Sprintf("%s: HTML %q converts to %q, expected %s", style, src, out, want)
		}
		if strings.HasPrefix(style, "atx") || level >= 3 {
			if want := strings.Repeat("#", level) + " " + strings.Join(lines, " "); out != want {
				return bad(fmt.Sprintf("%q", want))
			}
			return ""
		}
		ls := strings.Split(out, "\n")
		u := ls[len(ls)-1]
		ch := "="
		if level == 2 {
			ch = "-"
		}
		width := 3
		for _, l := range ls[:len(ls)-1] {
			if strings.TrimSpace(l) == "" {
				return bad("no blank line inside")
			}
			width = max(width, len([]rune(l)))
		}
		if u != strings.Repeat(ch, width) {
			return bad(fmt.Sprintf("an underline of %d characters %q", width, ch))
		}
		if got := tidy(strings.NewReplacer("\\", "").Replace(strings.Join(ls[:len(ls)-1], " "))); got != strings.Join(lines, " ") {
			return bad("the text of the heading")
		}
		if got := mdHTML(out); strings.Count(got, "<h") != 1 || !strings.HasPrefix(got, fmt.Sprintf("<h%d>", level)) {
			return bad("one heading")
		}
		return ""
	})
}

// a paragraph interrupted by blank lines is kept together
func TestVerifC08Lines(t *testing.T) {
	alpha := []string{"a", "b c", " ", "  ", "\n", "\n", "\n\n", "é", "\t", "  \n", "x\n", "\u00a0"}
	vrun(t, func(r *rand.Rand) string {
		s := randFrom(r, alpha, r.Intn(9))
		lastInput = fmt.Sprintf("EscapeMultiLine(%q)", s)
		got := string(textutils.EscapeMultiLine([]byte(s)))
		ls := strings.Split(s, "\n")
		want := s
		if len(ls) > 1 {
			want = ""
			for i, l := range ls {
				tr := strings.TrimLeft(l, " \t\n\v\f\r\u0085\u00a0\u2003\u2028")
				switch {
				case strings.TrimSpace(l) == "":
					want += "\\\n"
				case i == len(ls)-1:
					want += tr
				case strings.HasSuffix(tr, "  "):
					want += tr + "\n"
				default:
					want += tr + "  \n"
				}
			}
		}
		if got != want {
			return fmt.Sprintf("EscapeMultiLine(%q) = %q, want %q", s, got, want)
		}
		return ""
	})
}
