package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
)

// blocks are separated by exactly one blank line, whatever is around them
func TestVerifC13Doc(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		return docCase(r, func(g *gen) (string, []string) {
			h, l := g.blocks(r.Intn(4))
			for n := r.Intn(4); n > 0; n-- {
				h2, l2 := g.blocks(r.Intn(2))
				h, l = h+g.ws()+pick(r, "<div></div>", "<p></p>", "<div><p> </p></div>", "<section>\n</section>")+"<p>wzz</p>"+h2, append(append(append(l, "", "wzz", ""), []string{}...), l2...)
			}
			return h, l
		})
	})
}

// no run of blank lines, nothing before the first and after the last line
func TestVerifC13Shape(t *testing.T) {
	full := fullConv()
	tags := []string{"p", "div", "br", "hr", "ul", "li", "ol", "blockquote", "h2", "em", "span", "table", "tr", "td", "a", "img", "section", "dl", "dt", "dd", "article", "strong", "code", "u", "figure", "figcaption", "button", "label"}
	vrun(t, func(r *rand.Rand) string {
		src := randFrom(r, []string{"", "a", " ", "\n", "\n\n", "b", "\t"}, 3)
		var open []string
		for n := r.Intn(16); n > 0; n-- {
			switch r.Intn(3) {
			case 0:
				src += pick(r, "a", " ", "\n", "b c", "\n\n\n", "<br>", "<br>\n<br>", "&nbsp;", "x")
			case 1:
				e := tags[r.Intn(len(tags))]
				src += "<" + e + ">"
				if e != "br" && e != "hr" && e != "img" {
					open = append(open, e)
				}
			default:
				if len(open) > 0 {
					src += "</" + open[len(open)-1] + ">"
					open = open[:len(open)-1]
				}
			}
		}
		out := convWith(full, src)
		sample("s", src+" => "+out)
		if strings.HasPrefix(out, "ERROR") || out != strings.TrimSpace(out) {
			return fmt.Sprintf("HTML %q converts to %q", src, out)
		}
		blank := 0
		for _, l := range strings.Split(out, "\n") {
			if strings.Trim(l, " ") == "" {
				blank++
			} else {
				blank = 0
			}
			if blank > 1 {
				return fmt.Sprintf("HTML %q converts to %q, which has two blank lines in a row", src, out)
			}
		}
		return ""
	})
}

// newlines after another, with or without spaces between, are at most two; the rest is kept
func TestVerifC13Newlines(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		s := randFrom(r, []string{"a", "b", "\n", "\n", "\n", " ", "  ", "\t", "é", "\r", "\xff", "\n\n\n", "\x00"}, r.Intn(12))
		lastInput = fmt.Sprintf("%q", s)
		sample("n", s)
		got := string(textutils.TrimConsecutiveNewlines([]byte(s)))
		var want, sp strings.Builder
		nl := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '\n':
				nl++
				if nl <= 2 {
					want.WriteString(sp.String())
					want.WriteByte('\n')
				}
				sp.Reset()
			case ' ':
				sp.WriteByte(' ')
			default:
				nl = 0
				want.WriteString(sp.String())
				sp.Reset()
				want.WriteByte(s[i])
			}
		}
		want.WriteString(sp.String())
		if got != want.String() {
			return fmt.Sprintf("TrimConsecutiveNewlines(%q) = %q, want %q", s, got, want.String())
		}
		return ""
	})
}

func TestVerifC13HardBreaks(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		s := randFrom(r, []string{"a", "\n", "  \n", "  \n", "\n\n", " ", "  ", "é", "\t"}, r.Intn(10))
		lastInput = fmt.Sprintf("%q", s)
		got := string(textutils.TrimUnnecessaryHardLineBreaks([]byte(s)))
		want := strings.ReplaceAll(s, "  \n\n", "\n\n")
		want = strings.ReplaceAll(want, "  \n  \n", "\n\n")
		want = strings.ReplaceAll(want, "  \n \n", "\n\n")
		if got != want {
			return fmt.Sprintf("TrimUnnecessaryHardLineBreaks(%q) = %q, want %q", s, got, want)
		}
		return ""
	})
}
