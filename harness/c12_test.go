package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
)

// block quotes around any blocks: the prefix stands on every line
func TestVerifC12Quotes(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		return docCase(r, func(g *gen) (string, []string) {
			h, l := g.blocks(r.Intn(4))
			for n := 1 + r.Intn(2); n > 0; n-- {
				h, l = "<blockquote>"+h+"</blockquote>", prefixLines(l, "> ", "> ")
			}
			return h, l
		})
	})
}

func TestVerifC12Prefix(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		s, p := randFrom(r, []string{"a", "\n", "\n", " ", "\xff", "é", "\r", "\x00", ">"}, r.Intn(9)), pick(r, "> ", ">", "", "\n", "é ")
		if r.Intn(300) == 0 {
			s = strings.Repeat(s, 200+r.Intn(2000))
		}
		lastInput = fmt.Sprintf("PrefixLines(%q, %q)", s, p)
		if got, want := string(textutils.PrefixLines([]byte(s), []byte(p))), p+strings.ReplaceAll(s, "\n", "\n"+p); got != want {
			return fmt.Sprintf("PrefixLines(%q, %q) = %q, want %q", s, p, got, want)
		}
		return ""
	})
}

// literal text inside a quote is still text
func TestVerifC12Text(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		l := randLine(r)
		src := "<blockquote>" + hesc(l) + "</blockquote>"
		if r.Intn(2) == 0 {
			src = "<blockquote><p>q</p>" + hesc(l) + "</blockquote>"
		}
		out := conv(src)
		if openDefect([]string{l}) {
			return ""
		}
		want := "<blockquote>\n<p>" + esc(l) + "</p>\n</blockquote>\n"
		if strings.Contains(src, "<p>q") {
			want = strings.Replace(want, "<p>", "<p>q</p>\n<p>", 1)
		}
		if got := mdHTML(out); got != want {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q", src, out, got)
		}
		return ""
	})
}
