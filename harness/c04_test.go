package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

func longestRun(s string, c byte) int {
	n := 0
	for strings.Contains(s, strings.Repeat(string(c), n+1)) {
		n++
	}
	return n
}

func TestVerifC04Fence(t *testing.T) {
	alpha := []string{"`", "``", "```", "~", "~~~", "a", " ", "\n", "é", "\u2028", "\xff", "``````````"}
	vrun(t, func(r *rand.Rand) string {
		s := randFrom(r, alpha, r.Intn(9))
		if r.Intn(50) == 0 {
			s += strings.Repeat("`", 5000+r.Intn(100)) + "x`"
		}
		c := rune(pick(r, "`", "~")[0])
		lastInput = fmt.Sprintf("fence %q content %q", c, s)
		sample("f", lastInput)
		if n := textutils.CalculateCodeFenceOccurrences(c, s); n != longestRun(s, byte(c)) {
			return fmt.Sprintf("longest run of %q in %q counted as %d", c, s, n)
		}
		f := textutils.CalculateCodeFence(c, s)
		if f != strings.Repeat(string(c), max(3, longestRun(s, byte(c))+1)) {
			return fmt.Sprintf("content %q with fence character %q gets the fence %q", s, c, f)
		}
		return ""
	})
}

// whole conversion of a code block: the fence encloses exactly the content
func TestVerifC04Block(t *testing.T) {
	alpha := []string{"`", "``", "```", "~", "~~~", "a", "b ", "\n", "é", "````", "    ", "# x", "* y"}
	tick, tilde := newConv(), newConv(commonmark.WithCodeBlockFence("~~~"))
	vrun(t, func(r *rand.Rand) string {
		s := randFrom(r, alpha, 1+r.Intn(9))
		if strings.TrimSpace(s) == "" {
			return ""
		}
		c, fc := tick, byte('`')
		if r.Intn(2) == 0 {
			c, fc = tilde, '~'
		}
		src := "<pre><code>" + hesc("x"+s+"x") + "</code></pre>"
		out := convWith(c, src)
		sample("b", src+" => "+out)
		f := strings.Repeat(string(fc), max(3, longestRun(s, fc)+1))
		if want := f + "\n" + "x" + s + "x\n" + f; out != want {
			return fmt.Sprintf("HTML %q converts to %q, expected %q", src, out, want)
		}
		return ""
	})
}
