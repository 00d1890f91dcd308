package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

// lists, nested in any way: numbers, markers and indentation
func TestVerifC11Lists(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		return docCase(r, func(g *gen) (string, []string) {
			h, l, _ := g.list(r.Intn(4))
			return h, l
		})
	})
}

// two lists with nothing but markup between them stay two lists
func TestVerifC11Separate(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		list := func(w string) string {
			e := pick(r, "ul", "ol")
			s := "<" + e + "><li>" + w
			if r.Intn(3) == 0 {
				s += "<p>" + pick(r, "x", "<ul><li>y</li></ul>", "<blockquote>z</blockquote>") + "</p>"
			}
			return s + "</li></" + e + ">"
		}
		junk := func() string {
			return randFrom(r, []string{"", " ", "\n", "<!-- c -->", "<div></div>", "<span></span>", "<script>x</script>", "<style>p{}</style>", "<p> </p>", "<div><span> </span></div>", "<section>\n</section>"}, r.Intn(4))
		}
		a, b := list("first"), list("second")
		for k := r.Intn(3); k > 0; k-- {
			e := pick(r, "div", "section", "article")
			if r.Intn(2) == 0 {
				a = "<" + e + ">" + junk() + a + junk() + "</" + e + ">"
			} else {
				b = "<" + e + ">" + junk() + b + junk() + "</" + e + ">"
			}
		}
		src := a + junk() + b
		switch r.Intn(4) {
		case 0:
			src = "<blockquote>" + src + "</blockquote>"
		case 1:
			src = "<ul><li>item" + src + "</li></ul>"
		}
		out := conv(src)
		i, j := strings.Index(out, "first"), strings.Index(out, "second")
		if i < 0 || j < i || !strings.Contains(out[i:j], "<!--THE END-->") {
			return fmt.Sprintf("HTML %q converts to %q, where the two lists are not kept apart", src, out)
		}
		return ""
	})
}
