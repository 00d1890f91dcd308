package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

// gone writes an element that must leave no trace
func gone(r *rand.Rand, secret string, extra []string) string {
	switch k := r.Intn(8 + 2*len(extra)); {
	case k == 0:
		return "<!-- " + secret + " -->"
	case k == 1:
		return "<script>" + secret + "</script>"
	case k == 2:
		return "<style>" + secret + "</style>"
	case k == 3:
		return `<link rel="x" href="` + secret + `">`
	case k == 4:
		return `<meta content="` + secret + `">`
	case k == 5:
		return "<iframe src=" + secret + ">" + secret + "</iframe>"
	case k == 6:
		return `<input value="` + secret + `">`
	case k == 7:
		return "<textarea>" + secret + "</textarea>"
	default:
		t := pick(r, extra...)
		return "<" + t + ">" + secret + "<b>" + secret + "</b></" + t + ">"
	}
}

func TestVerifC24Removed(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
		var extra []string
		for _, e := range []string{"foo-bar", "section", "span", "mark"} {
			switch r.Intn(4) {
			case 0: // removed: the earliest registration counts
				ps := distinctPrios(r, 2)
				if ps[0] > ps[1] {
					ps[0], ps[1] = ps[1], ps[0]
				}
				if r.Intn(2) == 0 {
					c.Register.TagType(e, converter.TagTypeRemove, ps[0])
					c.Register.TagType(e, converter.TagTypeBlock, ps[1])
				} else {
					c.Register.TagType(e, converter.TagTypeBlock, ps[1])
					c.Register.TagType(e, converter.TagTypeRemove, ps[0])
				}
				extra = append(extra, e)
			case 1: // kept
				ps := distinctPrios(r, 2)
				if ps[0] > ps[1] {
					ps[0], ps[1] = ps[1], ps[0]
				}
				c.Register.TagType(e, converter.TagTypeRemove, ps[1])
				c.Register.TagType(e, converter.TagTypeInline, ps[0])
			}
		}
		isGone := map[string]bool{}
		for _, e := range extra {
			isGone[e] = true
		}
		keepInput := r.Intn(3) == 0
		if keepInput {
			c.Register.RendererFor("noscript", converter.TagTypeInline, base.RenderAsPlaintextWrapper, converter.PriorityEarly)
		}
		word := 0
		var want []string
		var gen func(d int) string
		gen = func(d int) string {
			var b strings.Builder
			for k := r.Intn(5); k >= 0; k-- {
				switch {
				case r.Intn(2) == 0 || d == 0:
					if r.Intn(2) == 0 {
						b.WriteString(gone(r, "SECRET", extra))
						continue
					}
					word++
					w := fmt.Sprintf("w%dw", word)
					want = append(want, w)
					b.WriteString(w + " ")
				default:
					e := pick(r, "div", "p", "span", "section", "em", "b", "blockquote", "ul><li", "mark", "foo-bar", "a href=x", "h2", "ol><li")
					if isGone[e] {
						e = "div"
					}
					cl := "</" + strings.Fields(e)[0] + ">"
					if i := strings.Index(e, "><"); i >= 0 {
						cl = "</" + e[i+2:] + "></" + e[:i] + ">"
					}
					b.WriteString("<" + e + ">" + gen(d-1) + cl)
				}
			}
			return b.String()
		}
		body := gen(3)
		head := ""
		if r.Intn(2) == 0 {
			head = "<head><title>SECRET</title>" + gone(r, "SECRET", nil) + "</head>"
		}
		in := "<html>" + head + "<body>" + body + "</body></html>"
		got := convWith(c, in)
		if strings.Contains(got, "SECRET") {
			return fmt.Sprintf("HTML %q with removed tags %v converts to %q: removed content is left", in, extra, got)
		}
		rest := got
		for _, w := range want {
			i := strings.Index(rest, w)
			if i < 0 {
				return fmt.Sprintf("HTML %q with removed tags %v converts to %q: %q is lost", in, extra, got, w)
			}
			rest = rest[i+len(w):]
		}
		sample("c24", fmt.Sprintf("%q -> %q", in, got))
		return ""
	})
}

// removing nodes between texts leaves the text as if they were never there
func TestVerifC24Neighbours(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		var with, without strings.Builder
		with.WriteString("<p>x")
		without.WriteString("<p>x")
		for k := 1 + r.Intn(8); k > 0; k-- {
			if r.Intn(2) == 0 {
				for j := r.Intn(3); j >= 0; j-- {
					with.WriteString(gone(r, "SECRET", nil))
				}
			} else {
				s := pick(r, " ", "a", "b c", "  ", "\n", "1.", "*", "<b>q</b>", "<i> </i>", "#", "<br>", "<span></span>", "<code>k</code>")
				with.WriteString(s)
				without.WriteString(s)
			}
		}
		with.WriteString("y</p>")
		without.WriteString("y</p>")
		a, b := conv(with.String()), conv(without.String())
		if a != b {
			return fmt.Sprintf("HTML %q converts to %q, without the removed elements %q it is %q", with.String(), a, without.String(), b)
		}
		return ""
	})
}
