package htmltomarkdown_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"golang.org/x/net/html"
)

// the ready-made renderers, on elements with any content
func TestVerifC27Wrappers(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		c := newConv()
		tag := pick(r, "video", "svg-x", "section", "footer", "mark", "kbd-x")
		block := r.Intn(2) == 0
		kind := r.Intn(3)
		fn := []converter.HandleRenderFunc{base.RenderAsHTML, base.RenderAsHTMLWrapper, base.RenderAsPlaintextWrapper}[kind]
		prio := []int{converter.PriorityEarly, converter.PriorityStandard - 1, 0, -7}[r.Intn(4)]
		if block {
			c.Register.RendererFor(tag, converter.TagTypeBlock, fn, prio)
		} else {
			c.Register.RendererFor(tag, converter.TagTypeInline, fn, prio)
		}
		var gen func(d int) (string, string)
		gen = func(d int) (string, string) {
			switch r.Intn(4) {
			case 0:
				return "<b>b</b>", "**b**"
			case 1:
				return "<i>j</i>", "*j*"
			default:
				return "t", "t"
			}
		}
		hin, hmd := "", ""
		for k := r.Intn(3); k >= 0; k-- {
			a, b := gen(2)
			if k > 0 {
				a, b = a+" ", b+" "
			}
			hin += a
			hmd += b
		}
		attr := pick(r, "", ` class="k"`, ` data-x="1 2" id="y"`)
		el := "<" + tag + attr + ">" + hin + "</" + tag + ">"
		in := "<div>before " + el + " after</div>"
		got := convWith(c, in)
		inner := ""
		switch kind {
		case 0:
			doc, _ := html.Parse(strings.NewReader(el))
			var b bytes.Buffer
			html.Render(&b, doc.FirstChild.FirstChild.NextSibling.FirstChild)
			inner = b.String()
			if block {
				inner = "\n\n" + inner + "\n\n"
			} else {
				inner = " " + inner + " "
			}
		case 1:
			inner = "<" + tag + ">\n\n" + hmd + "\n\n</" + tag + ">"
			if !block {
				inner = " " + inner + " "
			}
		default:
			if block {
				inner = "\n\n" + hmd + "\n\n"
			} else {
				inner = " " + hmd + " "
			}
		}
		want := "before" + inner + "after"
		if got != want {
			return fmt.Sprintf("HTML %q with %q rendered by renderer %d as block=%v: got %q, want %q", in, tag, kind, block, got, want)
		}
		return ""
	})
}

// breaks and rules, and elements nobody knows
func TestVerifC27Simple(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		unk := pick(r, "foo", "x-y", "blink", "font", "span", "label", "u")
		blk := pick(r, "div", "section", "article", "main", "aside", "header", "form", "fieldset", "address", "nav")
		n := r.Intn(4)
		open, cl := "", ""
		for k := 0; k < n; k++ {
			open += "<" + unk + ">"
			cl += "</" + unk + ">"
		}
		switch r.Intn(4) {
		case 0:
			in := "<p>a" + open + "<br>" + cl + "b</p>"
			if got := conv(in); got != "a  \nb" {
				return fmt.Sprintf("HTML %q converts to %q, want %q", in, got, "a  \nb")
			}
		case 1:
			in := "<div>a<hr>b</div>"
			if r.Intn(2) == 0 {
				in = "<" + blk + ">a</" + blk + "><hr><" + blk + ">b</" + blk + ">"
			}
			if got := conv(in); got != "a\n\n* * *\n\nb" {
				return fmt.Sprintf("HTML %q converts to %q", in, got)
			}
		case 2:
			in := "<p>a " + open + "b <b>c</b>" + cl + " d</p>"
			if got := conv(in); got != "a b **c** d" {
				return fmt.Sprintf("HTML %q converts to %q", in, got)
			}
		default:
			open, cl = "", ""
			for k := 0; k <= n; k++ {
				open += "<" + blk + ">"
				cl += "</" + blk + ">"
			}
			if blk == "form" {
				return ""
			}
			in := "a" + open + "b <b>c</b>" + cl + "d"
			if got := conv(in); got != "a\n\nb **c**\n\nd" {
				return fmt.Sprintf("HTML %q converts to %q", in, got)
			}
		}
		return ""
	})
}
