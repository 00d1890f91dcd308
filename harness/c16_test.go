package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"golang.org/x/net/html"
)

func isWS(b byte) bool { return b == ' ' || b == '\n' || b == '\r' || b == '\t' }

// collapseRef: what every text under n should be, with white space treated
// over the whole line and not per text
type colRef struct {
	block, void, pre func(n *html.Node) bool
	want             map[*html.Node]*strings.Builder
	pending          bool       // white space that counts if something follows
	pendAt           *html.Node // the text it began in
	something        bool       // something precedes in this line
}

func (c *colRef) boundary() { c.pending, c.something, c.pendAt = false, false, nil }
func (c *colRef) put() {
	if c.pending && c.something {
		c.want[c.pendAt].WriteByte(' ')
	}
	c.pending, c.pendAt = false, nil
	c.something = true
}
func (c *colRef) walk(n *html.Node) {
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		switch k.Type {
		case html.TextNode:
			c.want[k] = &strings.Builder{}
			for i := 0; i < len(k.Data); i++ {
				if isWS(k.Data[i]) {
					if !c.pending {
						c.pending, c.pendAt = true, k
					}
					continue
				}
				c.put()
				c.want[k].WriteByte(k.Data[i])
			}
		case html.ElementNode:
			switch {
			case c.block(k) || k.Data == "br":
				c.boundary()
				if !c.pre(k) {
					c.walk(k)
				}
				c.boundary()
			case c.void(k) || c.pre(k) || k.Data == "code":
				c.put()
				if !c.pre(k) {
					c.walk(k)
					c.put()
				}
			default:
				c.walk(k)
			}
		}
	}
}

func inList(l string) func(n *html.Node) bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(l) {
		m[x] = true
	}
	return func(n *html.Node) bool { return n.Type == html.ElementNode && m[n.Data] }
}

func texts(n *html.Node, f func(*html.Node)) {
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		if k.Type == html.TextNode {
			f(k)
		}
		texts(k, f)
	}
}

func TestVerifC16Collapse(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		var gen func(p *html.Node, d int)
		gen = func(p *html.Node, d int) {
			last := false
			for k := r.Intn(6); k > 0; k-- {
				if (d == 0 || r.Intn(2) == 0) && !last {
					s := randFrom(r, []string{" ", " ", "\n", "\t", "\r", "a", "b", "é", "\u00a0", "x y", "  ", "\v"}, 1+r.Intn(5))
					if r.Intn(4) == 0 {
						s = pick(r, " ", "  ", "\n ", " \t\n")
					}
					p.AppendChild(&html.Node{Type: html.TextNode, Data: s})
					last = true
					continue
				}
				last = false
				if r.Intn(8) == 0 {
					p.AppendChild(&html.Node{Type: html.CommentNode, Data: pick(r, "c", " c ", "")})
					continue
				}
				e := pick(r, "div", "p", "span", "b", "i", "img", "br", "code", "pre", "a", "li", "custom-x", "input", "kbd", "td", "hr")
				if r.Intn(4) == 0 {
					e = pick(r, "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "table", "tr", "th", "tbody", "thead", "tfoot", "blockquote", "section", "article", "aside", "address", "header", "footer", "main", "nav", "figure", "figcaption", "dl", "dt", "dd", "form", "fieldset", "wbr", "embed", "area", "samp", "var", "tt", "em", "strong", "label", "small", "sub", "u")
				}
				n := &html.Node{Type: html.ElementNode, Data: e}
				p.AppendChild(n)
				if e != "img" && e != "br" && e != "input" && e != "hr" && e != "wbr" && e != "embed" && e != "area" && d > 0 {
					gen(n, d-1)
				}
			}
		}
		root := &html.Node{Type: html.ElementNode, Data: pick(r, "div", "body", "p", "pre", "span")}
		gen(root, 1+r.Intn(4))
		custom := r.Intn(3) == 0
		ref := &colRef{want: map[*html.Node]*strings.Builder{},
			block: inList("div p li td pre hr body h1 h2 h3 h4 h5 h6 ul ol table tr th tbody thead tfoot blockquote section article aside address header footer main nav figure figcaption dl dt dd form fieldset"), void: inList("img br input hr wbr embed area"), pre: inList("pre code var samp kbd tt")}
		var fn *collapse.DomFuncs
		if custom {
			ref.block, ref.void, ref.pre = inList("div p custom-x"), inList("img"), inList("pre b")
			fn = &collapse.DomFuncs{IsBlockNode: ref.block, IsVoidNode: ref.void, IsPreformattedNode: ref.pre}
		}
		orig := map[*html.Node]string{}
		var order []*html.Node
		texts(root, func(n *html.Node) { orig[n] = n.Data; order = append(order, n) })
		var sb strings.Builder
		html.Render(&sb, root)
		lastInput = sb.String()
		if !ref.pre(root) {
			ref.walk(root)
		}
		collapse.Collapse(root, fn)
		var left []*html.Node
		texts(root, func(n *html.Node) { left = append(left, n) })
		alive := map[*html.Node]bool{}
		for _, n := range left {
			alive[n] = true
		}
		for _, n := range order {
			want := orig[n]
			if b := ref.want[n]; b != nil {
				want = b.String()
			}
			got := ""
			if alive[n] {
				got = n.Data
			}
			if got != want {
				return fmt.Sprintf("collapsing the white space of %q (own functions %v): the text %q became %q, want %q", lastInput, custom, orig[n], got, want)
			}
		}
		j := 0
		for _, n := range order {
			if j < len(left) && left[j] == n {
				j++
			}
		}
		if j != len(left) {
			return fmt.Sprintf("collapsing the white space of %q: the texts are out of order", lastInput)
		}
		return ""
	})
}

// the words of a line stay apart, and only by one space
func TestVerifC16Words(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		var b, flat strings.Builder
		b.WriteString("<p>")
		var open []string
		for k := 1 + r.Intn(14); k > 0; k-- {
			switch {
			case r.Intn(4) == 0 && len(open) < 3:
				e := pick(r, "span", "u", "small", "font", "label", "x-y")
				open = append(open, e)
				b.WriteString("<" + e + ">")
			case r.Intn(4) == 0 && len(open) > 0:
				b.WriteString("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
			case r.Intn(8) == 0:
				b.WriteString("<!-- c -->")
			case r.Intn(12) == 0:
				e := pick(r, "code", "kbd", "samp", "var", "tt")
				in := pick(r, "k", " k", "k ", "  k  ")
				b.WriteString("<" + e + ">" + in + "</" + e + ">")
				flat.WriteString("`k`")
				// two pieces of code next to each other are joined
				s := pick(r, " ", "w", "  w", "\n")
				b.WriteString(s)
				flat.WriteString(s)
			default:
				s := pick(r, " ", "  ", "\n", "\t ", "w", "wv", "é", "&nbsp;w", "w w", " w")
				b.WriteString(s)
				flat.WriteString(strings.ReplaceAll(s, "&nbsp;", "\u00a0"))
			}
		}
		for len(open) > 0 {
			b.WriteString("</" + open[len(open)-1] + ">")
			open = open[:len(open)-1]
		}
		in := b.String() + "</p>"
		want := tidy(flat.String())
		if strings.Contains(want, "` `") {
			return ""
		}
		got := conv(in)
		if got != strings.TrimSpace(want) {
			return fmt.Sprintf("HTML %q converts to %q, want %q", in, got, want)
		}
		return ""
	})
}
