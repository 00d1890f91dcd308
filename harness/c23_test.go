package htmltomarkdown_test

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"unicode"

	"github.com/JohannesKaufmann/dom"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
	"golang.org/x/net/html"
)

// ------------------------------------------------------------ random trees

var treeBlocks = []string{"div", "p", "blockquote", "ul", "ol", "li", "h1", "h2", "pre", "section", "table", "h6", "article", "dl"}
var treeInline = []string{"b", "strong", "i", "em", "a", "span", "span", "code", "var", "kbd", "tt", "samp", "u", "x-y"}

type treeGen struct {
	r *rand.Rand
	n int
}

func (g *treeGen) text() string {
	g.n++
	w := fmt.Sprintf("w%d", g.n)
	switch g.r.Intn(8) {
	case 0:
		return pick(g.r, " ", "\n", "\t ", "")
	case 1:
		return " " + w
	case 2:
		return w + " "
	case 3:
		return w + " \n" + w + "\u00a0"
	case 4:
		return "\u00a0" // not white space
	}
	return w
}

func (g *treeGen) node(d int) *html.Node {
	switch k := g.r.Intn(12); {
	case d <= 0 || k < 3:
		if g.r.Intn(8) == 0 {
			return &html.Node{Type: html.CommentNode, Data: pick(g.r, "c", "THE END", "")}
		}
		return &html.Node{Type: html.TextNode, Data: g.text()}
	case k == 3:
		return &html.Node{Type: html.ElementNode, Data: pick(g.r, "br", "img", "hr", "br")}
	default:
		name := pick(g.r, treeInline...)
		if k < 8 {
			name = pick(g.r, treeBlocks...)
		}
		n := &html.Node{Type: html.ElementNode, Data: name}
		if g.r.Intn(3) == 0 {
			n.Attr = []html.Attribute{{Key: "id", Val: fmt.Sprint(g.n)}}
		}
		for c := g.r.Intn(5); c > 0; c-- {
			n.AppendChild(g.node(d - 1))
		}
		return n
	}
}

func (g *treeGen) doc() *html.Node {
	d := &html.Node{Type: html.DocumentNode}
	b := &html.Node{Type: html.ElementNode, Data: "body"}
	d.AppendChild(b)
	for c := 1 + g.r.Intn(5); c > 0; c-- {
		b.AppendChild(g.node(1 + g.r.Intn(5)))
	}
	return d
}

func showTree(n *html.Node) string {
	switch n.Type {
	case html.TextNode:
		return fmt.Sprintf("%q", n.Data)
	case html.CommentNode:
		return "<!--" + n.Data + "-->"
	}
	s := "<" + n.Data + ">"
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += showTree(c)
	}
	return s + "</" + n.Data + ">"
}

func badLinks(n *html.Node) string {
	var prev *html.Node
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Parent != n || c.PrevSibling != prev {
			return "a node is linked inconsistently"
		}
		if m := badLinks(c); m != "" {
			return m
		}
		prev = c
	}
	if n.LastChild != prev {
		return "the last child is not the last one"
	}
	return ""
}

func walk(n *html.Node, f func(*html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		walk(c, f)
	}
}

func allText(n *html.Node) string {
	var sb strings.Builder
	walk(n, func(c *html.Node) {
		if c.Type == html.TextNode {
			sb.WriteString(c.Data)
		}
	})
	return sb.String()
}

func blackText(s string) string { return strings.Join(strings.Fields(s), "") }
func isSpaceRune(c rune) bool {
	return unicode.IsSpace(c)
}

func inside(n *html.Node, names ...string) *html.Node {
	for p := n.Parent; p != nil; p = p.Parent {
		for _, x := range names {
			if p.Type == html.ElementNode && p.Data == x {
				return p
			}
		}
	}
	return nil
}

func named(n *html.Node, names ...string) bool {
	if n == nil || n.Type != html.ElementNode {
		return false
	}
	for _, x := range names {
		if n.Data == x {
			return true
		}
	}
	return false
}

var nBold = []string{"b", "strong"}
var nItalic = []string{"i", "em"}
var nEmph = []string{"b", "strong", "i", "em"}
var nCode = []string{"code", "var", "samp", "kbd", "tt"}

func is(names []string) func(*html.Node) bool {
	return func(n *html.Node) bool { return named(n, names...) }
}
func both(names ...[]string) func(a, b *html.Node) bool {
	return func(a, b *html.Node) bool {
		for _, l := range names {
			if named(a, l...) && named(b, l...) {
				return true
			}
		}
		return false
	}
}

// the block a character stands in, and whether it is emphasized or code
type where struct {
	block *html.Node
	mark  bool
}

func places(doc *html.Node, names []string) (r []where) {
	walk(doc, func(c *html.Node) {
		if c.Type != html.TextNode {
			return
		}
		b := c.Parent
		for b.Parent != nil && !dom.NameIsBlockNode(b.Data) {
			b = b.Parent
		}
		for _, x := range c.Data {
			if !isSpaceRune(x) {
				r = append(r, where{b, inside(c, names...) != nil})
			}
		}
	})
	return r
}

func samePlaces(a, b []where) string {
	if len(a) != len(b) {
		return "text is missing"
	}
	for i := range a {
		if a[i].block != b[i].block {
			return "a text ended up in another block"
		}
		if a[i].mark != b[i].mark {
			return "a text lost or got an emphasis (or code)"
		}
	}
	return ""
}

type snap struct{ n, parent, prev, next, first, last *html.Node }

func shape(doc *html.Node) (r []snap) {
	walk(doc, func(n *html.Node) {
		r = append(r, snap{n, n.Parent, n.PrevSibling, n.NextSibling, n.FirstChild, n.LastChild})
	})
	return r
}

func sameShape(a, b []snap) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func blankNode(n *html.Node) bool {
	return n.Type == html.TextNode && strings.TrimSpace(n.Data) == ""
}

// ------------------------------------------------------------ one step at a time

func TestVerifC23Steps(t *testing.T) {
	ctx := context.Background()
	vrun(t, func(r *rand.Rand) string {
		g := &treeGen{r: r}
		doc := g.doc()
		lastInput = showTree(doc)
		in := lastInput
		step := pick(r, "fakespan", "redundant", "redundantlink", "merge", "mergecode", "emptycode", "swap", "swaplink", "space", "alternatives", "lists", "texts", "comments")
		before, shapeBefore := allText(doc), shape(doc)
		texts := map[*html.Node]string{}
		names := map[*html.Node]string{}
		walk(doc, func(n *html.Node) {
			if n.Type == html.TextNode {
				texts[n] = n.Data
			}
			names[n] = n.Data
		})
		var order []*html.Node
		walk(doc, func(n *html.Node) { order = append(order, n) })
		bad := func(f string, a ...any) string {
			return fmt.Sprintf("%s of %s gave %s: %s", step, in, showTree(doc), fmt.Sprintf(f, a...))
		}
		sameText := func() string {
			if x := allText(doc); x != before {
				return bad("the text %q became %q", before, x)
			}
			if m := badLinks(doc); m != "" {
				return bad("%s", m)
			}
			return ""
		}
		switch step {
		case "fakespan":
			domutils.RenameFakeSpans(ctx, doc)
			if m := sameText(); m != "" {
				return m
			}
			if !sameShape(shapeBefore, shape(doc)) {
				return bad("nodes moved")
			}
			for _, n := range order {
				has := false
				walk(n, func(c *html.Node) { has = has || c.Type == html.ElementNode && dom.NameIsBlockNode(names[c]) })
				want := names[n]
				if n.Type == html.ElementNode && want == "span" && has {
					want = "div"
				}
				if n.Data != want {
					return bad("%s became %s", names[n], n.Data)
				}
			}
		case "redundant", "redundantlink":
			f := both(nBold, nItalic)
			l := nEmph
			if step == "redundantlink" {
				f, l = both([]string{"a"}), []string{"a"}
			}
			p := places(doc, l)
			domutils.RemoveRedundant(doc, f)
			if m := sameText(); m != "" {
				return m
			}
			if m := samePlaces(p, places(doc, l)); m != "" {
				return bad("%s", m)
			}
			m := ""
			walk(doc, func(n *html.Node) {
				for q := n.Parent; q != nil; q = q.Parent {
					if f(n, q) {
						m = "still nested"
					}
				}
			})
			left := map[*html.Node]bool{}
			walk(doc, func(n *html.Node) { left[n] = true })
			for _, n := range order {
				if !left[n] && !named(n, l...) {
					m = "removed a " + n.Data
				}
			}
			if m != "" {
				return bad("%s", m)
			}
		case "merge", "mergecode":
			l := nEmph
			if step == "mergecode" {
				l = nCode
			}
			p := places(doc, l)
			domutils.MergeAdjacent(doc, is(l))
			if m := sameText(); m != "" {
				return m
			}
			if m := samePlaces(p, places(doc, l)); m != "" {
				return bad("%s", m)
			}
			m := ""
			walk(doc, func(n *html.Node) {
				if named(n, l...) && named(n.NextSibling, l...) {
					m = "two neighbors are left"
				}
			})
			left := map[*html.Node]bool{}
			walk(doc, func(n *html.Node) { left[n] = true })
			for _, n := range order {
				if !left[n] && !named(n, l...) {
					m = "removed a " + n.Data
				}
			}
			if m != "" {
				return bad("%s", m)
			}
		case "emptycode":
			empty := map[*html.Node]bool{}
			for _, n := range order {
				for q := n; q != nil; q = q.Parent {
					if named(q, "code") && allText(q) == "" {
						empty[n] = true
					}
				}
			}
			domutils.RemoveEmptyCode(ctx, doc)
			if m := sameText(); m != "" {
				return m
			}
			left := map[*html.Node]bool{}
			walk(doc, func(n *html.Node) { left[n] = true })
			for _, n := range order {
				if left[n] == empty[n] {
					return bad("%s is there: %v", n.Data, left[n])
				}
			}
		case "swap", "swaplink":
			o, i := nCode, []string{"pre"}
			if step == "swaplink" {
				o, i = nEmph, []string{"a"}
			}
			count := map[string]int{}
			for _, n := range order {
				count[fmt.Sprint(n.Type, n.Data, n.Attr)]++
			}
			domutils.SwapTags(ctx, doc, is(o), is(i))
			if m := sameText(); m != "" {
				return m
			}
			if !sameShape(shapeBefore, shape(doc)) {
				return bad("nodes moved")
			}
			walk(doc, func(n *html.Node) { count[fmt.Sprint(n.Type, n.Data, n.Attr)]-- })
			for k, v := range count {
				if v != 0 {
					return bad("elements changed: %s", k)
				}
			}
			for _, n := range order { // exactly the outermost ones are swapped
				if !named(&html.Node{Type: n.Type, Data: names[n]}, o...) {
					continue
				}
				var kids []*html.Node
				for c := n.FirstChild; c != nil; c = c.NextSibling {
					if !blankNode(c) {
						kids = append(kids, c)
					}
				}
				can := len(kids) == 1 && kids[0].Type == html.ElementNode && named(&html.Node{Type: html.ElementNode, Data: names[kids[0]]}, i...)
				if !can && n.Data != names[n] && (n.Parent == nil || n.Parent.Data == names[n.Parent]) {
					return bad("%s was swapped", names[n])
				}
				if can && n.Data == names[n] {
					up := false // below a swapped one everything stays
					for q := n.Parent; q != nil; q = q.Parent {
						up = up || q.Data != names[q]
					}
					if !up {
						return bad("%s was not swapped", names[n])
					}
				}
			}
		case "space":
			domutils.AddSpace(ctx, doc, is(nEmph), is(nCode))
			if m := badLinks(doc); m != "" {
				return bad("%s", m)
			}
			if !sameShape(shapeBefore, shape(doc)) {
				return bad("nodes moved")
			}
			for n, s := range texts {
				if n.Data == s {
					continue
				}
				if inside(n, "pre") != nil && inside(n, nEmph...) == nil && false {
					return bad("a space was added inside pre")
				}
				if strings.Trim(n.Data, " ") != strings.Trim(s, " ") || !strings.Contains(n.Data, s) {
					return bad("the text %q became %q", s, n.Data)
				}
			}
			for _, n := range order { // the spaces around emphasized code
				if !named(n, nEmph...) || inside(n, "pre") != nil {
					continue
				}
				if named(n.FirstChild, nCode...) && n.PrevSibling != nil && n.PrevSibling.Type == html.TextNode && !strings.HasSuffix(n.PrevSibling.Data, " ") {
					return bad("no space in front")
				}
				if named(n.LastChild, nCode...) && n.NextSibling != nil && n.NextSibling.Type == html.TextNode && !strings.HasPrefix(n.NextSibling.Data, " ") {
					return bad("no space behind")
				}
			}
		case "alternatives":
			domutils.LeafBlockAlternatives(ctx, doc)
			if m := badLinks(doc); m != "" {
				return bad("%s", m)
			}
			if x := strings.ReplaceAll(strings.ReplaceAll(allText(doc), ` "`, ""), `" `, ""); x != before {
				return bad("the text %q became %q", before, x)
			}
			container := []string{"html", "head", "body", "blockquote", "ul", "ol", "li", "hr", "pre", "h1", "h2", "h6"}
			m := ""
			walk(doc, func(n *html.Node) {
				if named(n, container...) {
					if q := inside(n, "hr", "pre", "h1", "h2", "h6", "span", "code", "b", "strong", "i", "em", "a"); q != nil {
						m = n.Data + " inside " + q.Data
					}
				}
			})
			for _, n := range order {
				q := inside(n, "pre")
				_ = q
				if n.Type == html.ElementNode && n.Data != names[n] && !named(&html.Node{Type: html.ElementNode, Data: names[n]}, container...) {
					m = names[n] + " became " + n.Data
				}
			}
			if m != "" {
				return bad("%s", m)
			}
		case "lists":
			p := places(doc, nEmph)
			domutils.MoveListItems(ctx, doc)
			if m := badLinks(doc); m != "" {
				return bad("%s", m)
			}
			if blackText(allText(doc)) != blackText(before) {
				return bad("the text %q became %q", before, allText(doc))
			}
			if len(p) != len(places(doc, nEmph)) {
				return bad("text is missing")
			}
			m := ""
			walk(doc, func(n *html.Node) {
				if named(n.Parent, "ul", "ol") && !named(n, "li") && !blankNode(n) {
					m = n.Data + " inside a list"
				}
			})
			for n, s := range texts {
				if n.Data != s {
					m = "a text changed"
				}
			}
			seen := map[*html.Node]bool{}
			walk(doc, func(n *html.Node) { seen[n] = true })
			for _, n := range order {
				if !seen[n] {
					m = n.Data + " is gone"
				}
				if !named(n.Parent, "li") && shapeBefore[idx(order, n)].parent != n.Parent {
					m = n.Data + " moved"
				}
			}
			if m != "" {
				return bad("%s", m)
			}
		case "texts":
			domutils.MergeAdjacentTextNodes(doc)
			if m := sameText(); m != "" {
				return m
			}
			m := ""
			left := map[*html.Node]bool{}
			walk(doc, func(n *html.Node) {
				left[n] = true
				if n.Type == html.TextNode && n.NextSibling != nil && n.NextSibling.Type == html.TextNode {
					m = "two texts are left"
				}
			})
			for _, n := range order {
				if !left[n] && n.Type != html.TextNode {
					m = n.Data + " is gone"
				}
			}
			if m != "" {
				return bad("%s", m)
			}
		case "comments":
			domutils.AddListEndComments(ctx, doc)
			if m := sameText(); m != "" {
				return m
			}
			old := map[*html.Node]bool{}
			for _, n := range order {
				old[n] = true
			}
			m := ""
			k := 0
			var flat []*html.Node
			walk(doc, func(n *html.Node) {
				flat = append(flat, n)
				if !old[n] {
					if n.Type != html.CommentNode || n.Data != "THE END" || !named(n.PrevSibling, "ul", "ol") {
						m = "inserted " + showTree(n)
					}
					return
				}
				if order[k] != n {
					m = "nodes moved"
				}
				k++
			})
			if k != len(order) {
				m = "nodes are gone"
			}
			for _, n := range flat { // neighbors, with nothing or an element without effect between
				if named(n, "ul", "ol") && named(n.NextSibling, "ul", "ol") {
					m = "no comment between two lists"
				}
				if !old[n] { // only in front of a list
					q := after(n)
					for q != nil && q.Type != html.TextNode && !named(q, "li", "hr", "ul", "ol") && !(q.Type == html.CommentNode && q.Data == "THE END") {
						q = dom.GetNextNeighborNode(q)
					}
					if !named(q, "ul", "ol") {
						m = "a comment without a list behind it"
					}
				}
			}
			if m != "" {
				return bad("%s", m)
			}
		}
		return ""
	})
}

func idx(l []*html.Node, n *html.Node) int {
	for i := range l {
		if l[i] == n {
			return i
		}
	}
	return 0
}

func after(n *html.Node) *html.Node {
	for n != nil && n.NextSibling == nil {
		n = n.Parent
	}
	if n == nil {
		return nil
	}
	return n.NextSibling
}

// ------------------------------------------------------------ the whole conversion

type segGen struct {
	r    *rand.Rand
	n    int
	seg  int
	segs []int // of every word
	head bool  // a heading stays on one line
}

func (g *segGen) word() string {
	g.segs = append(g.segs, g.seg)
	g.n++
	return fmt.Sprintf("w%dx", g.n-1)
}

func (g *segGen) inline(d int) string {
	var sb strings.Builder
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		sb.WriteString(pick(g.r, "", "", " ", "\n"))
		if d <= 0 || g.r.Intn(3) == 0 {
			sb.WriteString(g.word())
			continue
		}
		switch g.r.Intn(10) {
		case 0:
			if !g.head {
				sb.WriteString("<br>")
				g.seg++
			}
		case 1:
			e := pick(g.r, nCode...)
			sb.WriteString("<" + e + ">" + g.word() + "</" + e + ">")
		case 2:
			sb.WriteString("<a href=/x>" + g.word() + "</a>")
		default:
			e := pick(g.r, "b", "i", "em", "strong", "span", "span", "u")
			sb.WriteString("<" + e + ">" + g.inline(d-1) + "</" + e + ">")
		}
	}
	return sb.String()
}

func (g *segGen) blocks(d int) string {
	var sb strings.Builder
	inl := false
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		sb.WriteString(pick(g.r, "", "\n", " "))
		g.seg++
		c := g.r.Intn(9)
		if c == 2 && inl {
			c = 0
		}
		inl = c == 2
		switch {
		case d <= 0 && c != 2 || c < 2:
			e := pick(g.r, "p", "div", "h2", "article", "p")
			g.head = e == "h2"
			sb.WriteString("<" + e + ">" + g.inline(3) + "</" + e + ">")
			g.head = false
		case c == 2:
			sb.WriteString(g.inline(3))
		case c == 3:
			sb.WriteString("<blockquote>" + g.blocks(d-1) + "</blockquote>")
		case c == 4:
			e := pick(g.r, "ul", "ol")
			sb.WriteString("<" + e + ">")
			for n := 1 + g.r.Intn(3); n > 0; n-- {
				if g.r.Intn(5) == 0 { // not in an item
					sb.WriteString("<" + e + "><li>" + g.blocks(d-1) + "</li></" + e + ">")
				} else {
					sb.WriteString("<li>" + g.blocks(d-1) + "</li>")
				}
			}
			sb.WriteString("</" + e + ">")
		case c == 5: // inline elements around paragraphs
			e := pick(g.r, "b", "i", "em", "strong", "span", "span", "u")
			sb.WriteString("<" + e + ">")
			for n := 1 + g.r.Intn(3); n > 0; n-- {
				g.seg++
				f := pick(g.r, "p", "div")
				sb.WriteString("<" + f + ">" + g.inline(2) + "</" + f + ">")
				g.seg++
			}
			sb.WriteString("</" + e + ">")
		default:
			sb.WriteString("<div>" + g.blocks(d-1) + "</div>")
		}
		g.seg++
	}
	return sb.String()
}

func TestVerifC23Lines(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		g := &segGen{r: r}
		in := g.blocks(r.Intn(4))
		out := conv(in)
		end, last := 0, -1
		for i := 0; i < g.n; i++ {
			w := fmt.Sprintf("w%dx", i)
			if strings.Count(out, w) != 1 {
				return fmt.Sprintf("%q: %s is there %d times in %q", in, w, strings.Count(out, w), out)
			}
			p := strings.Index(out, w)
			if p < end {
				return fmt.Sprintf("%q: %s is in the wrong place in %q", in, w, out)
			}
			if nl := strings.Contains(out[end:p], "\n"); last >= 0 && nl != (g.segs[i] != last) {
				return fmt.Sprintf("%q: %s is on a line of its own: %v in %q", in, w, nl, out)
			}
			end, last = p+len(w), g.segs[i]
		}
		return ""
	})
}
