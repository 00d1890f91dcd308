package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// A conversion built from handlers that only leave traces: the expected
// output is computed from the priorities alone.
type tracePlan struct {
	r     *rand.Rand
	pre   []trh
	ren   []trh
	text  []trh
	post  []trh
	types map[string][]trt
	for_  map[string][]trh // RendererFor
	log   []string
}
type trh struct {
	id, prio int
	tag      string          // RendererFor: its tag
	accept   map[string]bool // Renderer: the tags it handles
	children bool
	mode     int // what a transformer does
	peek     bool
}

func (h trh) apply(s string, open, close string) string {
	switch h.mode {
	case 1:
		return ""
	case 2:
		return s
	case 3:
		return fmt.Sprint(open, h.id, close) + s
	}
	return s + fmt.Sprint(open, h.id, close)
}

type trt struct {
	typ  string
	prio int
}

func distinctPrios(r *rand.Rand, n int) []int {
	seen := map[int]bool{}
	var out []int
	for len(out) < n {
		var p int
		switch r.Intn(4) {
		case 0:
			p = r.Intn(7) - 3
		case 1:
			p = []int{converter.PriorityEarly, converter.PriorityStandard, converter.PriorityLate}[r.Intn(3)] + r.Intn(5) - 2
		case 2:
			p = r.Intn(3000) - 1000
		default:
			p = r.Int() - r.Int()
		}
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

var traceTags = []string{"div", "p", "span", "b", "section", "foo-bar", "em", "h2", "x-y"}

func (p *tracePlan) doc(depth int) string {
	var b strings.Builder
	for k := p.r.Intn(4); k >= 0; k-- {
		if depth == 0 || p.r.Intn(3) == 0 {
			b.WriteString(pick(p.r, "a", "b c", "*", "x", "é"))
			continue
		}
		// section/foo/span only: nothing the parser rearranges
		t := pick(p.r, "div", "section", "span", "foo-bar", "x-y")
		if strings.Contains("span foo-bar x-y", t) {
			b.WriteString("<" + t + ">" + p.inline(depth-1) + "</" + t + ">")
		} else {
			b.WriteString("<" + t + ">" + p.doc(depth-1) + "</" + t + ">")
		}
	}
	return b.String()
}
func (p *tracePlan) inline(depth int) string {
	if depth == 0 || p.r.Intn(2) == 0 {
		return pick(p.r, "", "t", "u v", "#")
	}
	t := pick(p.r, "span", "foo-bar", "x-y")
	return "<" + t + ">" + p.inline(depth-1) + "</" + t + ">w"
}

func byPrio(l []trh) []trh {
	o := append([]trh(nil), l...)
	sort.SliceStable(o, func(i, j int) bool { return o[i].prio < o[j].prio })
	return o
}

func nodeName(n *html.Node) string {
	switch n.Type {
	case html.DocumentNode:
		return "#document"
	case html.TextNode:
		return "#text"
	case html.CommentNode:
		return "#comment"
	}
	return n.Data
}

func (p *tracePlan) tagType(name string) string {
	best := ""
	bp := 0
	for _, t := range p.types[name] {
		if best == "" || t.prio < bp {
			best, bp = t.typ, t.prio
		}
	}
	if best != "" {
		return best
	}
	switch name {
	case "div", "section", "p", "h2":
		return "block"
	}
	return ""
}

func (p *tracePlan) expect(n *html.Node, w *strings.Builder, log *[]string) {
	name := nodeName(n)
	if name == "#text" {
		s := n.Data
		for _, h := range byPrio(p.text) {
			*log = append(*log, fmt.Sprint("text", h.id, s))
			s = h.apply(s, "(", ")")
		}
		w.WriteString(s)
		return
	}
	kids := func() {
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			p.expect(c, w, log)
		}
	}
	for _, h := range byPrio(p.ren) {
		if h.tag != "" {
			if h.tag != name {
				continue
			}
		} else {
			*log = append(*log, fmt.Sprint("try", h.id, name))
		}
		if h.accept[name] {
			w.WriteString(fmt.Sprint("[", h.id, name))
			if h.children {
				kids()
			}
			w.WriteString("]")
			return
		}
		if h.peek {
			w.WriteString(fmt.Sprint("?", h.id))
		}
	}
	if p.tagType(name) == "block" {
		w.WriteString("\n\n")
	}
	kids()
	if p.tagType(name) == "block" {
		w.WriteString("\n\n")
	}
}

func (p *tracePlan) build() {
	r := p.r
	mk := func(max int) []trh {
		n := r.Intn(max + 1)
		ps := distinctPrios(r, n)
		out := make([]trh, n)
		for i := range out {
			out[i] = trh{id: i, prio: ps[i], mode: []int{0, 0, 0, 0, 0, 0, 1, 2, 3}[r.Intn(9)], peek: r.Intn(5) == 0}
		}
		return out
	}
	p.pre, p.text, p.post = mk(5), mk(5), mk(5)
	if r.Intn(20) == 0 {
		p.text = mk(40)
	}
	p.ren = append(mk(6), trh{})
	if r.Intn(20) == 0 {
		p.ren = append(mk(30), trh{})
	}
	ps := distinctPrios(r, len(p.ren))
	p.types = map[string][]trt{}
	for i := range p.ren {
		h := &p.ren[i]
		h.id, h.prio = i, ps[i]
		h.accept = map[string]bool{}
		h.children = r.Intn(3) > 0
		if r.Intn(3) == 0 {
			h.tag = pick(r, traceTags...)
			h.accept[h.tag] = r.Intn(4) > 0
			continue
		}
		for _, t := range traceTags {
			h.accept[t] = r.Intn(6) == 0
		}
	}
}

type tracePlugin struct {
	name string
	init func(*converter.Converter)
}

func (p tracePlugin) Name() string                         { return p.name }
func (p tracePlugin) Init(conv *converter.Converter) error { p.init(conv); return nil }

func (p *tracePlan) register() *converter.Converter {
	r := p.r
	var regs []func(*converter.Converter)
	for _, h := range p.pre {
		regs = append(regs, func(c *converter.Converter) {
			c.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
				p.log = append(p.log, fmt.Sprint("pre", h.id, nodeName(doc)))
			}, h.prio)
		})
	}
	for _, h := range p.text {
		regs = append(regs, func(c *converter.Converter) {
			c.Register.TextTransformer(func(ctx converter.Context, s string) string {
				p.log = append(p.log, fmt.Sprint("text", h.id, s))
				return h.apply(s, "(", ")")
			}, h.prio)
		})
	}
	for _, h := range p.post {
		regs = append(regs, func(c *converter.Converter) {
			c.Register.PostRenderer(func(ctx converter.Context, s []byte) []byte {
				p.log = append(p.log, fmt.Sprint("post", h.id, string(s)))
				return []byte(h.apply(string(s), "{", "}"))
			}, h.prio)
		})
	}
	for _, h := range p.ren {
		fn := func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			name := nodeName(n)
			if h.tag == "" {
				p.log = append(p.log, fmt.Sprint("try", h.id, name))
			}
			if !h.accept[name] {
				if h.peek { // what is written stays, even if the next one is tried
					w.WriteString(fmt.Sprint("?", h.id))
				}
				return converter.RenderTryNext
			}
			w.WriteString(fmt.Sprint("[", h.id, name))
			if h.children {
				ctx.RenderChildNodes(ctx, w, n)
			}
			w.WriteString("]")
			return converter.RenderSuccess
		}
		if h.tag != "" {
			inline := r.Intn(2) == 0
			if inline {
				p.types[h.tag] = append(p.types[h.tag], trt{"inline", h.prio})
			} else {
				p.types[h.tag] = append(p.types[h.tag], trt{"block", h.prio})
			}
			regs = append(regs, func(c *converter.Converter) {
				if inline {
					c.Register.RendererFor(h.tag, converter.TagTypeInline, fn, h.prio)
				} else {
					c.Register.RendererFor(h.tag, converter.TagTypeBlock, fn, h.prio)
				}
			})
			continue
		}
		regs = append(regs, func(c *converter.Converter) { c.Register.Renderer(fn, h.prio) })
	}
	r.Shuffle(len(regs), func(i, j int) { regs[i], regs[j] = regs[j], regs[i] })
	cut := r.Intn(len(regs) + 1)
	c := converter.NewConverter(converter.WithPlugins(tracePlugin{"one", func(c *converter.Converter) {
		for _, f := range regs[:cut] {
			f(c)
		}
	}}))
	for _, f := range regs[cut:] {
		f(c)
	}
	return c
}

func traceCase(r *rand.Rand) string {
	p := &tracePlan{r: r}
	p.build()
	in := p.doc(1 + r.Intn(3))
	c := p.register()
	for round := 0; round < 2; round++ {
		p.log = nil
		got := convWith(c, in)
		doc, _ := html.Parse(strings.NewReader(in))
		var w strings.Builder
		var log []string
		for _, h := range byPrio(p.pre) {
			log = append(log, fmt.Sprint("pre", h.id, "#document"))
		}
		p.expect(doc, &w, &log)
		want := w.String()
		for _, h := range byPrio(p.post) {
			log = append(log, fmt.Sprint("post", h.id, want))
			want = h.apply(want, "{", "}")
		}
		if got != want {
			return fmt.Sprintf("conversion %d of HTML %q with render handlers %+v text %+v post %+v tag types %v: got %q, want %q", round+1, in, p.ren, p.text, p.post, p.types, got, want)
		}
		if strings.Join(p.log, "|") != strings.Join(log, "|") {
			return fmt.Sprintf("conversion %d of HTML %q: handlers ran as %q, want %q (pre %+v render %+v text %+v post %+v)", round+1, in, p.log, log, p.pre, p.ren, p.text, p.post)
		}
		sample("c17", fmt.Sprintf("%q -> %q", in, got))
	}
	return ""
}

func TestVerifC17Order(t *testing.T) { vrun(t, traceCase) }
func TestVerifC27Trace(t *testing.T) { vrun(t, traceCase) }

// the escape deciders: asked in order of priority, the first that accepts
// decides; the escaped characters it covers are not asked about again
func TestVerifC17UnEscapers(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		n := 1 + r.Intn(6)
		ps := distinctPrios(r, n)
		type uh struct {
			prio, id, skip int
			on             map[byte]bool
		}
		hs := make([]uh, n)
		alphabet := "*_#!ab"
		for i := range hs {
			hs[i] = uh{prio: ps[i], id: i, skip: 1 + r.Intn(3), on: map[byte]bool{}}
			for k := range alphabet {
				if r.Intn(4) == 0 {
					hs[i].on[alphabet[k]] = true
				}
			}
		}
		var log, want []string
		chars := []rune{'*', '_', '#'}
		var regs []func(c *converter.Converter)
		for _, h := range hs {
			regs = append(regs, func(c *converter.Converter) {
				c.Register.UnEscaper(func(s []byte, i int) int {
					log = append(log, fmt.Sprint(h.id, "@", i))
					if h.on[s[i]] {
						return h.skip
					}
					return -1
				}, h.prio)
			})
		}
		text := randFrom(r, []string{"*", "_", "#", "!", "a", "b", "é"}, 10)
		regs = append(regs, func(c *converter.Converter) {
			c.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				if nodeName(n) == "#document" {
					w.Write(ctx.UnEscapeContent(ctx.EscapeContent([]byte(text))))
					return converter.RenderSuccess
				}
				return converter.RenderTryNext
			}, 0)
		})
		for _, ch := range chars {
			regs = append(regs, func(c *converter.Converter) { c.Register.EscapedChar(ch) })
		}
		r.Shuffle(len(regs), func(i, j int) { regs[i], regs[j] = regs[j], regs[i] })
		c := converter.NewConverter()
		for _, f := range regs {
			f(c)
		}
		got := convWith(c, "x")
		// expected
		var marked []byte
		for i := 0; i < len(text); i++ {
			if strings.IndexByte("*_#", text[i]) >= 0 {
				marked = append(marked, 7)
			}
			marked = append(marked, text[i])
		}
		sort.SliceStable(hs, func(i, j int) bool { return hs[i].prio < hs[j].prio })
		esc := map[int]bool{}
		for i := 0; i < len(marked); i++ {
			if marked[i] != 7 {
				continue
			}
			for _, h := range hs {
				want = append(want, fmt.Sprint(h.id, "@", i+1))
				if h.on[marked[i+1]] {
					esc[i] = true
					i += h.skip - 1
					break
				}
			}
		}
		var exp []byte
		for i, b := range marked {
			if b == 7 {
				if esc[i] {
					exp = append(exp, '\\')
				}
				continue
			}
			exp = append(exp, b)
		}
		if got != string(exp) {
			return fmt.Sprintf("text %q with deciders %+v: got %q, want %q", text, hs, got, exp)
		}
		if strings.Join(log, " ") != strings.Join(want, " ") {
			return fmt.Sprintf("text %q: deciders asked %v, want %v (%+v)", text, log, want, hs)
		}
		return ""
	})
}
