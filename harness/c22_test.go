package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

var anyTags = []string{"p", "div", "span", "b", "strong", "i", "em", "a", "img", "code", "pre", "kbd", "samp", "tt", "var", "ul", "ol", "li", "dl", "dt", "dd", "table", "thead", "tbody", "tfoot", "tr", "td", "th", "caption", "colgroup", "col", "blockquote", "h1", "h2", "h6", "h7", "hr", "br", "del", "s", "strike", "script", "style", "head", "body", "html", "title", "meta", "link", "iframe", "noscript", "input", "textarea", "select", "option", "button", "video", "audio", "source", "svg", "math", "mi", "template", "x-tag", "section", "main", "nav", "details", "summary", "center", "font", "marquee", "frameset", "plaintext", "xmp", "ruby", "rt", "wbr", "base", "object", "form", "fieldset", "address", "picture", "o:p"}

var anyTexts = []string{"a", "word", " ", "\n", "\n\n", "\t", "*", "**", "_", "`", "```", "~~~", "~", "#", "# a", "1.", "1)", "-", "- a", "+", ">", "> a", "[", "](", "]", "[a](b)", "![", "!", "|", "\\", "\\\\", "&lt;", "&amp;", "&nbsp;", "&#0;", "&#7;", "\x07", "\x00", "\uF002", "\u00a0", "\u200b", "é", "日本", "\U0001F600", "\xff", "\xc3", "\xe2\x80", "=", "===", "---", "***", "<", ">", "&", "<!", "<!--", "-->", "<?x", "</", "]]>", "http://a.b", "\r", "\r\n", "\f", "0123456789."}

var anyAttrs = []string{"href", "src", "alt", "title", "class", "start", "colspan", "rowspan", "align", "role", "type", "value", "style", "id", "name", "data-x", "aria-hidden", "dir", "lang", "width"}

var anyVals = []string{"", " ", "a", "0", "1", "2", "-1", "7", "999999999", "-999999999999", "99999999999999999999999", "1e3", "0x10", "language-go", "language-", "language- x", "lang-a`b", "presentation", "left", "right", "center", "justify", "http://a.b/c d", "%", "%zz", "%%%", "://", ":", "//", "#", "#a", "?", "mailto:a@b", "javascript:x", "data:image/png;base64,AAAA", "(", ")", "((", "a)b(", "<", ">", "\"", "'", "\\", "a\nb", "a\n\nb", "\t", "\r\n", "\x07", "[", "]", "|", "`", "é", "\xff", "&quot;", "decimal", "A", "I", "\uF002", "\u00a0"}

func anyAttr(r *rand.Rand) (string, string) {
	k, v := pick(r, anyAttrs...), pick(r, anyVals...)
	if r.Intn(4) == 0 {
		v += pick(r, anyVals...)
	}
	return k, v
}

func soup(r *rand.Rand, n int) string {
	var sb strings.Builder
	var open []string
	for ; n > 0; n-- {
		switch k := r.Intn(10); {
		case k < 4:
			t := pick(r, anyTags...)
			if r.Intn(3) > 0 { // fewer of the strange ones
				t = anyTags[r.Intn(40)]
			}
			sb.WriteString("<" + t)
			for r.Intn(3) == 0 {
				k, v := anyAttr(r)
				q := pick(r, `"`, `'`, "")
				sb.WriteString(" " + k + "=" + q + v + q)
			}
			sb.WriteString(pick(r, ">", ">", ">", ">", "/>", " >", ""))
			open = append(open, t)
		case k < 6 && len(open) > 0:
			i := len(open) - 1
			if r.Intn(4) == 0 {
				i = r.Intn(len(open))
			}
			sb.WriteString("</" + open[i] + pick(r, ">", ">", ">", ""))
			open = append(open[:i], open[i+1:]...)
		default:
			sb.WriteString(pick(r, anyTexts...))
		}
	}
	return sb.String()
}

// every plugin and option; markers etc. as allowed
func anyConv(r *rand.Rand) *converter.Converter {
	plugins := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(anyOptions(r)...)}
	if r.Intn(2) == 0 {
		plugins = append(plugins, strikethrough.NewStrikethroughPlugin())
	}
	if r.Intn(3) > 0 {
		plugins = append(plugins, table.NewTablePlugin(
			table.WithSkipEmptyRows(r.Intn(2) == 0), table.WithHeaderPromotion(r.Intn(2) == 0),
			table.WithPresentationTables(r.Intn(2) == 0),
			table.WithSpanCellBehavior(pick(r, table.SpanBehaviorEmpty, table.SpanBehaviorMirror)),
			table.WithNewlineBehavior(pick(r, table.NewlineBehaviorSkip, table.NewlineBehaviorPreserve)),
			table.WithCellPaddingBehavior(pick(r, table.CellPaddingBehaviorAligned, table.CellPaddingBehaviorMinimal, table.CellPaddingBehaviorNone))))
	}
	c := converter.NewConverter(converter.WithPlugins(plugins...), converter.WithEscapeMode(pick(r, converter.EscapeModeDisabled, converter.EscapeModeSmart, converter.EscapeModeSmart)))
	if r.Intn(4) == 0 {
		c.Register.TagType(pick(r, anyTags...), pick(r, converter.TagTypeBlock, converter.TagTypeInline, converter.TagTypeRemove), pick(r, 100, 500, 1000))
	}
	if r.Intn(4) == 0 {
		c.Register.RendererFor(pick(r, anyTags...), pick(r, converter.TagTypeBlock, converter.TagTypeInline), base.RenderAsHTML, pick(r, 100, 500, 1000))
	}
	if r.Intn(4) == 0 {
		c.Register.RendererFor(pick(r, anyTags...), pick(r, converter.TagTypeBlock, converter.TagTypeInline), base.RenderAsHTMLWrapper, pick(r, 100, 500, 1000))
	}
	if r.Intn(8) == 0 {
		c.Register.EscapedChar('é', '日', 'a', ' ', '\n')
	}
	return c
}

func anyOptions(r *rand.Rand) []commonmark.OptionFunc {
	return []commonmark.OptionFunc{
		commonmark.WithEmDelimiter(pick(r, "*", "_")), commonmark.WithStrongDelimiter(pick(r, "**", "__")),
		commonmark.WithHorizontalRule(pick(r, "* * *", "---", "___", "- - -")), commonmark.WithBulletListMarker(pick(r, "-", "+", "*")),
		commonmark.WithListEndComment(r.Intn(2) == 0), commonmark.WithCodeBlockFence(pick(r, "```", "~~~")),
		commonmark.WithHeadingStyle(pick(r, commonmark.HeadingStyleATX, commonmark.HeadingStyleSetext)),
		commonmark.WithLinkEmptyHrefBehavior(pick(r, commonmark.LinkBehaviorRender, commonmark.LinkBehaviorSkip)),
		commonmark.WithLinkEmptyContentBehavior(pick(r, commonmark.LinkBehaviorRender, commonmark.LinkBehaviorSkip)),
	}
}

// ends runs f; what is not done after limit is taken to run for ever.
func ends(in string, limit time.Duration, f func() string) string {
	done := make(chan string, 1)
	t0 := time.Now()
	go func() {
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 4096)
				done <- fmt.Sprintf("panic on %s: %v\n%s", in, p, buf[:runtime.Stack(buf, false)])
			}
		}()
		done <- f()
	}()
	select {
	case m := <-done:
		if m == "" && time.Since(t0) > limit {
			m = fmt.Sprintf("took %s on %s", time.Since(t0), in)
		}
		return m
	case <-time.After(limit + 5*time.Second):
		return fmt.Sprintf("still running after %s on %s", time.Since(t0), in)
	}
}

func shortIn(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q… (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func convertsFine(c *converter.Converter, in string, domain string) string {
	return ends(shortIn(in), 20*time.Second, func() string {
		out, err := c.ConvertString(in, converter.WithDomain(domain))
		if err != nil {
			if _, e := html.Parse(strings.NewReader(in)); e != nil && e.Error() == err.Error() {
				return "" // the parser refuses it (elements nested too deep)
			}
			return fmt.Sprintf("%s gave the error %v", shortIn(in), err)
		}
		if utf8.ValidString(in) && !utf8.ValidString(out) {
			return fmt.Sprintf("%s gave %s, which is not UTF-8", shortIn(in), shortIn(out))
		}
		return ""
	})
}

func TestVerifC22Soup(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		in := soup(r, 1+r.Intn(40))
		lastInput = in
		return convertsFine(anyConv(r), in, pick(r, "", "", "a.b", "https://a.b/c/", "%zz", "://", "\x7f"))
	})
}

var corpus []string

func loadCorpus() {
	files, _ := filepath.Glob("*/*/testdata/*/*.html")
	more, _ := filepath.Glob("*/*/*/testdata/*/*.html")
	for _, f := range append(files, more...) {
		if b, err := os.ReadFile(f); err == nil && len(b) < 20000 {
			corpus = append(corpus, string(b))
		}
	}
	corpus = append(corpus, "<p>a</p>")
}

// bytes of all kinds, and documents with bytes changed, cut and doubled
func TestVerifC22Bytes(t *testing.T) {
	loadCorpus()
	vrun(t, func(r *rand.Rand) string {
		var b []byte
		if r.Intn(3) == 0 {
			b = make([]byte, r.Intn(200))
			for i := range b {
				b[i] = "<>/=\"' abpt*_`#-\\[]()!&;\n\x00\x07\xff\xc3\xa9"[r.Intn(30)]
				if r.Intn(4) == 0 {
					b[i] = byte(r.Intn(256))
				}
			}
		} else {
			b = []byte(pick(r, corpus...))
			if len(b) > 600 {
				i := r.Intn(len(b) - 500)
				b = append([]byte{}, b[i:i+500]...)
			}
			for n := r.Intn(8); n > 0 && len(b) > 0; n-- {
				i := r.Intn(len(b))
				j := i + r.Intn(min(20, len(b)-i)) + 1
				switch r.Intn(4) {
				case 0:
					b[i] = byte(r.Intn(256))
				case 1:
					b = append(append([]byte{}, b[:i]...), b[j-1:]...)
				case 2:
					b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
				case 3:
					b = append(append(append([]byte{}, b[:i]...), pick(r, anyTexts...)...), b[i:]...)
				}
			}
		}
		lastInput = string(b)
		return convertsFine(anyConv(r), string(b), "")
	})
}

// documents no parser gives: any node below any other
func anyTree(r *rand.Rand, budget *int, depth int) *html.Node {
	n := &html.Node{}
	switch k := r.Intn(16); {
	case k < 5:
		n.Type, n.Data = html.TextNode, pick(r, anyTexts...)+pick(r, "", "", anyTexts[r.Intn(len(anyTexts))])
		if r.Intn(10) == 0 {
			n.Data = ""
		}
	case k == 5:
		n.Type, n.Data = html.CommentNode, pick(r, "", "c", "--", "THE END", "THE\u00a0END")
	case k == 6 && r.Intn(2) == 0:
		n.Type, n.Data = pick(r, html.DoctypeNode, html.RawNode, html.DocumentNode), pick(r, "", "html", "<b>x")
	default:
		n.Type, n.Data = html.ElementNode, anyTags[r.Intn(45)]
		if r.Intn(5) == 0 {
			n.Data = pick(r, "", "UPPER", "a b", "#text", "h", "x", "H1")
		}
		if r.Intn(3) > 0 {
			n.DataAtom = atom.Lookup([]byte(n.Data))
		}
		for r.Intn(3) == 0 {
			k, v := anyAttr(r)
			n.Attr = append(n.Attr, html.Attribute{Key: k, Val: v})
		}
	}
	if n.Type == html.ElementNode || n.Type == html.DocumentNode {
		for r.Intn(4) > 0 && depth > 0 && *budget > 0 {
			*budget--
			n.AppendChild(anyTree(r, budget, depth-1))
		}
	}
	return n
}

func dump(n *html.Node) string {
	s := fmt.Sprintf("(%d %q", n.Type, n.Data)
	for _, a := range n.Attr {
		s += fmt.Sprintf(" %s=%q", a.Key, a.Val)
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += " " + dump(c)
	}
	return s + ")"
}

func TestVerifC22Trees(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		budget := 1 + r.Intn(40)
		n := anyTree(r, &budget, 1+r.Intn(8))
		if r.Intn(2) == 0 {
			d := &html.Node{Type: html.DocumentNode}
			d.AppendChild(n)
			for r.Intn(2) == 0 {
				d.AppendChild(anyTree(r, &budget, 4))
			}
			n = d
		}
		in := dump(n)
		lastInput = in
		c := anyConv(r)
		if r.Intn(8) == 0 {
			return ends(in, 10*time.Second, func() string { collapse.Collapse(n, nil); return "" })
		}
		return ends(in, 10*time.Second, func() string {
			if _, err := c.ConvertNode(n); err != nil {
				return fmt.Sprintf("%s gave the error %v", in, err)
			}
			return ""
		})
	})
}

// much of the same
func TestVerifC22Large(t *testing.T) {
	if os.Getenv("VERIF_BUDGET_MS") == "" {
		t.Log("needs a budget")
	}
	vrun1(t, func(r *rand.Rand) string {
		n := pick(r, 300, 1000, 3000)
		var in string
		switch r.Intn(4) {
		case 0: // one text many times
			in = "<" + pick(r, "p", "li", "td", "pre", "h2", "a href=x") + ">" + strings.Repeat(pick(r, anyTexts...)+pick(r, "", " ", anyTexts[r.Intn(len(anyTexts))]), n)
		case 1: // one element in the other
			in = strings.Repeat("<"+pick(r, anyTags...)+">"+pick(r, "", "a", " "), min(n, 400)) + "x"
		case 2: // one element next to the other
			t := pick(r, anyTags...)
			in = strings.Repeat("<"+t+">"+pick(r, anyTexts...)+"</"+t+">"+pick(r, "", " ", "\n", "a"), n)
		case 3:
			in = strings.Repeat(soup(r, 4), n/4)
		}
		lastInput = shortIn(in)
		return convertsFine(anyConv(r), in, "")
	})
}
