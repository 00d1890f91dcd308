package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
)

var c01Alpha = []string{"a", "bc", "x1", "é", "中", "😀", "\u00a0", "\u200b", "\u2028", "\x01", "\x1b", "\x7f", "\u0085", "\ufeff", "Ġ", "*", "_", "#", "[", "]", "(", ")", "!", "`", "~", "\\", ">", "<", "&", "=", "-", "+", ".", "|", "$", "\"", "'", ":", ";", "%", "^", "{", "}", "1.", " ", " ", "&amp;", "&lt;", "\ufffd", "\uf003", "\uf001", "\u0007x"[1:], "---", "###", "==="}

func isPunct(b byte) bool {
	return b >= '!' && b <= '/' || b >= ':' && b <= '@' || b >= '[' && b <= '`' || b >= '{' && b <= '~'
}

// is want what remains of got when some backslashes in front of punctuation are dropped?
func onlyEscapesAdded(got, want string) bool {
	j := 0
	for i := 0; i < len(got); i++ {
		if j < len(want) && got[i] == want[j] && !(got[i] == '\\' && i+1 < len(got) && got[i+1] == '\\' && !(j+1 < len(want) && want[j+1] == '\\')) {
			j++
			continue
		}
		if got[i] == '\\' && i+1 < len(got) && isPunct(got[i+1]) {
			continue
		}
		return false
	}
	return j == len(want)
}

func entities(s string) string { return strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(s) }

var marks = []string{"\a", "\uf002"}

// literal text in a paragraph: the same characters come out, with nothing but
// backslashes added, none with escaping switched off
func TestVerifC01Text(t *testing.T) {
	off := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()), converter.WithEscapeMode("disabled"))
	vrun(t, func(r *rand.Rand) string {
		s := "q" + randFrom(r, c01Alpha, 1+r.Intn(12)) + "q"
		s = tidy(s)
		src := "<p>" + hesc(s) + "</p>"
		want := entities(s)
		switch r.Intn(4) {
		case 0:
			src = "<div><section>" + hesc(s) + "</section></div>"
		case 1:
			src = "<p>" + hesc(s) + "</p><p>" + hesc(s) + "</p>"
			want += "\n\n" + want
		}
		out := conv(src)
		sample("t", src+" => "+out)
		if !onlyEscapesAdded(out, want) {
			return fmt.Sprintf("text: HTML %q converts to %q", src, out)
		}
		if out := convWith(off, src); out != want {
			return fmt.Sprintf("escaping disabled: HTML %q converts to %q", src, out)
		}
		return ""
	})
}

// text in any nesting of elements: no word is lost, moved or repeated and no
// internal placeholder is left
func TestVerifC01Nested(t *testing.T) {
	full, off := fullConv(), converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHeadingStyle("setext"))), converter.WithEscapeMode("disabled"))
	vrun(t, func(r *rand.Rand) string {
		n := 0
		var words []string
		word := func() string {
			n++
			w := fmt.Sprintf("w%c%c", 'a'+n/26%26, 'a'+n%26)
			words = append(words, w)
			return pick(r, "", "", "# ", "- ", "1. ", "* ", "> ", "[", "`", "_", "\\*", "\\_", "\\`", "\\[", "\\\\*") + w + pick(r, "", "", "*", "]", "_", "`", "\\", " #", "!", ")", " ==", "~~", "|")
		}
		var inl, blk func(d int) string
		inl = func(d int) string {
			var sb strings.Builder
			for k := 1 + r.Intn(3); k > 0; k-- {
				if d == 0 || r.Intn(2) == 0 {
					sb.WriteString(pick(r, "", " ", "\n") + hesc(word()) + pick(r, "", " ", "\n"))
					continue
				}
				switch e := pick(r, "span", "em", "strong", "b", "i", "a", "code", "del", "br", "u", "kbd", "unknown-tag", "sub"); e {
				case "br":
					sb.WriteString("<br>")
				case "a":
					sb.WriteString(`<a href="#">` + inl(d-1) + "</a>")
				default:
					sb.WriteString("<" + e + ">" + inl(d-1) + "</" + e + ">")
				}
			}
			return sb.String()
		}
		blk = func(d int) string {
			if d == 0 {
				return "<p>" + inl(2) + "</p>"
			}
			var sb strings.Builder
			for k := 1 + r.Intn(2); k > 0; k-- {
				switch e := pick(r, "p", "div", "blockquote", "h1", "h2", "h6", "ul", "ol", "section", "article", "pre", "dl", "table", "text"); e {
				case "text":
					sb.WriteString(inl(1))
				case "p", "h1", "h2", "h6":
					sb.WriteString("<" + e + ">" + inl(2) + "</" + e + ">")
				case "pre":
					sb.WriteString("<pre>" + hesc(word()) + "\n\n" + hesc(word()) + "</pre>")
				case "ul", "ol":
					sb.WriteString("<" + e + "><li>" + inl(1) + "</li><li>" + blk(d-1) + "</li></" + e + ">")
				case "dl":
					sb.WriteString("<dl><dt>" + inl(1) + "</dt><dd>" + blk(d-1) + "</dd></dl>")
				case "table":
					sb.WriteString("<table><tr><th>" + inl(1) + "</th><th>" + inl(1) + "</th></tr><tr><td>" + inl(1) + "</td><td>" + hesc(word()) + "</td></tr></table>")
				default:
					sb.WriteString("<" + e + ">" + blk(d-1) + "</" + e + ">")
				}
			}
			return sb.String()
		}
		src := blk(1 + r.Intn(3))
		c := full
		if r.Intn(3) == 0 {
			c = off
		}
		out := convWith(c, src)
		sample("n", src+" => "+out)
		for _, m := range marks {
			if strings.Contains(out, m) {
				return fmt.Sprintf("HTML %q leaves the placeholder %q in %q", src, m, out)
			}
		}
		at := 0
		for _, w := range words {
			i := strings.Index(out[at:], w)
			if i < 0 {
				return fmt.Sprintf("HTML %q converts to %q: the text %q is lost or out of order", src, out, w)
			}
			at += i + len(w)
			if strings.Count(out, w) != 1 {
				return fmt.Sprintf("HTML %q converts to %q: the text %q is repeated", src, out, w)
			}
		}
		return ""
	})
}

// the context's functions: unescaping takes back what escaping did, for all bytes
func TestVerifC01Context(t *testing.T) {
	for _, mode := range []string{"smart", "disabled"} {
		var in []byte
		var esc, un []byte
		c := converter.NewConverter()
		if mode == "disabled" {
			c = converter.NewConverter(converter.WithEscapeMode("disabled"))
		}
		c.Register.EscapedChar('*', '#', 'a', '[')
		dec := 0
		c.Register.UnEscaper(func(chars []byte, i int) int {
			if dec > 0 && chars[i] == '#' {
				return dec
			}
			return -1
		}, converter.PriorityStandard)
		c.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			esc = ctx.EscapeContent(append([]byte(nil), in...))
			un = ctx.UnEscapeContent(append([]byte(nil), esc...))
			return converter.RenderSuccess
		}, converter.PriorityEarly)
		vrun(t, func(r *rand.Rand) string {
			dec = r.Intn(3)
			in = []byte(randFrom(r, []string{"*", "#", "a", "[", "b", "##", "é", "中", "\xff", "\xc3", "\n", " ", "", "\x00", "]"}, r.Intn(10)))
			lastInput = fmt.Sprintf("mode %s text %q", mode, in)
			sample("c", lastInput)
			if _, err := c.ConvertString("<p>x</p>"); err != nil {
				return err.Error()
			}
			var want, wantUn []byte
			skip := 0
			for k, b := range in {
				if mode == "disabled" {
					want, wantUn = append(want, b), append(wantUn, b)
					continue
				}
				if b == 0 {
					want, wantUn = append(want, "\ufffd"...), append(wantUn, "\ufffd"...)
					skip -= 3
					continue
				}
				if strings.IndexByte("*#a[", b) >= 0 {
					want = append(want, 7)
					if b == '#' && dec > 0 && skip <= 0 {
						wantUn = append(wantUn, '\\')
						if dec == 2 && k+1 < len(in) && strings.IndexByte("*#a[", in[k+1]) >= 0 {
							// the construct is two bytes long: this character and a marker
							skip = 1
						}
					} else if skip > 0 {
						skip--
					}
				}
				want, wantUn = append(want, b), append(wantUn, b)
			}
			if string(esc) != string(want) {
				return fmt.Sprintf("%s: EscapeContent(%q) = %q, want %q", mode, in, esc, want)
			}
			if dec < 2 && string(un) != string(wantUn) {
				return fmt.Sprintf("%s: UnEscapeContent(%q) = %q, want %q (recogniser for # answers %d)", mode, esc, un, wantUn, dec)
			}
			return ""
		})
	}
}
