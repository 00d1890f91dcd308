package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

// every line gets a prefix; the first line another one
func prefixLines(lines []string, first, rest string) []string {
	out := append([]string(nil), lines...)
	for i := range out {
		if i == 0 {
			out[i] = first + out[i]
		} else {
			out[i] = rest + out[i]
		}
	}
	return out
}

var codeAlpha = []string{"a", "b c", "\n", "\n", "\n\n\n", "  \n", " ", "    ", "\t", "`", "```", "~~~", "<b>", "&amp;", "# x", "- y", "1. z", "*", "_", "\\", "[l](u)", "  \n  \n", "é", "\u00a0", "==\n", "> q", "|", "\u2028", "<!-- c -->", "   \n\n", "$", "!["}

// a code block, alone or nested: exactly the code between the fences, with
// only the prefixes of the containers in front of its lines
func TestVerifC05Block(t *testing.T) {
	tick, tilde := newConv(), newConv(commonmark.WithCodeBlockFence("~~~"))
	vrun(t, func(r *rand.Rand) string {
		code := randFrom(r, codeAlpha, r.Intn(10))
		if r.Intn(2) == 0 {
			code = "x" + code
		}
		text, lang := code, ""
		if strings.HasPrefix(code, "\n") {
			text = "\n" + code // the parser drops one newline after <pre>
		}
		class := ""
		if r.Intn(2) == 0 {
			lang = pick(r, "go", "c++", "js", "language", "x-y", "a`b", "a~b", "é")
			class = ` class="` + pick(r, "", "hl ", "hl\n") + pick(r, "language-", "lang-") + lang + pick(r, "", " b", "\nb", "\tb\tc") + `"`
		}
		in := hesc(text)
		src := pick(r, "<pre><code"+class+">"+in+"</code></pre>", "<pre"+class+">"+in+"</pre>")
		if strings.HasPrefix(src, "<pre><code") {
			src = strings.Replace(src, hesc(text), hesc(code), 1)
		}
		if r.Intn(4) == 0 && code != "" && !strings.HasPrefix(code, "\n") { // highlighted code: tags inside are dropped
			k := r.Intn(len(code) + 1)
			if strings.ToValidUTF8(code[:k], "") == code[:k] {
				src = "<pre" + class + "><code><span>" + hesc(code[:k]) + "</span>" + pick(r, "", "<i></i>") + hesc(code[k:]) + "</code></pre>"
			}
		}
		c, fc := tick, "`"
		if r.Intn(2) == 0 {
			c, fc = tilde, "~"
		}
		if strings.Contains(lang, fc) || code == "" && strings.Contains(src, "<code") {
			lang = ""
		}
		body := strings.TrimSuffix(code, "\n")
		fence := strings.Repeat(fc, max(3, longestRun(body, fc[0])+1))
		lines := append(append([]string{fence + lang}, strings.Split(body, "\n")...), fence)
		before := false
		if r.Intn(2) == 0 {
			src, before = "<p>before</p>"+src+"<p>after</p>", true
			lines = append(append([]string{"before", ""}, lines...), "", "after")
		}
		for d := r.Intn(4); d > 0; d-- {
			switch pick(r, "bq", "ul", "ol", "ol9", "div") {
			case "bq":
				src = "<blockquote>" + src + "</blockquote>"
				lines = prefixLines(lines, "> ", "> ")
			case "ul":
				src = "<ul><li>" + src + "</li></ul>"
				lines = prefixLines(lines, "- ", "  ")
			case "ol":
				src = "<ol><li>" + src + "</li></ol>"
				lines = prefixLines(lines, "1. ", "   ")
			case "ol9":
				src = `<ol start="9"><li>x</li><li>` + src + "</li></ol>"
				lines = append([]string{"09. x"}, prefixLines(lines, "10. ", "    ")...)
			default:
				src = "<div>" + src + "</div>"
			}
		}
		_ = before
		out := convWith(c, src)
		sample("b", src+" => "+out)
		if want := strings.Join(lines, "\n"); out != want {
			return fmt.Sprintf("HTML %q converts to %q, expected %q", src, out, want)
		}
		return ""
	})
}

// through the public API with other plugins and escaping switched off
func TestVerifC05Modes(t *testing.T) {
	full := fullConv()
	vrun(t, func(r *rand.Rand) string {
		code := "x" + randFrom(r, codeAlpha, r.Intn(8)) + "y"
		src := "<div><pre><code>" + hesc(code) + "</code></pre></div><p>t</p><pre>" + hesc(code) + "\n</pre>"
		out := convWith(full, src, converter.WithDomain("example.com"))
		f := strings.Repeat("`", max(3, longestRun(code, '`')+1))
		b := f + "\n" + code + "\n" + f
		if want := b + "\n\nt\n\n" + b; out != want {
			return fmt.Sprintf("HTML %q converts to %q, expected %q", src, out, want)
		}
		return ""
	})
}
