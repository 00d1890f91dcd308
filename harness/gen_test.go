package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

// A random document of blocks together with the markdown it stands for.
type gen struct {
	r      *rand.Rand
	bullet string
	rule   string
	end    bool // comments between adjacent lists
	n      int
}

func (g *gen) word() string {
	g.n++
	if g.r.Intn(600) == 0 { // very long
		return fmt.Sprintf("w%d", g.n) + strings.Repeat(pick(g.r, "x", "é", "yx ", "😀"), 200+g.r.Intn(3000)) + "z"
	}
	return fmt.Sprintf("w%c%c", 'a'+g.n/26%26, 'a'+g.n%26) + pick(g.r, "", "", "é", "中", "x", ",", " y", "😀")
}

func (g *gen) ws() string { return pick(g.r, "", "", "\n", "\n\n  ", " ", "\t", "\r\n") }

// lines of inline text
func (g *gen) inline() (string, []string) {
	var h, l []string
	k := 1 + g.r.Intn(5)/3
	if g.r.Intn(600) == 0 { // very many lines
		k = 100 + g.r.Intn(1200)
	}
	for ; k > 0; k-- {
		w := g.word()
		switch g.r.Intn(6) {
		case 0:
			h, l = append(h, "<em>"+w+"</em>"), append(l, "*"+w+"*")
		case 1:
			h, l = append(h, "<span>"+w+"</span>"), append(l, w)
		case 2:
			h, l = append(h, g.wsIn(w)), append(l, w)
		default:
			h, l = append(h, w), append(l, w)
		}
	}
	for i := range l[:len(l)-1] {
		l[i] += "  "
	}
	return strings.Join(h, "<br>"), l
}

func (g *gen) wsIn(w string) string {
	if g.r.Intn(2) == 0 {
		return w
	}
	return w + g.ws()
}

func (g *gen) block(d int) (html string, lines []string, kind string) {
	k := g.r.Intn(12)
	if d <= 0 && k >= 5 {
		k = g.r.Intn(5)
	}
	switch k {
	case 0, 1, 2:
		h, l := g.inline()
		e := pick(g.r, "p", "p", "div", "section")
		return "<" + e + ">" + g.ws() + h + g.ws() + "</" + e + ">", l, "p"
	case 3:
		if g.r.Intn(2) == 0 {
			return "<hr>", []string{g.rule}, "hr"
		}
		n := 1 + g.r.Intn(6)
		w := g.word()
		return fmt.Sprintf("<h%d>%s</h%d>", n, w, n), []string{strings.Repeat("#", n) + " " + w}, "h"
	case 4:
		code := g.word() + randFrom(g.r, []string{"\n", "\n\n\n", "  ", "a", "# b", "  \n", "- c", "`"}, g.r.Intn(5)) + g.word()
		f := strings.Repeat("`", max(3, longestRun(code, '`')+1))
		l := append(append([]string{f}, strings.Split(code, "\n")...), f)
		return "<pre><code>" + code + "</code></pre>", l, "pre"
	case 5, 6, 7:
		h, l := g.blocks(d - 1)
		return "<blockquote>" + g.ws() + h + g.ws() + "</blockquote>", prefixLines(l, "> ", "> "), "bq"
	default:
		return g.list(d)
	}
}

func (g *gen) list(d int) (string, []string, string) {
	n := 1 + g.r.Intn(4)
	if g.r.Intn(12) == 0 {
		n = 9 + g.r.Intn(3)
	}
	if g.r.Intn(600) == 0 {
		n = 90 + g.r.Intn(40)
	}
	e, start, first := "ul", "", 1
	if g.r.Intn(2) == 0 {
		e = "ol"
		if g.r.Intn(2) == 0 {
			v := pick(g.r, "0", "7", "9", "10", "99", "995", "1000", "x", "", "-3", "999999999", "1e3", "+4", "00012", "99999999999999999999", "999999990")
			start = fmt.Sprintf(` start="%s"`, v)
			if k, err := strconv.Atoi(v); err == nil && k >= 0 && k+n-1 <= 999999999 {
				first = k
			}
		}
	}
	width := len(strconv.Itoa(first + n - 1))
	var sb strings.Builder
	sb.WriteString("<" + e + start + ">" + g.ws())
	var lines []string
	for i := 0; i < n; i++ {
		var h string
		var l []string
		if d <= 0 || g.r.Intn(2) == 0 {
			h, l = g.inline()
			if d > 0 && g.r.Intn(4) == 0 { // a list directly after the text of an item
				h2, l2, _ := g.list(d - 1)
				h, l = h+h2, append(append(l, ""), l2...)
			}
		} else {
			h, l = g.blocks(d - 1)
		}
		sb.WriteString("<li>" + g.ws() + h + g.ws() + "</li>" + g.ws())
		m := g.bullet + " "
		if e == "ol" {
			m = fmt.Sprintf("%0*d. ", width, first+i)
		}
		lines = append(lines, prefixLines(l, m, strings.Repeat(" ", len(m)))...)
		if g.r.Intn(12) == 0 {
			sb.WriteString("<li>" + g.ws() + "</li>") // an empty item leaves no trace
		}
	}
	sb.WriteString("</" + e + ">")
	return sb.String(), lines, e
}

func (g *gen) blocks(d int) (string, []string) {
	var sb strings.Builder
	var lines []string
	prev := ""
	k := 1 + g.r.Intn(4)/2
	if g.r.Intn(1000) == 0 && d < 2 { // very many blocks
		k, d = 50+g.r.Intn(600), 0
	}
	for ; k > 0; k-- {
		h, l, kind := g.block(d)
		sb.WriteString(h + g.ws())
		if prev != "" {
			lines = append(lines, "")
			if (prev == "ul" || prev == "ol") && (kind == "ul" || kind == "ol") && g.end {
				lines = append(lines, "<!--THE END-->", "")
			}
		}
		lines = append(lines, l...)
		prev = kind
	}
	return sb.String(), lines
}

func (g *gen) opts() []commonmark.OptionFunc {
	return []commonmark.OptionFunc{commonmark.WithBulletListMarker(g.bullet), commonmark.WithHorizontalRule(g.rule), commonmark.WithListEndComment(g.end)}
}

func newGen(r *rand.Rand) *gen {
	return &gen{r: r, bullet: pick(r, "-", "-", "+", "*"), rule: pick(r, "* * *", "---", "___", "- - -"), end: r.Intn(4) > 0}
}

// one random document, converted
func docCase(r *rand.Rand, mk func(g *gen) (string, []string)) string {
	g := newGen(r)
	src, lines := mk(g)
	out := convWith(newConv(g.opts()...), src)
	sample("d", src+" => "+out)
	if g.end { // where the comments between lists go is not at issue here
		out, lines = wordLines(strings.Split(out, "\n")), strings.Split(wordLines(lines), "\n")
	}
	if want := strings.Join(lines, "\n"); out != want {
		return fmt.Sprintf("HTML %q (bullet %q, list end comments %v) converts to %q, expected %q: %s", src, g.bullet, g.end, out, want, firstDiff(out, want))
	}
	return ""
}

func wordLines(ls []string) string {
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "w") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %d is %q, expected no more", i+1, x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("line %d is %q, expected %q", i+1, x[i], y[i])
		}
	}
	return "lines are missing"
}
