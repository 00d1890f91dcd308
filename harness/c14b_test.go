package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// content or surroundings a markdown table cannot have: no table, no loss
func TestVerifC14NoTable(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		n := 1 + r.Intn(3)
		k := 1 + r.Intn(3)
		bad := r.Intn(n * k)
		mode := r.Intn(2)
		deep := pick(r, "%s", "<div>%s</div>", "<section><div>%s</div></section>", "<p></p>%s")
		var b strings.Builder
		var want []string
		b.WriteString("<table>")
		for i := 0; i < n; i++ {
			b.WriteString("<tr>")
			for j := 0; j < k; j++ {
				w := fmt.Sprintf("w%dx%d", i, j)
				want = append(want, w)
				c := w
				if mode == 0 && i*k+j == bad {
					c = pick(r, "<h1>"+w+"</h1>", "<h6>"+w+"</h6>", "<h3>"+w+"</h3>", w+"<hr>", "<ul><li>"+w+"</li></ul>", "<ol><li>"+w+"</li></ol>", "<blockquote>"+w+"</blockquote>",
						"<table><tr><td>"+w+"</td></tr></table>", "<p>"+w+"</p><p>y</p>", "<pre>"+w+"</pre>", w+"<br>y")
					c = fmt.Sprintf(deep, c)
				}
				b.WriteString("<td> " + c + " </td>")
			}
			b.WriteString("</tr>")
		}
		b.WriteString("</table>")
		in := b.String()
		if mode == 1 {
			e := pick(r, "a href=/x", "b", "strong", "em", "i", "del", "s", "strike")
			in = "<" + e + ">" + pick(r, "", "<div>") + in + "</" + strings.Fields(e)[0] + ">"
		}
		in = "<p>before</p>" + in + "<p>after</p>"
		got := convWith(fullConv(), in)
		if mode == 0 && strings.Contains(in, "<table><tr><td>"+want[bad]+"</td></tr></table>") {
			// the inner one may be a table
			got = strings.Replace(got, "|--", "", 1)
		}
		if strings.Contains(got, "|--") {
			return fmt.Sprintf("HTML %q converts to %q: must not become a table", in, got)
		}
		rest := got
		for _, w := range append(append([]string{"before"}, want...), "after") {
			i := strings.Index(rest, w)
			if i < 0 {
				return fmt.Sprintf("HTML %q converts to %q: %q is lost", in, got, w)
			}
			rest = rest[i+len(w):]
		}
		return ""
	})
}

// whatever the cells contain, the lines of a table have the same number of
// cells
func TestVerifC14Rectangular(t *testing.T) {
	alpha := []string{"a", " ", "|", "\\", "<br>", "<code>", "</code>", "<b>", "</b>", "`", "*", "<p>", "</p>", "<pre>", "</pre>", "\n", "<a href='u|' title='|'>", "</a>", "<img src=x alt='a|b\nc' title='\"|\n\n'>", "&#13;", "é", "-", ":", "~", "<del>", "</del>", "<span>", "</span>", "x", "<div>", "</div>"}
	vrun(t, func(r *rand.Rand) string {
		n := 1 + r.Intn(4)
		cols := 0
		var b strings.Builder
		b.WriteString("<table>")
		for i := 0; i < n; i++ {
			b.WriteString("<tr>")
			k := 1 + r.Intn(3)
			cols = max(cols, k)
			for j := 0; j < k; j++ {
				s := "q"
				for m := r.Intn(6); m > 0; m-- {
					s += pick(r, alpha...)
				}
				b.WriteString("<td>" + s + "q</td>")
			}
			b.WriteString("</tr>")
		}
		b.WriteString("</table>")
		in := b.String()
		nl := pick(r, "skip", "preserve", "preserve")
		c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin(table.WithNewlineBehavior(table.NewlineBehavior(nl)), table.WithCellPaddingBehavior(table.CellPaddingBehavior(pick(r, "aligned", "minimal", "none"))))))
		got := convWith(c, in)
		if !strings.HasPrefix(got, "|") {
			if nl == "preserve" {
				return fmt.Sprintf("HTML %q (newlines preserved) converts to %q: no table", in, got)
			}
			return ""
		}
		lines := strings.Split(got, "\n")
		if len(lines) != n+2 {
			return fmt.Sprintf("HTML %q (newlines %s) converts to %q: %d lines, want %d", in, nl, got, len(lines), n+2)
		}
		for _, l := range lines {
			bars := 0
			for i := 0; i < len(l); i++ {
				if l[i] == '|' && (i == 0 || l[i-1] != '\\') {
					bars++
				}
			}
			// a cell can end with a backslash only before its padding
			if bars != cols+1 || l[0] != '|' || l[len(l)-1] != '|' {
				return fmt.Sprintf("HTML %q (newlines %s) converts to %q: line %q has %d bars, want %d", in, nl, got, l, bars, cols+1)
			}
		}
		return ""
	})
}

func TestVerifC15Known(t *testing.T) {
	in := "<table><tr><th rowspan=2>a</th><th>b</th></tr><tr><td rowspan=2>c</td></tr><tr><td>d</td></tr></table>"
	got := convWith(fullConv(), in)
	want := "| a | b |\n|---|---|\n|   | c |\n| d |   |"
	knownCase(t, "rowspan-right-of-rowspan", got != want, fmt.Sprintf("HTML %q converts to %q, want %q", in, got, want))
	fmt.Println("CASES 1")
}
