package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

type tcell struct {
	html, md string
	th       bool
	align    string
	rs, cs   int
}

// a model of a table and of what it has to become
type tmodel struct {
	rows     [][]tcell
	header   bool // the first row has th cells
	pad      string
	span     string
	newline  string
	skip     bool
	promote  bool
	present  bool
	role     bool
	caption  string
	thead    bool
	nlInCell bool
}

func cellContent(r *rand.Rand) (string, string) {
	switch r.Intn(16) {
	case 0:
		return "", ""
	case 1:
		return " \n ", ""
	case 2:
		return "<b>b</b> c", "**b** c"
	case 3:
		return "<code>x|y</code>", "`x\\|y`"
	case 4:
		return "a|b", `a\|b`
	case 5:
		return `<a href="/u" title="c|d">l|m</a>`, `[l\|m](/u "c\|d")`
	case 6:
		return `<img src="/i" alt="p|q">`, `![p\|q](/i)`
	case 7:
		return "<p>para</p>", "para"
	case 8:
		return "<div>\n <i>z</i>\n</div>", "*z*"
	case 9:
		return "é中", "é中"
	case 10:
		return "||", `\|\|`
	case 11:
		return "# *x*", `\# \*x*`
	case 12:
		return "<del>q|</del>", `~~q\|~~`
	default:
		s := ""
		for k := r.Intn(12); k >= 0; k-- {
			s += pick(r, "a", "b", "1", "ß", "x")
		}
		return s, s
	}
}

func newTable(r *rand.Rand, spans bool) *tmodel {
	m := &tmodel{
		header:  r.Intn(2) == 0,
		pad:     pick(r, "", "aligned", "aligned", "minimal", "none"),
		span:    pick(r, "", "empty", "mirror", "mirror"),
		newline: pick(r, "", "skip", "preserve"),
		skip:    r.Intn(4) == 0,
		promote: r.Intn(4) == 0,
		present: r.Intn(2) == 0,
		role:    r.Intn(6) == 0,
		thead:   r.Intn(2) == 0,
	}
	if r.Intn(5) == 0 {
		m.caption = pick(r, "cap", "cap | tion")
	}
	empties := r.Intn(4) == 0
	nl := r.Intn(6) == 0
	nr := 1 + r.Intn(5)
	var pending []int // rows still covered, by column
	for y := 0; y < nr; y++ {
		var row []tcell
		col := 0
		leftCovered := false
		for k := r.Intn(5); k > 0; k-- {
			for col < len(pending) && pending[col] > 0 {
				col++
				leftCovered = true
			}
			c := tcell{rs: 1, cs: 1, th: m.header && (y == 0 || (len(row) == 0 && r.Intn(6) == 0))}
			c.html, c.md = cellContent(r)
			if empties && r.Intn(3) > 0 {
				c.html, c.md = pick(r, "", " ", "<b></b>"), ""
			}
			if nl && r.Intn(3) == 0 {
				c.html, c.md = "k<br>l", "k  <br />l"
				m.nlInCell = true
			}
			c.align = pick(r, "", "", "left", "right", "center", "justify", "LEFT")
			if spans && r.Intn(3) == 0 {
				c.cs = 1 + r.Intn(3)
				// a cell never reaches into a column that is still covered
				for x := col; x < col+c.cs; x++ {
					if x < len(pending) && pending[x] > 0 {
						c.cs = x - col
						break
					}
				}
			}
			if spans && !leftCovered && r.Intn(3) == 0 {
				c.rs = 1 + r.Intn(3)
			}
			for x := col; x < col+c.cs; x++ {
				for len(pending) <= x {
					pending = append(pending, 0)
				}
				pending[x] = c.rs
			}
			col += c.cs
			row = append(row, c)
		}
		for x := range pending {
			if pending[x] > 0 {
				pending[x]--
			}
		}
		m.rows = append(m.rows, row)
	}
	if m.header && len(m.rows[0]) == 0 {
		m.header = false
		for _, row := range m.rows {
			for j := range row {
				row[j].th = false
			}
		}
	}
	return m
}

func (m *tmodel) html(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString("<table")
	if m.role {
		b.WriteString(` role="presentation"`)
	}
	b.WriteString(">")
	if m.caption != "" {
		b.WriteString("<caption>" + m.caption + "</caption>")
	}
	for y, row := range m.rows {
		if y == 0 && m.header && m.thead {
			b.WriteString("<thead>")
		}
		b.WriteString("\n<tr>")
		for _, c := range row {
			t := "td"
			if c.th {
				t = "th"
			}
			b.WriteString("<" + t)
			if c.align != "" {
				b.WriteString(` align="` + c.align + `"`)
			}
			if c.cs > 1 {
				b.WriteString(` colspan="` + strconv.Itoa(c.cs) + `"`)
			} else if r.Intn(20) == 0 {
				b.WriteString(` colspan="` + pick(r, "0", "-3", "x", "", "1") + `"`)
			}
			if c.rs > 1 {
				b.WriteString(` rowspan=` + strconv.Itoa(c.rs))
			} else if r.Intn(20) == 0 {
				b.WriteString(` rowspan="` + pick(r, "0", "-3", "x", "", "1") + `"`)
			}
			b.WriteString(">" + pick(r, "", " ", "\n ") + c.html + "</" + t + ">")
		}
		b.WriteString("</tr>")
		if y == 0 && m.header && m.thead {
			b.WriteString("</thead>")
		}
	}
	b.WriteString("</table>")
	return b.String()
}

// grid: the table after every cell is copied into the fields it covers
func (m *tmodel) grid() [][]string {
	var g [][]string
	type pos struct{ y, x int }
	cells := map[pos]string{}
	used := map[pos]bool{}
	maxX := map[int]int{}
	ny := len(m.rows)
	for y, row := range m.rows {
		x := 0
		for _, c := range row {
			for used[pos{y, x}] {
				x++
			}
			for dy := 0; dy < c.rs; dy++ {
				for dx := 0; dx < c.cs; dx++ {
					p := pos{y + dy, x + dx}
					used[p] = true
					if dy == 0 && dx == 0 || m.span == "mirror" {
						cells[p] = c.md
					}
					if x+dx+1 > maxX[y+dy] {
						maxX[y+dy] = x + dx + 1
					}
				}
				if y+dy+1 > ny {
					ny = y + dy + 1
				}
			}
			x += c.cs
		}
	}
	for y := 0; y < ny; y++ {
		var row []string
		for x := 0; x < maxX[y]; x++ {
			row = append(row, cells[pos{y, x}])
		}
		g = append(g, row)
	}
	return g
}

func emptyRow(l []string) bool { return strings.Join(l, "") == "" }

// want: the markdown of the table, or false if it has to stay no table
func (m *tmodel) want() (string, bool) {
	if m.role && !m.present {
		return "", false
	}
	g := m.grid()
	if !m.header {
		g = append([][]string{nil}, g...)
	}
	if m.skip {
		var k [][]string
		for i, row := range g {
			if i == 0 || !emptyRow(row) {
				k = append(k, row)
			}
		}
		g = k
		if len(g) == 1 && emptyRow(g[0]) {
			return "", false
		}
	}
	if m.promote && emptyRow(g[0]) {
		g = g[1:]
	}
	if len(g) == 0 {
		return "", false
	}
	for _, row := range g {
		for _, c := range row {
			if strings.Contains(c, "<br />") && m.newline != "preserve" {
				return "", false
			}
		}
	}
	var aligns []string
	for _, c := range m.rows[0] {
		for k := 0; k < c.cs; k++ {
			aligns = append(aligns, c.align)
		}
	}
	cols := 0
	for _, row := range g {
		cols = max(cols, len(row))
	}
	width := make([]int, cols)
	for x := range width {
		width[x] = 1
		for _, row := range g {
			if x < len(row) {
				width[x] = max(width[x], utf8.RuneCountInString(row[x]))
			}
		}
	}
	aligned := m.pad == "" || m.pad == "aligned"
	line := func(row []string) string {
		if cols == 0 {
			return ""
		}
		s := "|"
		for x := range width {
			c := ""
			if x < len(row) {
				c = row[x]
			}
			switch {
			case aligned:
				c = " " + c + strings.Repeat(" ", width[x]-utf8.RuneCountInString(c)) + " "
			case m.pad == "minimal":
				c = " " + c + " "
			}
			s += c + "|"
		}
		return s
	}
	out := line(g[0]) + "\n"
	if cols > 0 {
		out += "|"
		for x, w := range width {
			if !aligned {
				w = 1
			}
			a := ""
			if x < len(aligns) {
				a = aligns[x]
			}
			l, rr := "-", "-"
			if a == "left" || a == "center" {
				l = ":"
			}
			if a == "right" || a == "center" {
				rr = ":"
			}
			out += l + strings.Repeat("-", w) + rr + "|"
		}
	}
	for _, row := range g[1:] {
		out += "\n" + line(row)
	}
	return strings.Trim(out, "\n"), true
}

func (m *tmodel) conv() *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(),
		table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanCellBehavior(m.span)), table.WithNewlineBehavior(table.NewlineBehavior(m.newline)),
			table.WithCellPaddingBehavior(table.CellPaddingBehavior(m.pad)), table.WithSkipEmptyRows(m.skip), table.WithHeaderPromotion(m.promote), table.WithPresentationTables(m.present))))
}

func tableCase(spans bool) func(r *rand.Rand) string {
	return func(r *rand.Rand) string {
		m := newTable(r, spans)
		in := m.html(r)
		c := m.conv()
		got := convWith(c, "<p>before</p>"+in+"<p>after</p>")
		want, ok := m.want()
		opts := fmt.Sprintf("padding %q span %q newline %q skip empty rows %v promote %v presentation %v", m.pad, m.span, m.newline, m.skip, m.promote, m.present)
		if !ok {
			// no table: but all the content
			rest := strings.ReplaceAll(got, `\`, "")
			for _, row := range m.rows {
				for _, x := range row {
					for _, f := range strings.Fields(strings.ReplaceAll(x.md, "<br />", " ")) {
						f = strings.ReplaceAll(f, `\`, "")
						i := strings.Index(rest, f)
						if i < 0 {
							return fmt.Sprintf("HTML %q (%s) converts to %q: %q is lost", in, opts, got, f)
						}
						rest = rest[i+len(f):]
					}
				}
			}
			if strings.Contains(got, "--|") || !strings.HasPrefix(got, "before") || !strings.HasSuffix(got, "after") {
				return fmt.Sprintf("HTML %q (%s) converts to %q: must not become a table", in, opts, got)
			}
			return ""
		}
		full := "before"
		if want != "" {
			full += "\n\n" + want
		}
		if m.caption != "" {
			full += "\n\n" + m.caption
		}
		full += "\n\nafter"
		if got != full {
			return fmt.Sprintf("HTML %q (%s) converts to %q, want %q", in, opts, got, full)
		}
		sample("c14", fmt.Sprintf("%q -> %q", in, got))
		// and a GFM reader sees the same rows and columns
		if want != "" && m.caption == "" {
			h := gfmHTML(want)
			lines := strings.Split(want, "\n")
			if n := strings.Count(h, "<tr"); n != len(lines)-1 {
				return fmt.Sprintf("HTML %q (%s) converts to %q: a GFM reader sees %d rows, want %d: %q", in, opts, got, n, len(lines)-1, h)
			}
			cols := strings.Count(lines[1], "|") - 1
			if n := strings.Count(h, "<th") - strings.Count(h, "<thead") + strings.Count(h, "<td"); n != cols*(len(lines)-1) {
				return fmt.Sprintf("HTML %q (%s) converts to %q: a GFM reader sees %d cells, want %d: %q", in, opts, got, n, cols*(len(lines)-1), h)
			}
		}
		return ""
	}
}

func TestVerifC14Tables(t *testing.T) { vrun(t, tableCase(false)) }
func TestVerifC15Spans(t *testing.T)  { vrun(t, tableCase(true)) }
