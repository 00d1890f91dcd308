package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/escape"
)

var recog = map[string]func([]byte, int) int{
	"IsItalicOrBold": escape.IsItalicOrBold, "IsBlockQuote": escape.IsBlockQuote, "IsAtxHeader": escape.IsAtxHeader,
	"IsSetextHeader": escape.IsSetextHeader, "IsDivider": escape.IsDivider, "IsOrderedList": escape.IsOrderedList,
	"IsUnorderedList": escape.IsUnorderedList, "IsImageOrLink": escape.IsImageOrLink, "IsFencedCode": escape.IsFencedCode,
	"IsInlineCode": escape.IsInlineCode, "IsBackslash": escape.IsBackslash,
}

var recAlpha = []string{"a", "1", "2", " ", " ", "\n", "\n", "#", "*", "_", "-", "+", ">", "=", ".", ")", "[", "]", "!", "`", "~", "\\", "é", "\t", "###", "---", "```", "1.", "- - -"}

// one recogniser on one random text: it fires exactly where the reference
// says, and what it skips is the construct
func recogCase(r *rand.Rand, names []string, ref func(string, string, int) int) string {
	s := randFrom(r, recAlpha, 1+r.Intn(14))
	if r.Intn(4) == 0 {
		s = strings.Repeat(" ", r.Intn(6)) + strings.Repeat(pick(r, "#", "-", "`", "~", "*", "1", "="), r.Intn(12)) + s
	}
	var m []byte
	var pos []int
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(escChars, s[i]) >= 0 {
			m = append(m, 7)
		}
		pos = append(pos, len(m))
		m = append(m, s[i])
	}
	for i := range pos {
		for _, n := range names {
			lastInput = fmt.Sprintf("%s(%q, %d)", n, m, pos[i])
			got := recog[n](append([]byte(nil), m...), pos[i])
			want := ref(n, s, i)
			if (got != -1) != (want > 0) {
				return fmt.Sprintf("%s on text %q at %d (marked text %q at %d) gives %d; construct length by the reference: %d", n, s, i, m, pos[i], got, want)
			}
			if got != -1 {
				if got < 1 || pos[i]+got > len(m) {
					return fmt.Sprintf("%s on marked text %q at %d gives the length %d", n, m, pos[i], got)
				}
				real := strings.Count(strings.ReplaceAll(string(m[pos[i]:pos[i]+got]), "\a", ""), "") - 1
				if real > want && want > 0 && !strings.Contains(s, "é") {
					return fmt.Sprintf("%s on marked text %q at %d skips %d characters, the construct has only %d", n, m, pos[i], real, want)
				}
			}
		}
	}
	return ""
}

func TestVerifC02Recognisers(t *testing.T) {
	vrun(t, func(r *rand.Rand) string { return recogCase(r, blockNames, refBlock) })
}

func TestVerifC03Recognisers(t *testing.T) {
	vrun(t, func(r *rand.Rand) string { return recogCase(r, inlineNames, refInline) })
}

func randLine(r *rand.Rand) string {
	for {
		s := tidy(randFrom(r, mdAlpha, 1+r.Intn(7)))
		if s != "" {
			return s
		}
	}
}

// paragraphs of lines of literal text through the whole conversion: the
// output is the escaped text, and a CommonMark parser reads back the text
func textCase(r *rand.Rand, oneLine bool) string {
	np := 1 + r.Intn(2)
	var in, plain, want []string
	for p := 0; p < np; p++ {
		nl := 1 + r.Intn(3)
		if oneLine {
			nl = 1
		}
		var hs, ps, ws []string
		for i := 0; i < nl; i++ {
			l := randLine(r)
			hs = append(hs, hesc(l))
			ps = append(ps, strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(l))
			ws = append(ws, esc(l))
		}
		in = append(in, "<p>"+strings.Join(hs, "<br>")+"</p>")
		plain = append(plain, strings.Join(ps, "  \n"))
		want = append(want, "<p>"+strings.Join(ws, "<br>\n")+"</p>")
	}
	src := strings.Join(in, pick(r, "", "\n", " "))
	out := conv(src)
	sample("t", src+" => "+out)
	exp := refEscape(strings.Join(plain, "\n\n"))
	if out != exp {
		return fmt.Sprintf("HTML %q converts to %q, expected %q", src, out, exp)
	}
	if openDefect(plain) {
		return ""
	}
	if got := mdHTML(out); got != strings.Join(want, "\n")+"\n" {
		return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q", src, out, got)
	}
	return ""
}

func TestVerifC02Text(t *testing.T) {
	vrun(t, func(r *rand.Rand) string { return textCase(r, false) })
}

func TestVerifC03Text(t *testing.T) {
	vrun(t, func(r *rand.Rand) string { return textCase(r, r.Intn(2) == 0) })
}

// openDefect: the text falls under one of the recorded defects (see
// known-findings.txt): a pair of brackets over several lines, or backticks
// after an escaped code fence
func openDefect(paras []string) bool {
	for _, p := range paras {
		lines := strings.Split(p, "\n")
		for i, l := range lines {
			if i+1 < len(lines) && strings.LastIndexByte(l, '[') > strings.LastIndexByte(l, ']') {
				return true
			}
			if reFence.MatchString(strings.TrimLeft(l, " ")) && strings.Count(p, "`") > 0 {
				return true
			}
		}
	}
	return false
}

func TestVerifC03Known(t *testing.T) {
	for _, k := range [][3]string{
		{"link-over-lines", "<p>[a<br>b](c)</p>", "<p>[a<br>\nb](c)</p>\n"},
		{"code-after-fence", "<p>````a<br>```b</p>", "<p>````a<br>\n```b</p>\n"},
	} {
		out := conv(k[1])
		got := mdHTML(out)
		knownCase(t, k[0], got != k[2], fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q", k[1], out, got))
	}
}
