package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

var titleAlpha = []string{"a", "b c", `"`, "'", `\`, "\\", "(", ")", "[", "]", "*", "_", "`", "é", "<", ">", "#", "\n", "\n\n", "\r", "  ", "!", `\"`, "~", "|", "$"}

func attr(s string) string {
	return strings.NewReplacer("&", "&amp;", `"`, "&quot;", "\r", "&#13;").Replace(s)
}

// what a CommonMark parser makes of a title: white space aside
func wantTitle(s string) string {
	s = strings.NewReplacer("\n", " ", "\r", " ").Replace(s)
	if s == "" {
		return ""
	}
	return ` title="` + esc(s) + `"`
}

var dests = []string{"/u", "https://x.y/a?b=c", "a b", "x(y", "x)y", "((", "<x>", "a[b]", "/p?q=1&r=2", "#f", "é/ü", "mailto:a@b.c", "x\\y", "a\nb", "/a\"b", "'", "*x*", "_y_", "a`b", "http://[::1", ":", "%zz", "javascript:void(0)", "a\rb", "tel:+1 2", "data:text/plain,a(b)c d"}

// a link: the parser finds one link with that text and that title
func TestVerifC09Link(t *testing.T) {
	c := newConv()
	vrun(t, func(r *rand.Rand) string {
		text := headLine(r)
		title := ""
		if r.Intn(2) == 0 {
			title = randFrom(r, titleAlpha, r.Intn(7))
		}
		dest := dests[r.Intn(len(dests))]
		src := `<a href="` + attr(dest) + `" title="` + attr(title) + `">` + hesc(text) + "</a>"
		pre, post := pick(r, "q ", "", "(", "q"), pick(r, " z", "", ")", "z")
		out := convWith(c, "<p>"+pre+src+post+"</p>")
		sample("l", src+" => "+out)
		got := mdHTML(out)
		i, j := strings.Index(got, `<a href="`), strings.LastIndex(got, "</a>")
		if i < 0 || j < i || strings.Count(got, "<a ") != 1 {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q: not one link", src, out, got)
		}
		if got[:i] != "<p>"+esc(pre) || got[j:] != "</a>"+esc(post)+"</p>\n" {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q: text around the link changed", src, out, got)
		}
		a := got[i:j]
		k := strings.Index(a[9:], `"`) + 10
		if want := wantTitle(title) + ">" + esc(text); a[k:] != want {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q, expected the link to end in %q", src, out, got, want)
		}
		return ""
	})
}

// an image: one image with that description and that title
func TestVerifC09Image(t *testing.T) {
	c := newConv()
	vrun(t, func(r *rand.Rand) string {
		alt, title := randFrom(r, titleAlpha, r.Intn(7)), ""
		if r.Intn(2) == 0 {
			title = randFrom(r, titleAlpha, r.Intn(7))
		}
		dest := dests[r.Intn(len(dests))]
		img := `<img src="` + attr(dest) + `" alt="` + attr(alt) + `" title="` + attr(title) + `">`
		src := "<p>q " + img + " z</p>"
		inLink := r.Intn(4) == 0
		if inLink {
			src = `<p>q <a href="/l">` + img + "</a> z</p>"
		}
		out := convWith(c, src)
		sample("i", src+" => "+out)
		got := mdHTML(out)
		i := strings.Index(got, "<img ")
		if i < 0 || strings.Count(got, "<img ") != 1 || strings.Contains(got, "<a ") != inLink || strings.Count(got, "<p>") != 1 {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q: not one image", src, out, got)
		}
		if !strings.HasPrefix(got, "<p>q <") || !strings.HasSuffix(got, "> z</p>\n") {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q: text around the image changed", src, out, got)
		}
		if want := wantTitle(title) + ">"; title != "" && !strings.Contains(got, want) || title == "" && strings.Contains(got, "title=") {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q, expected %q", src, out, got, want)
		}
		if strings.ContainsAny(alt, "*_`\\<>[]~|") {
			return ""
		}
		if want := ` alt="` + esc(strings.NewReplacer("\n", " ", "\r", " ").Replace(alt)) + `"`; !strings.Contains(got, want) {
			return fmt.Sprintf("HTML %q converts to %q, which CommonMark reads as %q, expected %q", src, out, got, want)
		}
		return ""
	})
}

// links over several lines, with blank lines and other elements inside
func TestVerifC09Lines(t *testing.T) {
	c, skip := newConv(), newConv(commonmark.WithLinkEmptyHrefBehavior("skip"), commonmark.WithLinkEmptyContentBehavior("skip"))
	vrun(t, func(r *rand.Rand) string {
		words := []string{}
		var sb strings.Builder
		for n := 1 + r.Intn(4); n > 0; n-- {
			w := pick(r, "one", "two", "three", "é")
			words = append(words, w)
			sb.WriteString(pick(r, w+"<br>", w+"<br><br>", "<p>"+w+"</p>", "<div>"+w+"</div>", "<em>"+w+"</em> ", w+" ", "<strong>"+w+"</strong><br>", "<b> "+w+"</b>\n ", "<br>"+w))
		}
		sp1, sp2 := pick(r, "", " ", "\n"), pick(r, "", " ", "\n")
		href := pick(r, "/u", "/u", "")
		src := `<div>q <a href="` + href + `">` + sp1 + sb.String() + sp2 + "</a> z</div>"
		cc, kind := c, "render"
		if r.Intn(4) == 0 {
			cc, kind = skip, "skip"
		}
		out := convWith(cc, src)
		sample("m", src+" => "+out)
		got := mdHTML(out)
		links := 1
		if kind == "skip" && href == "" {
			links = 0
		}
		if strings.Count(got, "<a href=\""+href+"\">") != links {
			return fmt.Sprintf("%s: HTML %q converts to %q, which CommonMark reads as %q, expected %d link", kind, src, out, got, links)
		}
		at := 0
		body := got
		if links == 1 {
			body = got[strings.Index(got, "<a "):strings.Index(got, "</a>")]
		}
		for _, w := range words {
			i := strings.Index(body[at:], w)
			if i < 0 {
				return fmt.Sprintf("%s: HTML %q converts to %q, which CommonMark reads as %q: %q is not in the link", kind, src, out, got, w)
			}
			at += i + len(w)
		}
		return ""
	})
}

// empty links, per option
func TestVerifC09Empty(t *testing.T) {
	for _, k := range [][4]string{
		{"render", "render", `<p>q<a href="/u"></a></p>`, "q[](/u)"},
		{"render", "skip", `<p>q<a href="/u"></a></p>`, "q"},
		{"render", "render", `<p>q <a href="" title="t">x</a> z</p>`, "q [x]() z"},
		{"skip", "render", `<p>q <a href="" title="t">x</a> z</p>`, "q x z"},
		{"render", "render", `<p>q <a title="t">x</a> z</p>`, "q [x]() z"},
		{"skip", "skip", `<p>q <a>x</a> z</p>`, "q x z"},
		{"skip", "skip", `<p>q <a href=" ">x</a> z</p>`, "q x z"},
		{"render", "skip", `<p>q <a href="/u" title="a'b&quot;c">x</a> z</p>`, `q [x](/u "a'b\"c") z`},
		{"render", "render", `<p>q <a href="/u" title='a"b'>x</a> z</p>`, `q [x](/u 'a"b') z`},
		{"render", "render", `<p>q <img src="" alt="x"> z</p>`, "q  z"},
		{"render", "render", `<p>q <img src=" " alt="x"> z</p>`, "q  z"},
	} {
		o := []commonmark.OptionFunc{}
		if k[0] == "skip" {
			o = append(o, commonmark.WithLinkEmptyHrefBehavior("skip"))
		}
		if k[1] == "skip" {
			o = append(o, commonmark.WithLinkEmptyContentBehavior("skip"))
		}
		if out := convWith(newConv(o...), k[2]); tidy(out) != tidy(k[3]) {
			vfail(t, fmt.Sprintf("empty href %s, empty content %s: HTML %q converts to %q, expected %q", k[0], k[1], k[2], out, k[3]))
		}
	}
	fmt.Println("CASES 11")
}

// the quotes around a title end where the title ends
func TestVerifC09Quotes(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		s := randFrom(r, []string{"a", " ", `"`, "'", `\`, "é", "]", ")", `\\`, `\"`}, 1+r.Intn(7))
		lastInput = fmt.Sprintf("%q", s)
		got := string(textutils.SurroundByQuotes([]byte(s)))
		q := got[0]
		if q != '"' && q != '\'' || got[len(got)-1] != q {
			return fmt.Sprintf("title %q is written as %q", s, got)
		}
		var back strings.Builder
		in := got[1 : len(got)-1]
		for i := 0; i < len(in); i++ {
			if in[i] == '\\' && i+1 < len(in) && isPunct(in[i+1]) {
				i++
				back.WriteByte(in[i])
				continue
			}
			if in[i] == q {
				return fmt.Sprintf("title %q is written as %q, which ends early", s, got)
			}
			back.WriteByte(in[i])
		}
		if strings.HasSuffix(in, `\`) && !strings.HasSuffix(in, `\\`) || back.String() != s {
			return fmt.Sprintf("title %q is written as %q, which reads back as %q", s, got, back.String())
		}
		return ""
	})
}
