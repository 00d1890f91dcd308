package htmltomarkdown_test

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
)

const badDest = " []()<>\n\r\t\\"

var urlAlpha = []string{"a", "b", "/", "/", "?", "&", "=", "#", "%20", "%2F", "+", " ", "(", ")", "[", "]", "<", ">", "\\", "é", "%", "..", ".", ":", "@", ";", "\"", "'", "*", "_", "~", "$", "!", ",", "1", "%26", "%3D", "\n", "\t", "\r", "中", "{", "}", "|", "^", "`"}

// destOf converts a link (or an image) to that address and returns the destination
func destOf(c *converter.Converter, u string, o ...converter.ConvertOptionFunc) (string, string) {
	src := `<p><a href="` + attr(u) + `">x</a></p>`
	out := convWith(c, src, o...)
	if !strings.HasPrefix(out, "[x](") || !strings.HasSuffix(out, ")") {
		return "", fmt.Sprintf("HTML %q converts to %q", src, out)
	}
	d := out[4 : len(out)-1]
	img := convWith(c, `<p><img alt="x" src="`+attr(u)+`"></p>`, o...)
	if strings.TrimSpace(u) != "" && img != "![x]("+d+")" {
		return "", fmt.Sprintf("address %q gives the link %q but the image %q", u, out, img)
	}
	return d, ""
}

// no address can break out of the parentheses
func TestVerifC10Chars(t *testing.T) {
	c := newConv()
	vrun(t, func(r *rand.Rand) string {
		u := pick(r, "", "", "http://h.x/", "/", "?", "data:", "mailto:", "//", "http://", "x:") + randFrom(r, urlAlpha, r.Intn(9))
		dom := pick(r, "", "", "example.com", "https://d.org/x/y", "http://[::1]:80", "::", "example.com/é path/(x)")
		d, msg := destOf(c, u, converter.WithDomain(dom))
		if msg != "" {
			return msg
		}
		sample("c", fmt.Sprintf("%q in %q => %q", u, dom, d))
		if strings.ContainsAny(d, badDest) {
			return fmt.Sprintf("address %q with the domain %q gives the destination %q", u, dom, d)
		}
		return ""
	})
}

// relative addresses become absolute, absolute ones stay
func TestVerifC10Absolute(t *testing.T) {
	c := newConv()
	seg := func(r *rand.Rand) string { return pick(r, "a", "b.html", "c-d", "1", "x_y", "~u") }
	vrun(t, func(r *rand.Rand) string {
		scheme, host := pick(r, "http", "https"), pick(r, "example.com", "a.b.c", "h:8080")
		var dp []string
		for n := r.Intn(3); n > 0; n-- {
			dp = append(dp, seg(r))
		}
		dir := "/"
		dom := scheme + "://" + host
		if len(dp) > 0 {
			dom += "/" + strings.Join(dp, "/")
			if r.Intn(2) == 0 {
				dom += "/"
				dir = "/" + strings.Join(dp, "/") + "/"
			} else if len(dp) > 1 {
				dir = "/" + strings.Join(dp[:len(dp)-1], "/") + "/"
			}
		}
		givenDom := dom
		if scheme == "http" && r.Intn(2) == 0 && !strings.Contains(host, ":") {
			givenDom = strings.TrimPrefix(dom, "http://")
		}
		q := pick(r, "", "?k=v", "?b=2&a=1", "#f", "?x#f")
		p := seg(r) + "/" + seg(r)
		var u, want string
		switch r.Intn(9) {
		case 0:
			u, want = "/"+p+q, scheme+"://"+host+"/"+p+q
		case 1:
			u, want = p+q, scheme+"://"+host+dir+p+q
		case 2:
			u, want = "//o.net/"+p+q, scheme+"://o.net/"+p+q
		case 3:
			u = pick(r, "http", "https", "ftp") + "://o.net/" + p + q
			want = u
		case 4:
			u = pick(r, "mailto:a@b.c", "tel:+123", "javascript:x", "data:image/png;base64,AA==", "MAILTO:x@y")
			want = u
			if u == "MAILTO:x@y" {
				want = "mailto:x@y"
			}
		case 5:
			u, want = "./"+p+q, scheme+"://"+host+dir+p+q
		case 6:
			u, want = "#", "#"
		case 7:
			u, want = "/a/../"+p+q, scheme+"://"+host+"/"+p+q
		case 8:
			u, want = "?z=1&y=2", dom+"?z=1&y=2"
		}
		got, msg := destOf(c, u, converter.WithDomain(givenDom))
		if msg != "" {
			return msg
		}
		sample("a", fmt.Sprintf("%q in %q => %q", u, givenDom, got))
		if got != want {
			return fmt.Sprintf("address %q with the domain %q gives %q, expected %q", u, givenDom, got, want)
		}
		if got, _ := destOf(c, u); got != u && u != "MAILTO:x@y" {
			return fmt.Sprintf("address %q without a domain gives %q", u, got)
		}
		return ""
	})
}

// the query keeps its parameters, their order and their form
func TestVerifC10Query(t *testing.T) {
	c := newConv()
	vrun(t, func(r *rand.Rand) string {
		type kv struct {
			k, v string
			kind int
		}
		var ps []kv
		var raw []string
		word := func() string {
			return randFrom(r, []string{"a", "b", "z", " ", "é", "/", ":", "%", "=", "&", "+", "\"", "(", "]", "~", "1", "#", "?", "\\"}, 1+r.Intn(3))
		}
		for n := 1 + r.Intn(4); n > 0; n-- {
			p := kv{word(), word(), r.Intn(3)}
			ps = append(ps, p)
			k, v := url.QueryEscape(p.k), url.QueryEscape(p.v)
			if r.Intn(2) == 0 {
				k, v = strings.ReplaceAll(k, "+", "%20"), strings.ReplaceAll(v, "+", "%20")
			}
			switch p.kind {
			case 0:
				raw = append(raw, k)
			case 1:
				raw = append(raw, k+"=")
			default:
				raw = append(raw, k+"="+v)
			}
		}
		base := pick(r, "/p", "http://h.x/", "", "mailto:a@b.c")
		u := base + "?" + strings.Join(raw, "&")
		d, msg := destOf(c, u)
		if msg != "" {
			return msg
		}
		sample("q", u+" => "+d)
		i := strings.IndexByte(d, '?')
		if i < 0 || d[:i] != base {
			return fmt.Sprintf("address %q gives %q", u, d)
		}
		parts := strings.Split(d[i+1:], "&")
		if len(parts) != len(ps) {
			return fmt.Sprintf("address %q gives %q: %d parameters", u, d, len(parts))
		}
		for i, p := range parts {
			k, v, eq := strings.Cut(p, "=")
			if strings.Contains(p, "+") {
				return fmt.Sprintf("address %q gives %q: a space is written as +", u, d)
			}
			k, e1 := url.QueryUnescape(k)
			v, e2 := url.QueryUnescape(v)
			w := ps[i]
			if w.kind < 2 {
				w.v = ""
			}
			if e1 != nil || e2 != nil || k != w.k || v != w.v || eq != (w.kind > 0) {
				return fmt.Sprintf("address %q gives %q: parameter %d is %q", u, d, i, p)
			}
		}
		return ""
	})
}
