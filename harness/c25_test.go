package htmltomarkdown_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

type sharedKey struct{}

type failingReader struct{ r io.Reader }

func (f failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errors.New("broken pipe")
	}
	return n, err
}

type nopPlugin struct{ name string }

func (p nopPlugin) Name() string                     { return p.name }
func (p nopPlugin) Init(*converter.Converter) error { return nil }

// an input that uses many of the features at once
func sharedInput(r *rand.Rand, k int) string {
	w := func() string { return fmt.Sprintf("k%dw%d", k, r.Intn(1000)) + pick(r, "", "*", " _x_", "&lt;", "`", "#", "1.") }
	parts := []string{
		"<p>" + w() + " <b>" + w() + "</b></p>",
		"<p># " + w() + "<br>- " + w() + "</p>",
		"<ul><li>" + w() + "<li>" + w() + "<ol start=7><li>" + w() + "</ol></ul>",
		`<a href="/` + w() + `" title="` + w() + `">` + w() + `</a>`,
		`<img src="img.png" alt="` + w() + `">`,
		"<blockquote><p>" + w() + "</p><pre><code class=language-go>" + w() + "\n\n```" + w() + "</code></pre></blockquote>",
		"<table><tr><th>" + w() + "<th>" + w() + "<tr><td colspan=2>" + w() + "</table>",
		"<h2>" + w() + "</h2><hr><del>" + w() + "</del><script>" + w() + "</script>",
		"<ul><li>" + w() + "</ul><ul><li>" + w() + "</ul><code>" + w() + "</code>",
		"<p><x-count></x-count> <x-count></x-count><x-id></x-id></p>",
		"<x-tag>" + w() + "<x-block>" + w() + "</x-block></x-tag>",
	}
	var sb strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		sb.WriteString(parts[r.Intn(len(parts))])
	}
	return sb.String()
}

func sharedConv(opt int) *converter.Converter {
	heading := commonmark.WithHeadingStyle(commonmark.HeadingStyleATX)
	if opt == 1 {
		heading = commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext)
	}
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(),
		commonmark.NewCommonmarkPlugin(heading),
		strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
	// the state and the context belong to one conversion
	c.Register.RendererFor("x-count", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		converter.UpdateState(ctx, "count", func(i int) int { return i + 1 })
		i := converter.GetState[int](ctx, "count")
		fmt.Fprintf(w.(*bytes.Buffer), "n%d", i)
		return converter.RenderSuccess
	}, converter.PriorityStandard)
	c.Register.RendererFor("x-id", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		fmt.Fprintf(w.(*bytes.Buffer), "id%v", ctx.Value(sharedKey{}))
		return converter.RenderSuccess
	}, converter.PriorityStandard)
	c.Register.TagType("x-block", converter.TagTypeBlock, converter.PriorityStandard)
	c.Register.TagType("x-block", converter.TagTypeInline, converter.PriorityLate)
	c.Register.TagType("x-block", converter.TagTypeInline, converter.PriorityLate+1)
	return c
}

// Several goroutines share a converter; some also register what changes
// nothing. Every result must be the one a converter of its own gives.
func TestVerifC25Shared(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		opt := r.Intn(2)
		shared := sharedConv(opt)
		const workers = 6
		type job struct {
			in, want, domain string
			ctx              context.Context
		}
		jobs := make([][]job, workers)
		for w := range jobs {
			for k := 0; k < 3; k++ {
				j := job{in: sharedInput(r, w*10+k), domain: pick(r, "", "https://a.example", "https://b.example/x/")}
				j.ctx = context.WithValue(context.Background(), sharedKey{}, w*10+k)
				var err error
				j.want, err = sharedConv(opt).ConvertString(j.in, converter.WithDomain(j.domain), converter.WithContext(j.ctx))
				if err != nil {
					return err.Error()
				}
				jobs[w] = append(jobs[w], j)
			}
		}
		registers := r.Intn(2) == 0
		lastInput = fmt.Sprintf("%q", jobs)
		msgs := make([]string, workers)
		var wg sync.WaitGroup
		done := make(chan bool)
		for w := range jobs {
			wg.Add(1)
			seed := r.Int63()
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						msgs[w] = fmt.Sprintf("panic: %v (inputs %q)", p, jobs[w])
					}
				}()
				r := rand.New(rand.NewSource(seed))
				var kept [][]byte
				var wants []string
				for _, j := range jobs[w] {
					if registers {
						registerNothing(r, shared)
					}
					var got string
					var err error
					switch r.Intn(4) {
					case 0:
						doc, _ := html.Parse(strings.NewReader(j.in))
						var b []byte
						b, err = shared.ConvertNode(doc, converter.WithDomain(j.domain), converter.WithContext(j.ctx))
						got = string(b)
						kept = append(kept, b)
						wants = append(wants, j.want)
					case 1:
						var b []byte
						b, err = shared.ConvertReader(strings.NewReader(j.in), converter.WithDomain(j.domain), converter.WithContext(j.ctx))
						got = string(b)
						kept = append(kept, b)
						wants = append(wants, j.want)
					case 2:
						// a conversion that fails is alone with that
						if _, err := shared.ConvertReader(failingReader{strings.NewReader(j.in)}); err == nil {
							msgs[w] = "a failing reader gave no error"
						}
						continue
					default:
						got, err = shared.ConvertString(j.in, converter.WithDomain(j.domain), converter.WithContext(j.ctx))
					}
					if err != nil {
						msgs[w] = fmt.Sprintf("%q: error %v", j.in, err)
					} else if got != j.want {
						msgs[w] = fmt.Sprintf("%q converted next to others gave %q, alone %q", j.in, got, j.want)
					}
				}
			}()
		}
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			buf := make([]byte, 1<<16)
			return "the goroutines wait for each other: " + string(buf[:runtime.Stack(buf, true)])
		}
		return strings.Join(msgs, "")
	})
}

func registerNothing(r *rand.Rand, c *converter.Converter) {
	p := 1 + r.Intn(2000)
	switch r.Intn(8) {
	case 0:
		c.Register.EscapedChar('*')
	case 1:
		c.Register.UnEscaper(func(chars []byte, index int) int { return -1 }, p)
	case 2:
		c.Register.PreRenderer(func(converter.Context, *html.Node) {}, p)
	case 3:
		c.Register.TextTransformer(func(_ converter.Context, s string) string { return s }, p)
	case 4:
		c.Register.Renderer(func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, p)
	case 5:
		c.Register.PostRenderer(func(_ converter.Context, b []byte) []byte { return b }, p)
	case 6:
		c.Register.TagType("x-block", converter.TagTypeInline, converter.PriorityLate+2+p)
	case 7:
		c.Register.Plugin(nopPlugin{"nop"})
	}
}

// A handler may use the converter it belongs to.
func TestVerifC25Nested(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		c := sharedConv(r.Intn(2))
		inner := "<p>in<b>ner</b></p>"
		where := r.Intn(5)
		reg := r.Intn(2) == 0
		use := func() string {
			if reg {
				registerNothing(r, c)
			}
			s, err := sharedConvert(c, inner)
			if err != nil {
				return err.Error()
			}
			return s
		}
		depth := 0
		once := func() string {
			if depth > 0 {
				return "in**ner**"
			}
			depth++
			defer func() { depth-- }()
			return use()
		}
		got := "in**ner**"
		switch where {
		case 0:
			c.Register.PreRenderer(func(converter.Context, *html.Node) { got = once() }, 300)
		case 1:
			c.Register.RendererFor("x-tag", converter.TagTypeInline, func(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				got = once()
				return converter.RenderTryNext
			}, 300)
		case 2:
			c.Register.PostRenderer(func(_ converter.Context, b []byte) []byte { got = once(); return b }, 300)
		case 3:
			c.Register.TextTransformer(func(_ converter.Context, s string) string { got = once(); return s }, 300)
		case 4:
			c.Register.UnEscaper(func(chars []byte, i int) int { got = once(); return -1 }, 300)
		}
		done := make(chan string, 1)
		in := "<p>a*b <x-tag>c</x-tag></p>"
		want, _ := sharedConv(0).ConvertString(in)
		lastInput = in
		go func() {
			defer func() {
				if p := recover(); p != nil {
					done <- fmt.Sprint("panic: ", p)
				}
			}()
			s, err := c.ConvertString(in)
			if err != nil || s != want || got != "in**ner**" {
				done <- fmt.Sprintf("%q gave %q, %v; within a handler (%d) %q gave %q", in, s, err, where, inner, got)
				return
			}
			done <- ""
		}()
		select {
		case m := <-done:
			return m
		case <-time.After(30 * time.Second):
			return fmt.Sprintf("a conversion within a handler (%d) never ends", where)
		}
	})
}

func sharedConvert(c *converter.Converter, in string) (string, error) { return c.ConvertString(in) }

// The package functions share their state with nobody.
func TestVerifC25Package(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		var wg sync.WaitGroup
		msgs := make([]string, 4)
		for w := range msgs {
			in := sharedInput(r, w)
			want, _ := newConv().ConvertString(in)
			wg.Add(1)
			go func() {
				defer wg.Done()
				got, err := htmltomarkdown.ConvertString(in)
				if err != nil || got != want {
					msgs[w] = fmt.Sprintf("%q gave %q, %v, want %q", in, got, err, want)
				}
			}()
		}
		wg.Wait()
		return strings.Join(msgs, "")
	})
}
