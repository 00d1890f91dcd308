package htmltomarkdown_test

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

func ruleOK(s string) bool {
	n := 0
	var c rune
	for _, r := range s {
		switch r {
		case ' ', '\t':
			continue
		case '*', '_', '-':
			if n > 0 && r != c {
				return false
			}
			c = r
			n++
		default:
			return false
		}
	}
	return n >= 3
}

var optJunk = []string{"", "*", "_", "**", "__", "*_", "_*", "***", "-", "+", "--", "=", "x", " ", "* ", "***a", "* * *", "- - -", "---", "___", "_ _ _", "*-*", "**-", "- -", "-\t-\t-", "-----", "* * * *", "\n", "---\n", "```", "~~~", "``", "````", "~~~~", "``~", "atx", "setext", "ATX", "Setext", "1.", "•", "é", "_\x00_", "––", "ab", "a*b", "\\*", "－"}

func TestVerifC18Options(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		em, strong, rule, bullet, fence, heading := "", "", "", "", "", ""
		var opts []commonmark.OptionFunc
		bad := false
		junk := func(good ...string) string {
			if r.Intn(3) > 0 {
				return good[r.Intn(len(good))]
			}
			if r.Intn(6) == 0 {
				return randFrom(r, []string{"*", "_", "-", " ", "`", "~", "+", "\t", "a"}, 1+r.Intn(5))
			}
			return pick(r, optJunk...)
		}
		used := ""
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(6) {
			case 0:
				em = junk("*", "_")
				opts = append(opts, commonmark.WithEmDelimiter(em))
				used += fmt.Sprintf(" em=%q", em)
			case 1:
				strong = junk("**", "__")
				opts = append(opts, commonmark.WithStrongDelimiter(strong))
				used += fmt.Sprintf(" strong=%q", strong)
			case 2:
				rule = junk("***", "---", "_ _ _", "- - - -")
				opts = append(opts, commonmark.WithHorizontalRule(rule))
				used += fmt.Sprintf(" rule=%q", rule)
			case 3:
				bullet = junk("-", "+", "*")
				opts = append(opts, commonmark.WithBulletListMarker(bullet))
				used += fmt.Sprintf(" bullet=%q", bullet)
			case 4:
				fence = junk("```", "~~~")
				opts = append(opts, commonmark.WithCodeBlockFence(fence))
				used += fmt.Sprintf(" fence=%q", fence)
			default:
				heading = junk("atx", "setext")
				switch heading {
				case "atx":
					opts = append(opts, commonmark.WithHeadingStyle(commonmark.HeadingStyleATX))
				case "setext":
					opts = append(opts, commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext))
				default:
					heading = "bad"
					opts = append(opts, commonmark.WithHeadingStyle("bad"))
				}
				used += fmt.Sprintf(" heading=%q", heading)
			}
		}
		def := func(s *string, d string) {
			if *s == "" {
				*s = d
			}
		}
		def(&em, "*")
		def(&strong, "**")
		def(&rule, "* * *")
		def(&bullet, "-")
		def(&fence, "```")
		def(&heading, "atx")
		bad = em != "*" && em != "_" || strong != "**" && strong != "__" || !ruleOK(rule) || bullet != "-" && bullet != "+" && bullet != "*" ||
			fence != "```" && fence != "~~~" || heading != "atx" && heading != "setext"
		plugins := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(opts...)}
		tableBad := false
		if r.Intn(3) == 0 {
			v := pick(r, "", "empty", "mirror", "skip", "preserve", "aligned", "minimal", "none", "x", "Empty", " ")
			switch r.Intn(3) {
			case 0:
				tableBad = v != "" && v != "empty" && v != "mirror"
				plugins = append(plugins, table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanCellBehavior(v)), table.WithSkipEmptyRows(true)))
			case 1:
				tableBad = v != "" && v != "skip" && v != "preserve"
				plugins = append(plugins, table.NewTablePlugin(table.WithHeaderPromotion(true), table.WithNewlineBehavior(table.NewlineBehavior(v))))
			default:
				tableBad = v != "" && v != "aligned" && v != "minimal" && v != "none"
				plugins = append(plugins, table.NewTablePlugin(table.WithCellPaddingBehavior(table.CellPaddingBehavior(v)), table.WithCellPaddingBehavior("")))
			}
			used += fmt.Sprintf(" table option %q", v)
			r.Shuffle(len(plugins), func(i, j int) { plugins[i], plugins[j] = plugins[j], plugins[i] })
		}
		c := converter.NewConverter(converter.WithPlugins(plugins...))
		in := "<h1>h</h1><p><em>a</em> <strong>b</strong></p><hr><ul><li>l</li></ul><pre>c</pre>"
		lastInput = in + used
		for k := 0; k < 2; k++ {
			got, err := c.ConvertString(in)
			if bad || tableBad {
				if err == nil || got != "" {
					return fmt.Sprintf("options%s are not valid, but the conversion returned %q, %v", used, got, err)
				}
				var ve *commonmark.ValidateConfigError
				if bad && !tableBad && !errors.As(err, &ve) {
					return fmt.Sprintf("options%s: the error is %v, not a ValidateConfigError", used, err)
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("options%s are valid, but: %v", used, err)
			}
			h := "# h"
			if heading == "setext" {
				h = "h\n==="
			}
			want := h + "\n\n" + em + "a" + em + " " + strong + "b" + strong + "\n\n" + rule + "\n\n" + bullet + " l\n\n" + fence + "\nc\n" + fence
			if got != want && !strings.HasPrefix(rule, " ") && !strings.HasPrefix(rule, "\t") && !strings.HasSuffix(rule, " ") {
				return fmt.Sprintf("options%s: HTML %q converts to %q, want %q", used, in, got, want)
			}
		}
		return ""
	})
}

type failPlugin struct {
	name string
	err  error
}

func (p failPlugin) Name() string                    { return p.name }
func (p failPlugin) Init(*converter.Converter) error { return p.err }

type errReader struct{ n int }

var errRead = errors.New("cannot read")

func (e *errReader) Read(p []byte) (int, error) {
	if e.n > 0 {
		e.n--
		p[0] = 'x'
		return 1, nil
	}
	return 0, errRead
}

// errors of plugins, of the setup and of the input are returned, and
// nothing is converted
func TestVerifC18Errors(t *testing.T) {
	vrun(t, func(r *rand.Rand) string {
		hasBase, hasCM := false, false
		fails := error(nil)
		noName := false
		var ps []converter.Plugin
		desc := ""
		for k := r.Intn(5); k > 0; k-- {
			switch r.Intn(5) {
			case 0, 1:
				hasBase = true
				ps = append(ps, base.NewBasePlugin())
				desc += " base"
			case 2:
				hasCM = true
				ps = append(ps, commonmark.NewCommonmarkPlugin())
				desc += " commonmark"
			case 3:
				p := failPlugin{name: pick(r, "p", "base2"), err: nil}
				if r.Intn(2) == 0 {
					p.err = fmt.Errorf("failure %d", r.Intn(100))
					fails = p.err
				}
				ps = append(ps, p)
				desc += fmt.Sprintf(" plugin(%v)", p.err)
			default:
				if r.Intn(3) == 0 {
					noName = true
					ps = append(ps, failPlugin{})
					desc += " nameless"
				}
			}
		}
		c := converter.NewConverter()
		if r.Intn(2) == 0 {
			c = converter.NewConverter(converter.WithPlugins(ps...))
		} else {
			for _, p := range ps {
				c.Register.Plugin(p)
			}
		}
		got, err := c.ConvertString("<p>x</p>")
		want := fails != nil || noName || !hasCM || !hasBase
		if want != (err != nil) || err != nil && got != "" {
			return fmt.Sprintf("plugins%s: conversion returned %q, %v", desc, got, err)
		}
		if fails != nil && !noName {
			if u := errors.Unwrap(err); u == nil || !strings.HasPrefix(u.Error(), "failure") {
				return fmt.Sprintf("plugins%s: the error %v does not wrap that of the plugin", desc, err)
			}
		}
		if err == nil && got != "x" {
			return fmt.Sprintf("plugins%s: got %q", desc, got)
		}
		if b, e := newConv().ConvertReader(&errReader{r.Intn(5)}); !errors.Is(e, errRead) || b != nil {
			return fmt.Sprintf("failing reader: got %q, %v", b, e)
		}
		return ""
	})
}
