package htmltomarkdown_test

import (
	"bytes"
	"fmt"
	"html"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"github.com/yuin/goldmark"
	"github.com/yuin/goldmark/extension"
)

// vrun calls f with fresh random sources until the budget is used up. f
// returns what went wrong, or "". One bad case ends the run.
func vrun(t *testing.T, f func(r *rand.Rand) string) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.ParseInt(os.Getenv("VERIF_BUDGET_MS"), 10, 64)
	if ms == 0 {
		ms = 3000
	}
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := 0
	for n == 0 || time.Now().Before(end) {
		for k := 0; k < 50; k++ {
			r := rand.New(rand.NewSource(seed*1000003 + int64(n)))
			msg := vcase(f, r)
			n++
			if msg != "" {
				vfail(t, msg)
				fmt.Println("CASES", n)
				return
			}
		}
	}
	fmt.Println("CASES", n)
}

func vcase(f func(r *rand.Rand) string, r *rand.Rand) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v (last input: %s)", p, lastInput)
		}
	}()
	return f(r)
}

func vfail(t *testing.T, msg string) {
	if o := os.Getenv("VERIF_OUT"); o != "" {
		os.WriteFile(o, []byte(msg+"\n"), 0o644)
	}
	t.Error(msg)
}

// knownCase: a defect that is recorded, not repaired. It is reported as
// known while the listed input fails, and as a failure if it is not listed.
func knownCase(t *testing.T, id string, fails bool, what string) {
	if !fails {
		return
	}
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	prop := os.Getenv("VERIF_PROP")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" id="+id+" ") {
			fmt.Println("KNOWN", what)
			return
		}
	}
	if os.Getenv("VERIF_KNOWN") == "" {
		fmt.Println("KNOWN", what)
		return
	}
	vfail(t, what)
}

var sampled = map[string]int{}

func sample(key, s string) {
	if sampled[key] < 2 {
		sampled[key]++
		fmt.Println("SAMPLE", strings.ReplaceAll(s, "\n", "\\n"))
	}
}

var lastInput string

func newConv(o ...commonmark.OptionFunc) *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(o...)))
}

func fullConv() *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
}

func conv(in string) string {
	lastInput = strconv.Quote(in)
	s, err := htmltomarkdown.ConvertString(in)
	if err != nil {
		return "ERROR " + err.Error()
	}
	return s
}

func convWith(c *converter.Converter, in string, o ...converter.ConvertOptionFunc) string {
	lastInput = strconv.Quote(in)
	s, err := c.ConvertString(in, o...)
	if err != nil {
		return "ERROR " + err.Error()
	}
	return s
}

// mdHTML renders markdown with an independent CommonMark implementation.
func mdHTML(md string) string {
	var b bytes.Buffer
	goldmark.Convert([]byte(md), &b)
	return b.String()
}

func gfmHTML(md string) string {
	var b bytes.Buffer
	goldmark.New(goldmark.WithExtensions(extension.Table, extension.Strikethrough)).Convert([]byte(md), &b)
	return b.String()
}

// esc writes text the way goldmark writes it
func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

func hesc(s string) string { return html.EscapeString(s) }

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func randFrom(r *rand.Rand, alpha []string, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(alpha[r.Intn(len(alpha))])
	}
	return sb.String()
}

var mdAlpha = []string{"a", "b", "1", "2", " ", " ", "#", "*", "_", "-", "+", ">", "=", ".", ")", "(", "[", "]", "!", "`", "~", "\\", "<", "é", "\"", "'", ":", "|", "$", "x", "0", "Ġ", "à", "…", "中", "😀", "###", "---", "```", "1.", "==", "](", "[a]"}

// tidy: what is left of a text after whitespace is collapsed and trimmed
func tidy(s string) string {
	f := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	return strings.Join(f, " ")
}

// vrun1 is vrun for cases that take long each
func vrun1(t *testing.T, f func(r *rand.Rand) string) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.ParseInt(os.Getenv("VERIF_BUDGET_MS"), 10, 64)
	if ms == 0 {
		ms = 3000
	}
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := 0
	for n == 0 || time.Now().Before(end) {
		r := rand.New(rand.NewSource(seed*1000003 + int64(n)))
		msg := vcase(f, r)
		n++
		if msg != "" {
			vfail(t, msg)
			break
		}
	}
	fmt.Println("CASES", n)
}
