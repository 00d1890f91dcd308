package htmltomarkdown_test

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/cli/html2markdown/cmd"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"github.com/andybalholm/cascadia"
	"golang.org/x/net/html"
)

// The command line tool writes files, so whatever it does it does as an
// unprivileged user who owns nothing but the scratch directory.
var cliScratch string

func cliRun(t *testing.T, f func(r *rand.Rand) string) {
	if os.Getenv("VERIF_CHILD") != "" {
		cliScratch = os.Getenv("VERIF_CHILD")
		syscall.Umask(0o022)
		vrun(t, f)
		return
	}
	d, err := os.MkdirTemp("", "verifcli")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(d)
	os.Chmod(d, 0o755)
	bin := filepath.Join(d, "bin")
	src, _ := os.Open(os.Args[0])
	dst, err := os.OpenFile(bin, os.O_WRONLY|os.O_CREATE, 0o755)
	if err != nil {
		t.Skip(err)
	}
	io.Copy(dst, src)
	dst.Close()
	src.Close()
	w := filepath.Join(d, "w")
	os.Mkdir(w, 0o755)
	os.Chown(w, 65534, 65534)
	c := exec.Command(bin, "-test.run", "^"+t.Name()+"$", "-test.v")
	c.Dir = w
	c.Env = append(os.Environ(), "VERIF_CHILD="+w, "HOME="+w, "TMPDIR="+w, "VERIF_OUT="+w+"/fail.txt")
	if os.Getuid() == 0 {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	out, err := c.CombinedOutput()
	if b, e := os.ReadFile(w + "/fail.txt"); e == nil {
		vfail(t, strings.TrimSpace(string(b)))
	} else if err != nil {
		if !strings.Contains(string(out), "=== RUN") {
			t.Skip("cannot run unprivileged:", err)
		}
		t.Errorf("%v: %s", err, out)
	}
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "CASES ") || strings.HasPrefix(l, "SAMPLE ") {
			fmt.Println(l)
		}
	}
}

// - - - standard input and output - - - //
type fakeInfo struct{ tty bool }

func (f fakeInfo) Name() string       { return "std" }
func (f fakeInfo) Size() int64        { return 0 }
func (f fakeInfo) ModTime() time.Time { return time.Time{} }
func (f fakeInfo) IsDir() bool        { return false }
func (f fakeInfo) Sys() any           { return nil }
func (f fakeInfo) Mode() fs.FileMode {
	if f.tty {
		return fs.ModeCharDevice
	}
	return 0
}

type fakeStd struct {
	bytes.Buffer
	tty bool
}

func (f *fakeStd) Stat() (fs.FileInfo, error) { return fakeInfo{f.tty}, nil }

type cliResult struct {
	out, err string
	code     int
}

// cli runs the tool in the directory; stdin nil means a terminal
func cli(dir string, stdin *string, args ...string) cliResult {
	os.Chdir(dir)
	defer os.Chdir(cliScratch)
	lastInput = fmt.Sprintf("html2markdown %q in %s", args, dir)
	in, out, er := &fakeStd{tty: stdin == nil}, &fakeStd{}, &fakeStd{}
	if stdin != nil {
		in.WriteString(*stdin)
	}
	res := cliResult{code: -1}
	cmd.OsExiter = func(c int) { res.code = c }
	cmd.Run(in, out, er, append([]string{"html2markdown"}, args...), cmd.Release{Version: "1", Commit: "c", Date: "d"})
	res.out, res.err = out.String(), er.String()
	return res
}

// snapshot: every file below dir with its content; links and directories too
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i fs.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case i.IsDir():
			m[rel] = "<dir>"
		case i.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "<link> " + l
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "<file> " + string(b)
		}
		return nil
	})
	return m
}

func diffSnap(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, k+" was removed")
		} else if v != w {
			d = append(d, fmt.Sprintf("%s was changed from %q to %q", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k+" was added")
		}
	}
	sort.Strings(d)
	return d
}

var cliN int

func freshDir() string {
	cliN++
	d := filepath.Join(cliScratch, fmt.Sprint("d", cliN))
	os.MkdirAll(d, 0o755)
	return d
}

func put(dir, name, content string) {
	p := filepath.Join(dir, name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, []byte(content), 0o644)
}

func cliHTML(r *rand.Rand) string {
	cliN++
	return fmt.Sprintf("<p>doc%d %s</p>", cliN, pick(r, "", "<b>bold</b>", "<i>it</i> x", "long long long long text"))
}

// existing files are left alone unless --output-overwrite is given
func TestVerifC19Overwrite(t *testing.T) {
	cliRun(t, func(r *rand.Rand) string {
		d := freshDir()
		defer os.RemoveAll(d)
		over := r.Intn(2) == 0
		n := 1
		asDir := r.Intn(2) == 0
		if asDir {
			n = 1 + r.Intn(4)
		}
		want := map[string]string{}
		var names []string
		for i := 0; i < n; i++ {
			h := cliHTML(r)
			base := pick(r, "a", "b", "site", "x.y") + fmt.Sprint(i)
			put(d, "in/"+base+".html", h)
			md := conv(h)
			if asDir {
				want["out/"+base+".md"] = md
				names = append(names, "out/"+base+".md")
			} else {
				o := pick(r, "out/r.md", "r.md", "out/deep/r", "in/r.txt", "in/"+base+".html")
				want[o] = md
				names = append(names, o)
			}
		}
		exists := map[string]bool{}
		link := ""
		for _, o := range names {
			if strings.HasSuffix(o, ".html") {
				exists[o] = true // the input itself
				continue
			}
			switch r.Intn(6) {
			case 3:
				// a link to nothing
				os.MkdirAll(filepath.Dir(filepath.Join(d, o)), 0o755)
				if !over && os.Symlink(filepath.Join(d, "nowhere"), filepath.Join(d, o)) == nil {
					exists[o] = true
				}
			case 0, 1:
				put(d, o, pick(r, "", "old", strings.Repeat("old content ", 20)))
				exists[o] = true
			case 2:
				put(d, "target/t.md", "linked "+strings.Repeat("z", 100))
				os.MkdirAll(filepath.Dir(filepath.Join(d, o)), 0o755)
				if link == "" && os.Symlink(filepath.Join(d, "target/t.md"), filepath.Join(d, o)) == nil {
					exists[o] = true
					link = o
				}
			}
		}
		put(d, "out/other.md", "other")
		put(d, "keep.txt", "keep")
		args := []string{"--input", "in/*.html"}
		if asDir {
			args = append(args, "--output", pick(r, "out/", "./out/", filepath.Join(d, "out")+"/"))
		} else {
			args = append(args, "--output", names[0])
		}
		if over {
			args = append(args, pick(r, "--output-overwrite", "-output-overwrite", "--output-overwrite=true"))
		} else if r.Intn(3) == 0 {
			args = append(args, "--output-overwrite=false")
		}
		r.Shuffle(len(args)/2, func(i, j int) {
			if len(args)%2 == 0 {
				args[2*i], args[2*j], args[2*i+1], args[2*j+1] = args[2*j], args[2*i], args[2*j+1], args[2*i+1]
			}
		})
		before := snapshot(d)
		var in *string
		if r.Intn(2) == 0 {
			s := "<p>stdin</p>"
			in = &s
		}
		res := cli(d, in, args...)
		after := snapshot(d)
		what := fmt.Sprintf("html2markdown %q (existing outputs %v, link %q): exit %d, stderr %q", args, exists, link, res.code, res.err)
		clash := len(exists) > 0 && !over
		if clash != (res.code == 1) || !clash && res.code != 0 {
			return what + ": wrong exit status"
		}
		if clash && !strings.Contains(res.err, "already exists") {
			return what + ": no message about the existing file"
		}
		if res.out != "" {
			return what + fmt.Sprintf(": wrote %q to standard output", res.out)
		}
		for p, v := range before {
			if md, ok := want[p]; ok && over && p != link {
				_ = md
				continue
			}
			if p == "target/t.md" && over && link != "" {
				if after[p] != "<file> "+want[link] {
					return what + fmt.Sprintf(": %s contains %q, want %q", p, after[p], want[link])
				}
				continue
			}
			if after[p] != v {
				return what + fmt.Sprintf(": %s was %q and is now %q", p, v, after[p])
			}
		}
		for p, v := range after {
			if _, ok := before[p]; ok {
				if md, ok := want[p]; ok && over && p != link && v != "<file> "+md {
					return what + fmt.Sprintf(": %s contains %q, want %q", p, v, md)
				}
				continue
			}
			if v == "<dir>" {
				continue
			}
			md, ok := want[p]
			if !ok || v != "<file> "+md {
				return what + fmt.Sprintf(": unexpected file %s with %q", p, v)
			}
		}
		if !clash {
			for p := range want {
				if _, ok := after[p]; !ok {
					return what + ": " + p + " was not written"
				}
			}
		}
		return ""
	})
}

// many inputs into one directory: one file each
func TestVerifC20Paths(t *testing.T) {
	cliRun(t, func(r *rand.Rand) string {
		d := freshDir()
		defer os.RemoveAll(d)
		byDoc := map[string]string{} // markdown -> input path below in/
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			p := pick(r, "", "x/", "y/", "x/z/", "y/z/") + pick(r, "a", "A", "b", "index", "index", "Index", "a.b", "a b", "é", ".h") + pick(r, ".html", ".html", ".htm", "", ".b.html")
			if _, err := os.Stat(filepath.Join(d, "in", p)); err == nil {
				continue
			}
			h := cliHTML(r)
			put(d, "in/"+p, h)
			if i, err := os.Stat(filepath.Join(d, "in", p)); err != nil || i.IsDir() {
				continue
			}
			byDoc[conv(h)] = p
			if r.Intn(3) == 0 {
				// an input named like the output of another one
				b := filepath.Base(p)
				b = strings.TrimSuffix(b, filepath.Ext(b))
				q := pick(r, "", "x/", "0/", "zz/") + b + "." + fmt.Sprintf("%x", sha256.Sum256([]byte(p)))[:10] + pick(r, ".html", ".2.html", ".htm")
				if _, err := os.Stat(filepath.Join(d, "in", q)); err != nil {
					h := cliHTML(r)
					put(d, "in/"+q, h)
					if i, err := os.Stat(filepath.Join(d, "in", q)); err == nil && !i.IsDir() {
						byDoc[conv(h)] = q
					}
				}
			}
		}
		out := pick(r, "out/", "out/deep/er/", "./out/", "in/out/")
		if out == "in/out/" {
			out = "o/"
		}
		if r.Intn(3) == 0 {
			os.MkdirAll(filepath.Join(d, out), 0o755)
		}
		args := []string{"--input", pick(r, "in/**/*", "./in/**/*", filepath.Join(d, "in")+"/**/*", "in/**"), "--output", out}
		before := snapshot(d)
		res := cli(d, nil, args...)
		after := snapshot(d)
		what := fmt.Sprintf("inputs %v, html2markdown %q: exit %d, stderr %q", byDoc, args, res.code, res.err)
		if res.code != 0 || res.out != "" {
			return what
		}
		got := map[string]string{}
		for p, v := range after {
			if _, ok := before[p]; ok || v == "<dir>" {
				continue
			}
			dir, name := filepath.Split(p)
			if filepath.Clean(dir) != filepath.Clean(out) {
				return what + ": wrote " + p
			}
			in, ok := byDoc[strings.TrimPrefix(v, "<file> ")]
			if !ok {
				return what + fmt.Sprintf(": %s contains %q", p, v)
			}
			if o, dup := got[in]; dup {
				return what + ": " + in + " was written to " + o + " and " + name
			}
			got[in] = name
		}
		plain := map[string]int{}
		group := map[string]int{}
		for _, in := range byDoc {
			b := filepath.Base(in)
			b = strings.TrimSuffix(b, filepath.Ext(b))
			group[b]++
			name, ok := got[in]
			if !ok {
				return what + ": nothing was written for " + in
			}
			hash := fmt.Sprintf("%x", sha256.Sum256([]byte(in)))
			switch name {
			case b + ".md":
				plain[b]++
			case b + "." + hash[:10] + ".md":
			default:
				if k := strings.TrimSuffix(strings.TrimPrefix(name, b+"."+hash[:10]+"."), ".md"); len(k) == 1 && k[0] >= '2' && k[0] <= '9' {
					break
				}
				return what + fmt.Sprintf(": %s was written to %s", in, name)
			}
		}
		taken := map[string]bool{}
		for _, name := range got {
			taken[name] = true
		}
		for b := range group {
			if plain[b] != 1 && !(plain[b] == 0 && taken[b+".md"]) {
				return what + fmt.Sprintf(": %d files have the plain name %s.md", plain[b], b)
			}
		}
		for k, v := range before {
			if after[k] != v {
				return what + ": " + k + " changed"
			}
		}
		return ""
	})
}

// where the output goes
func TestVerifC21Decide(t *testing.T) {
	cliRun(t, func(r *rand.Rand) string {
		d := freshDir()
		defer os.RemoveAll(d)
		n := r.Intn(4)
		md := map[string]string{}
		for i := 0; i < n; i++ {
			h := cliHTML(r)
			put(d, fmt.Sprintf("in/f%d.html", i), h)
			md[fmt.Sprintf("f%d.md", i)] = conv(h)
		}
		os.MkdirAll(filepath.Join(d, "exists.dir"), 0o755)
		os.MkdirAll(filepath.Join(d, "folder/sub"), 0o755)
		os.MkdirAll(filepath.Join(d, "in"), 0o755)
		var args []string
		var in *string
		inputs := 0
		stdinHTML := cliHTML(r)
		fromStdin := false
		multi := false
		switch r.Intn(5) {
		case 0: // standard input
			in = &stdinHTML
			inputs = 1
			fromStdin = true
		case 1: // one file, standard input is ignored
			args = append(args, "--input", "in/f0.html")
			if n > 0 {
				inputs = 1
			}
			in = &stdinHTML
		case 2:
			args = append(args, "--input="+pick(r, "in/*.html", "in/*", "in/f?.html", "**/f*.html"))
			inputs = n
			multi = true
		case 3:
			args = append(args, "--input", pick(r, "in/nothing.html", "in", "in/", "none/*.html"))
			if r.Intn(2) == 0 {
				in = &stdinHTML
			}
		default: // a terminal and no input
		}
		o := pick(r, "", "", "new.md", "new", "new/", "new/deep/", "new/deep/file.md", "exists.dir", "exists.dir/", "folder", "folder/", "folder/sub", "folder/x.md", "exists.dir/new")
		if o != "" {
			args = append(args, "--output", o)
		}
		extra := false
		if r.Intn(8) == 0 {
			extra = true
			args = append(args, pick(r, "in/f0.html", "--unknown", "--inptu=x", "-x", "extra"))
		} else if r.Intn(12) == 0 {
			extra = true
			args = append([]string{pick(r, "--output= ", "--input=", "--include-selector=", "--exclude-selector=p[", "--opt-table-skip-empty-rows", "--opt-table-newline-behavior=skip", "--opt-table-header-promotion")}, args...)
		}
		before := snapshot(d)
		res := cli(d, in, args...)
		after := snapshot(d)
		what := fmt.Sprintf("%d files in in/, html2markdown %q (stdin %v): exit %d, stdout %q, stderr %q", n, args, in != nil, res.code, res.out, res.err)
		ch := diffSnap(before, after)
		bad := extra || inputs == 0 || o == "" && inputs > 1 || o != "" && !strings.HasSuffix(o, "/") && (inputs > 1 || o == "exists.dir" || o == "folder" || o == "folder/sub")
		if bad {
			if res.code != 1 || res.out != "" || res.err == "" || len(ch) > 0 {
				return what + fmt.Sprintf(": must fail and leave everything as it was, changes %v", ch)
			}
			return ""
		}
		if res.code != 0 || res.err != "" {
			return what + ": must succeed"
		}
		one := conv(stdinHTML)
		oname := "output.md"
		if !fromStdin {
			oname = "f0.md"
			one = md["f0.md"]
		}
		_ = multi
		switch {
		case o == "":
			if res.out != one+"\n" || len(ch) > 0 {
				return what + fmt.Sprintf(": must print %q, changes %v", one, ch)
			}
		case strings.HasSuffix(o, "/"):
			for k := 0; k < inputs; k++ {
				nm := fmt.Sprintf("f%d.md", k)
				c := md[nm]
				if inputs == 1 {
					nm, c = oname, one
				}
				if after[filepath.Join(o, nm)] != "<file> "+c {
					return what + fmt.Sprintf(": %s contains %q, want %q", filepath.Join(o, nm), after[filepath.Join(o, nm)], c)
				}
			}
			if f := countFiles(after) - countFiles(before); f != inputs || res.out != "" {
				return what + fmt.Sprintf(": %d new files: %v", f, ch)
			}
		default:
			if after[filepath.Clean(o)] != "<file> "+one {
				return what + fmt.Sprintf(": %s contains %q, want %q", o, after[filepath.Clean(o)], one)
			}
			if f := countFiles(after) - countFiles(before); f != 1 || res.out != "" {
				return what + fmt.Sprintf(": %d new files: %v", f, ch)
			}
		}
		return ""
	})
}

func countFiles(m map[string]string) int {
	n := 0
	for _, v := range m {
		if v != "<dir>" {
			n++
		}
	}
	return n
}

// the flags do what the options of the library do
func TestVerifC26Flags(t *testing.T) {
	cliRun(t, func(r *rand.Rand) string {
		var args []string
		var tops []any
		_ = tops
		strong := "**"
		if r.Intn(3) == 0 {
			strong = pick(r, "__", "**", "_", "x")
			args = append(args, "--opt-strong-delimiter="+strong)
		}
		strike := r.Intn(2) == 0
		if strike {
			args = append(args, "--plugin-strikethrough")
		}
		domain := ""
		if r.Intn(2) == 0 {
			domain = pick(r, "https://example.com", "example.com/x", "http://a.b/c/d?e")
			args = append(args, "--domain", domain)
		}
		tab := r.Intn(2) == 0
		skip, promote, present := false, false, false
		span, nl, pad := "", "", ""
		if tab {
			args = append(args, "--plugin-table")
			if r.Intn(3) == 0 {
				skip = true
				args = append(args, "--opt-table-skip-empty-rows")
			}
			if r.Intn(3) == 0 {
				promote = true
				args = append(args, "--opt-table-header-promotion")
			}
			if r.Intn(3) == 0 {
				present = true
				args = append(args, "--opt-table-presentation-tables")
			}
			if r.Intn(3) == 0 {
				span = pick(r, "empty", "mirror", "bad")
				args = append(args, "--opt-table-span-cell-behavior", span)
			}
			if r.Intn(3) == 0 {
				nl = pick(r, "skip", "preserve", "bad")
				args = append(args, "--opt-table-newline-behavior="+nl)
			}
			if r.Intn(3) == 0 {
				pad = pick(r, "aligned", "minimal", "none", "bad")
				args = append(args, "--opt-table-cell-padding-behavior="+pad)
			}
		}
		inc, exc := "", ""
		if r.Intn(3) == 0 {
			inc = pick(r, "article", "p", ".k", "article, .k")
			args = append(args, "--include-selector", inc)
		}
		if r.Intn(3) == 0 {
			exc = pick(r, "nav", ".x", "b", "table", "nav,b")
			args = append(args, "--exclude-selector="+exc)
		}
		r.Shuffle(len(args), func(i, j int) {})
		// parts that are marked with the selectors they match
		var all, kept strings.Builder
		rows := "<tr><td>a<td>b</tr><tr><td></tr><tr><td colspan=2>c</tr>"
		if r.Intn(4) == 0 {
			rows += "<tr><td>k<br>l</tr>"
		}
		parts := [][2]string{
			{"article", "<article>art <i>i</i></article>"}, {"p", "<p>para <strong>s</strong> <del>d</del></p>"}, {".k", "<div class=k>kk</div>"},
			{"p", "<p><a href='/l?x=1'>l</a> <img src=i.png></p>"}, {"nav", "<nav>NAV</nav>"}, {".x", "<div class='x y'>XX</div>"}, {"table", "<table>" + rows + "</table>"},
			{"table", "<table role=presentation>" + rows + "</table>"}, {"", "<h2>head</h2>"}, {"", "<div>q <b>w</b></div>"},
		}
		for k := 1 + r.Intn(6); k > 0; k-- {
			p := parts[r.Intn(len(parts))]
			s := p[1]
			all.WriteString(s)
			in := inc == ""
			for _, c := range strings.Split(inc, ", ") {
				in = in || c == p[0]
			}
			for _, c := range strings.Split(exc, ",") {
				switch {
				case c == "":
				case c == p[0]:
					in = false
				case c == "b":
					s = strings.ReplaceAll(s, "<b>w</b>", "")
				}
			}
			if in {
				kept.WriteString(s)
			}
		}
		ps := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithStrongDelimiter(strong))}
		if strike {
			ps = append(ps, strikethrough.NewStrikethroughPlugin())
		}
		if tab {
			ps = append(ps, table.NewTablePlugin(table.WithSkipEmptyRows(skip), table.WithHeaderPromotion(promote), table.WithPresentationTables(present),
				table.WithSpanCellBehavior(table.SpanCellBehavior(span)), table.WithNewlineBehavior(table.NewlineBehavior(nl)), table.WithCellPaddingBehavior(table.CellPaddingBehavior(pad))))
		}
		want, err := converter.NewConverter(converter.WithPlugins(ps...)).ConvertString(kept.String(), converter.WithDomain(domain))
		html := all.String()
		res := cli(cliScratch, &html, args...)
		what := fmt.Sprintf("echo %q | html2markdown %q: exit %d, stdout %q, stderr %q", html, args, res.code, res.out, res.err)
		if err != nil {
			if res.code != 1 || res.out != "" {
				return what + fmt.Sprintf(": the library fails with %v", err)
			}
			return ""
		}
		if res.code != 0 || res.out != want+"\n" {
			return what + fmt.Sprintf(": the library returns %q", want)
		}
		sample("c26", what)
		return ""
	})
}

// Selectors that depend on where a node is, on documents where the matching
// nodes are nested and next to each other: what matches is what matches in the
// document as it is, a part is included once, at its place.
func TestVerifC26Selectors(t *testing.T) {
	sels := []string{"li:last-child", "li:first-child", "li:nth-child(2)", "p + p", "h2 ~ p", "div > p", "div p", ".k:last-of-type", "li", "ul", "div", "div, p", "p:only-child", "[class]", ":not(p):not(div)",
		"blockquote", "li:nth-last-child(2)", "div div", "ul ul", "p:has(b)", "p:contains(q)", "b", "ul > li", "body > *", "*", "html", "p:empty", "p:first-of-type", ".k, li", ".k.x", "div:not(:has(p))", "p:nth-child(odd)", "a[href]", "tr:first-child", "td"}
	cliRun(t, func(r *rand.Rand) string {
		n := 0
		word := func() string { n++; return fmt.Sprintf("w%dq", n) }
		cls := func() string { return pick(r, "", "", " class=k", " class='k x'", " class=y") }
		var block func(d int) string
		inline := func() string {
			return pick(r, word(), word()+" <b>"+word()+"</b>", "<a href=/"+word()+">"+word()+"</a> "+word(), "")
		}
		block = func(d int) string {
			if d <= 0 {
				return "<p" + cls() + ">" + inline() + "</p>"
			}
			var sb strings.Builder
			for k := 1 + r.Intn(4); k > 0; k-- {
				switch r.Intn(8) {
				case 0, 1:
					sb.WriteString("<p" + cls() + ">" + inline() + "</p>")
				case 2:
					sb.WriteString("<h2" + cls() + ">" + word() + "</h2>")
				case 3, 4:
					sb.WriteString("<div" + cls() + ">" + pick(r, "", word()) + block(d-1) + pick(r, "", word()) + "</div>")
				case 5:
					sb.WriteString("<blockquote>" + block(d-1) + "</blockquote>")
				case 6:
					sb.WriteString("<ul" + cls() + ">")
					for j := 1 + r.Intn(4); j > 0; j-- {
						sb.WriteString("<li" + cls() + ">" + pick(r, word(), word(), block(d-1)) + "</li>")
					}
					sb.WriteString("</ul>")
				case 7:
					sb.WriteString("<table><tr><td>" + word() + "</td><td>" + word() + "</td></tr><tr><td>" + word() + "</td></tr></table>")
				}
				sb.WriteString(pick(r, "", "\n"))
			}
			return sb.String()
		}
		in := block(1 + r.Intn(3))
		var args []string
		inc, exc := "", ""
		if r.Intn(2) == 0 {
			inc = pick(r, sels...)
			args = append(args, "--include-selector", inc)
		}
		if inc == "" || r.Intn(3) == 0 {
			exc = pick(r, sels...)
			args = append(args, "--exclude-selector", exc)
		}
		doc, err := html.Parse(strings.NewReader(in))
		if err != nil {
			return ""
		}
		find := func(doc *html.Node, sel string, nested bool) []*html.Node {
			g, err := cascadia.ParseGroup(sel)
			if err != nil {
				panic(err)
			}
			var found []*html.Node
			var walk func(n *html.Node)
			walk = func(n *html.Node) {
				for c := n.FirstChild; c != nil; c = c.NextSibling {
					m := g.Match(c)
					if m {
						found = append(found, c)
					}
					if !m || nested {
						walk(c)
					}
				}
			}
			walk(doc)
			return found
		}
		if inc != "" {
			root := &html.Node{}
			for _, n := range find(doc, inc, false) {
				n.Parent.RemoveChild(n)
				root.AppendChild(n)
			}
			doc = root
		}
		if exc != "" {
			for _, n := range find(doc, exc, false) {
				n.Parent.RemoveChild(n)
			}
		}
		out, err := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin())).ConvertNode(doc)
		if err != nil {
			return ""
		}
		res := cli(cliScratch, &in, args...)
		what := fmt.Sprintf("echo %q | html2markdown %q: exit %d, stdout %q, stderr %q", in, args, res.code, res.out, res.err)
		if res.code != 0 || res.out != string(out)+"\n" {
			return what + fmt.Sprintf(": what is selected gives %q", out)
		}
		sample("c26s", what)
		return ""
	})
}
