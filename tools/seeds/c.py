exec(open('/verif/tools/seeds/b.py').read().split('SEEDS=[')[0])
TAB=LIB+['"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"']
def tab(cases, opts=''):
    import json
    b='func TestDemo(t *testing.T) {\n'
    for i,o in cases:
        b+='''	{
		conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), table.NewTablePlugin(%s)))
		if s, err := conv.ConvertString(%s); err != nil || s != %s {
			t.Errorf("%%q %%v", s, err)
		}
	}
'''%(opts,json.dumps(i),json.dumps(o))
    return b+'}\n'
CLI=['"os"','"os/exec"','"path/filepath"','"strings"']
def cli(body):
    return '''
var _ = filepath.Join
var _ = os.ReadFile
func TestDemo(t *testing.T) {
	d := t.TempDir()
	bin := filepath.Join(d, "bin")
	if out, err := exec.Command("go", "build", "-o", bin, "./cli/html2markdown").CombinedOutput(); err != nil { t.Fatal(string(out)) }
	w := filepath.Join(d, "w")
	os.Mkdir(w, 0o755)
	put := func(name, s string) { os.MkdirAll(filepath.Dir(filepath.Join(w, name)), 0o755); os.WriteFile(filepath.Join(w, name), []byte(s), 0o644) }
	get := func(name string) string { b, _ := os.ReadFile(filepath.Join(w, name)); return string(b) }
	run := func(in string, args ...string) (string, bool) {
		c := exec.Command(bin, args...)
		c.Dir = w
		c.Stdin = strings.NewReader(in)
		b, err := c.Output()
		return string(b), err == nil
	}
	_, _, _ = put, get, run
'''+body+'\n}\n'
SEEDS=[
 dict(id='s20', prop='C01', imports=IMP, needs='a backslash directly in front of a character that has to be escaped', breaks='the character is not escaped and becomes markup',
  edits=[('converter/escape.go','		isMarkdownChar := conv.checkIsEscapedChar(r)\n','		isMarkdownChar := conv.checkIsEscapedChar(r) && (index == 0 || chars[index-1] != \'\\\\\' || r == \'\\\\\')\n')],
  demo=eq([("<p>a \\*b* c</p>","a \\\\\\*b* c")])),
 dict(id='s21', prop='C14', imports=TAB, needs='a cell whose text has a backslash in front of a bar and another bar', breaks='bars of the text are taken for already escaped and split the cell',
  edits=[('plugin/table/2_collect.go','		content = bytes.Replace(content, []byte("|"), []byte(`\\|`), -1)','		if !bytes.Contains(content, []byte(`\\|`)) {\n			content = bytes.Replace(content, []byte("|"), []byte(`\\|`), -1)\n		}')],
  demo=tab([("<table><tr><td><code>a\\|b|c</code></td></tr><tr><td>d</td></tr></table>","|            |\n|------------|\n| `a\\\\|b\\|c` |\n| d          |")])),
 dict(id='s22', prop='C15', imports=TAB, needs='a cell with both spans, followed by another cell with a span', breaks='the places of the second one are off',
  edits=[('plugin/table/2_collect.go','		index += colSpan\n','		if rowSpan > 1 && colSpan > 1 {\n			index++\n		} else {\n			index += colSpan\n		}\n')],
  demo=tab([('<table><tr><th rowspan=2 colspan=2>a</th><th colspan=2>b</th></tr><tr><td>c</td><td>d</td></tr></table>',"| a |   | b |   |\n|---|---|---|---|\n|   |   | c | d |")])),
 dict(id='s23', prop='C16', imports=IMP, needs='an image at the end of an inline element, with a space on both sides', breaks='the space after it is lost',
  edits=[('collapse/collapse.go','} else if domFuncs.IsVoidNode(node) ||','} else if domFuncs.IsVoidNode(node) && (node.NextSibling != nil || node.PrevSibling == nil) ||')],
  demo=eq([('<p>a <u>b <img src="/x"></u> c</p>','a b ![](/x) c')])),
 dict(id='s24', prop='C18', imports=LIB, needs='a horizontal rule of different characters, such as *-_', breaks='it is accepted although it is no rule',
  edits=[('plugin/commonmark/validation.go','''		(strings.Count(rule, "*") != len(rule) &&
			strings.Count(rule, "_") != len(rule) &&
			strings.Count(rule, "-") != len(rule)) {''','''		strings.Count(rule, "*")+strings.Count(rule, "_")+strings.Count(rule, "-") != len(rule) {''')],
  demo='''
func TestDemo(t *testing.T) {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHorizontalRule("*-_"))))
	if s, err := conv.ConvertString("<hr>"); err == nil {
		t.Error(s)
	}
}
'''),
 dict(id='s25', prop='C19', imports=CLI, needs='an output file that exists and is empty', breaks='it is overwritten without the flag',
  edits=[('cli/html2markdown/cmd/io_output.go','	if override {\n','	if info, err := os.Stat(filename); err == nil && info.Size() == 0 {\n		override = true\n	}\n	if override {\n')],
  demo=cli('''	put("out.md", "")
	if s, ok := run("<p>a</p>", "--output", "out.md"); ok || get("out.md") != "" { t.Error(s, ok, get("out.md")) }''')),
 dict(id='s26', prop='C20', imports=CLI, needs='two input files of the same name with an upper case letter', breaks='both get the same output name',
  edits=[('cli/html2markdown/cmd/io_output.go','		allNames[name] = true\n','		allNames[strings.ToLower(name)] = true\n')],
  demo=cli('''	put("in/a/Page.html", "<p>a</p>")
	put("in/b/Page.html", "<p>b</p>")
	s, ok := run("", "--input", "in/*/*.html", "--output", "out/")
	l, _ := os.ReadDir(filepath.Join(w, "out"))
	if !ok || len(l) != 2 { t.Error(s, ok, len(l)) }''')),
 dict(id='s27', prop='C21', imports=CLI, needs='several inputs and an output path with a file extension', breaks='the output is taken for a file',
  edits=[('cli/html2markdown/cmd/io_output.go','''	if countInputs > 1 {
		// There are multiple inputs, so the input MUST''','''	if countInputs > 1 && filepath.Ext(outputPath) != ".md" {
		// There are multiple inputs, so the input MUST''')],
  demo=cli('''	put("in/a.html", "<p>a</p>")
	put("in/b.html", "<p>b</p>")
	s, ok := run("", "--input", "in/*.html", "--output", "out.md", "--output-overwrite")
	if ok || get("out.md") != "" { t.Error(s, ok, get("out.md")) }''')),
 dict(id='s28', prop='C22', imports=TAB, needs='header promotion and a table whose only row is empty', breaks='the conversion panics',
  edits=[('plugin/table/2_collect.go','	if len(rows) == 0 {\n','	if rows == nil {\n')],
  demo=tab([("<table></table>","")],"table.WithHeaderPromotion(true)")),
 dict(id='s29', prop='C23', imports=IMP, needs='a space on its own in the second of two adjacent emphasised elements', breaks='the words around it are joined',
  edits=[('internal/domutils/adjacent.go','		for _, child := range children {\n			dom.RemoveNode(child)\n','		for _, child := range children {\n			if isEmptyText(child) {\n				continue\n			}\n			dom.RemoveNode(child)\n')],
  demo=eq([("<p><b>a</b><b> <i>b</i></b></p>","**a *b***")])),
 dict(id='s30', prop='C23', imports=IMP, needs='emphasis around a link and punctuation', breaks='the link covers the punctuation after it',
  edits=[('internal/domutils/swap.go','strings.TrimSpace(node.Data) == ""','strings.Trim(node.Data, " \\t\\r\\n.,;:!?") == ""')],
  demo=eq([("<p><b><a href=/x>a</a>!</b></p>","**[a](/x)!**")])),
 dict(id='s31', prop='C24', imports=IMP, needs='a script inside of a custom element', breaks='the script is in the output',
  edits=[('plugin/base/base.go','		for child := node.FirstChild; child != nil; child = child.NextSibling {\n			// Because','		if node.Type == html.ElementNode && node.DataAtom == 0 {\n			return\n		}\n\n		for child := node.FirstChild; child != nil; child = child.NextSibling {\n			// Because')],
  demo=eq([("<p>a</p><x-y><style>b</style>c</x-y>","a\n\nc")])),
 dict(id='s32', prop='C25', imports=LIB+['"sync"'], needs='several conversions with one converter at the same time', breaks='the shared list of unescape handlers is sorted in place while others read it',
  edits=[('converter/register.go','''	handlers := make(prioritizedSlice[HandleUnEscapeFunc], len(conv.unEscapeHandlers))
	copy(handlers, conv.unEscapeHandlers)
	handlers.Sort()

	return handlers
''','''	conv.unEscapeHandlers.Sort()

	return conv.unEscapeHandlers
''')], demo='''
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
		never := func(chars []byte, index int) int { return -1 }
		for i := 0; i < 400; i++ {
			conv.Register.UnEscaper(never, 2000-i)
		}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if s, err := conv.ConvertString("<p>* a</p><p>1. b</p>"); err != nil || s != "\\\\* a\\n\\n1\\\\. b" {
					t.Errorf("%q %v", s, err)
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
'''),
 dict(id='s33', prop='C26', imports=CLI, needs='the flag to keep newlines and a table with role presentation', breaks='the table is converted without the flag for it',
  edits=[('cli/html2markdown/cmd/cmd_convert.go','table.WithPresentationTables(cli.config.tablePresentationTables)','table.WithPresentationTables(cli.config.tablePresentationTables || cli.config.tableNewlineBehavior == "preserve")')],
  demo=cli('''	if s, ok := run("<table role=presentation><tr><td>a</td></tr></table>", "--plugin-table", "--opt-table-newline-behavior=preserve"); !ok || s != "a\\n" { t.Errorf("%q", s) }''')),
 dict(id='s34', prop='C27', imports=LIB+['"golang.org/x/net/html"'], needs='a tag type registered at a later priority than a RendererFor of another type', breaks='the type of the renderer does not count',
  edits=[('converter/register.go','	r.TagType(tagName, tagType, priority)\n','	if len(r.conv.tagTypes[tagName]) == 0 || priority < PriorityStandard {\n		r.TagType(tagName, tagType, priority)\n	}\n')],
  demo='''
func TestDemo(t *testing.T) {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	conv.Register.TagType("x-y", converter.TagTypeInline, 600)
	conv.Register.RendererFor("x-y", converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus { return converter.RenderTryNext }, converter.PriorityStandard)
	if s, err := conv.ConvertString("<p>a<x-y>b</x-y>c</p>"); err != nil || s != "a\\n\\nb\\n\\nc" {
		t.Errorf("%q %v", s, err)
	}
}
'''),
 dict(id='s36', prop='C26', imports=CLI, needs='an include selector and an exclude selector that depend on the places of elements', breaks='the exclude selector sees the document before the parts are picked',
  edits=[('cli/html2markdown/cmd/cmd_convert.go','''	doc, err = cli.includeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}

	err = cli.excludeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}
''','''	err = cli.excludeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}

	doc, err = cli.includeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}
''')],
  demo=cli('''	if s, ok := run("<div><p>a</p><p>b</p></div><ul><li>c</li></ul>", "--include-selector", "p", "--exclude-selector", "div > p"); !ok || s != "a\\n\\nb\\n" { t.Errorf("%q", s) }''')),
]
