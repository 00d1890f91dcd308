CONV='''
func conv(t *testing.T, in string) string {
	s, err := htmltomarkdown.ConvertString(in)
	if err != nil { t.Fatal(err) }
	return s
}
'''
IMP=['htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"']
def eq(cases):
    b=CONV+'\nfunc TestDemo(t *testing.T) {\n'
    for i,o in cases:
        import json
        b+='\tif got := conv(t, %s); got != %s {\n\t\tt.Errorf("%%q", got)\n\t}\n'%(json.dumps(i,ensure_ascii=False),json.dumps(o,ensure_ascii=False))
    return b+'}\n'
LIB=['"github.com/JohannesKaufmann/html-to-markdown/v2/converter"','"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"','"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"']
SEEDS=[
 dict(id='s09', prop='C09', imports=IMP, needs='a title with single quotes and three or more double quotes', breaks='a double quote in the middle ends the title',
  edits=[('internal/textutils/quote.go','''content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))''','''content = bytes.Replace(content, []byte(`"`), []byte(`\\"`), 2)''')],
  demo=eq([("""<p><a href="/x" title="&quot;a&quot; it's &quot;b&quot;">t</a></p>""", '''[t](/x "\\"a\\" it's \\"b\\"")''')])),
 dict(id='s10', prop='C10', imports=IMP, needs='a query with an empty parameter between two ampersands', breaks='the empty parameter is dropped and the order shifts',
  edits=[('converter/url.go','''			encodedParts[i] = decodeAndEncode(splitted[0]) + "="
''','''			encodedParts[i] = decodeAndEncode(splitted[0])
			if encodedParts[i] != "" && i+1 < len(rawParts) {
				encodedParts[i] += "="
			}
''')], demo=eq([("""<p><a href="/x?a=&b=&=">t</a></p>""",'[t](/x?a=&b=&=)')])),
 dict(id='s11', prop='C11', imports=IMP, needs='an ordered list that starts at 8 and has 3 items (passes a power of ten)', breaks='the numbers are not equally wide, so the later lines of some items fall out of them',
  edits=[('plugin/commonmark/render_list.go','''		maxLength := utf8.RuneCountInString(strconv.Itoa(lastIndex))''','''		maxLength := utf8.RuneCountInString(strconv.Itoa(startAt))
		if sliceIndex == 0 || sliceLength > 4 {
			maxLength = utf8.RuneCountInString(strconv.Itoa(lastIndex))
		}''')], demo=eq([('<ol start="8"><li>a</li><li>b</li><li>c</li></ol>','08. a\n09. b\n10. c')])),
 dict(id='s14', prop='C17', imports=LIB, needs='two unescape handlers registered in descending order of priority', breaks='they run in the order they were registered in',
  edits=[('converter/register.go','''	copy(handlers, conv.unEscapeHandlers)
	handlers.Sort()
''','''	copy(handlers, conv.unEscapeHandlers)
''')], demo='''
func TestDemo(t *testing.T) {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	first := ""
	conv.Register.UnEscaper(func(chars []byte, index int) int { if first == "" { first = "late" }; return -1 }, 2)
	conv.Register.UnEscaper(func(chars []byte, index int) int { if first == "" { first = "early" }; return -1 }, 1)
	if _, err := conv.ConvertString("<p>* a</p>"); err != nil || first != "early" {
		t.Error(first, err)
	}
}
'''),
 dict(id='s15', prop='C17', imports=LIB, needs='a post-render handler that returns an empty result', breaks='its result is ignored and the next handler gets the old content',
  edits=[('converter/convert.go','''		result = handler.Value(customCtx, result)
''','''		if r := handler.Value(customCtx, result); len(r) > 0 {
			result = r
		}
''')], demo='''
func TestDemo(t *testing.T) {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	conv.Register.PostRenderer(func(ctx converter.Context, c []byte) []byte { return nil }, converter.PriorityLate+500)
	if s, err := conv.ConvertString("<p>a</p>"); err != nil || s != "" {
		t.Errorf("%q %v", s, err)
	}
}
'''),
 dict(id='s19', prop='C27', imports=LIB+['"golang.org/x/net/html"'], needs='an element without a registered or built-in tag type rendered as plain text inside a block', breaks='it is treated as a block',
  edits=[('plugin/base/renderers.go','''	if tagType == converter.TagTypeBlock {
		w.WriteString("\\n\\n")
	}
	ctx.RenderChildNodes(ctx, w, node)
''','''	if tagType != converter.TagTypeInline {
		w.WriteString("\\n\\n")
	}
	ctx.RenderChildNodes(ctx, w, node)
''')], demo='''
var _ *html.Node
func TestDemo(t *testing.T) {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	conv.Register.RendererFor("b", converter.TagTypeInline, base.RenderAsPlaintextWrapper, 1)
	conv.Register.RendererFor("x-y", "", base.RenderAsPlaintextWrapper, 1)
	if s, err := conv.ConvertString("<p>a<x-y>b</x-y>c</p>"); err != nil || s != "abc" {
		t.Errorf("%q %v", s, err)
	}
}
'''),
 dict(id='s05', prop='C05', imports=IMP, needs='a code block with lines that end in a tab', breaks='the tab at the end of the line is lost',
  edits=[('plugin/commonmark/commonmark.go','	return bytes.ReplaceAll(\n		content,\n		[]byte(string(marker.BytesMarkerCodeBlockNewline)),','	content = bytes.ReplaceAll(content, append([]byte{9}, marker.BytesMarkerCodeBlockNewline...), marker.BytesMarkerCodeBlockNewline)\n	return bytes.ReplaceAll(\n		content,\n		[]byte(string(marker.BytesMarkerCodeBlockNewline)),')],
  demo=eq([("<pre><code>a\t\nb</code></pre>","```\na\t\nb\n```")])),
 dict(id='s06', prop='C06', imports=IMP, needs='code with a run of three or more spaces', breaks='only the second of the spaces is dropped',
  edits=[('internal/textutils/collapse_code.go','if count > 1 {','if count > 1 && count < 8 {')],
  demo=eq([("<p>x <code>a         b</code></p>","x `a b`")])),
 dict(id='s07', prop='C07', imports=IMP, needs='emphasised text that starts with a line separator (U+2028)', breaks='the opening delimiter is put before the white space',
  edits=[('internal/textutils/surrounding_spaces.go','trimmed := bytes.TrimLeftFunc(rightTrimmed, func(r rune) bool {\n		return unicode.IsSpace(r)','trimmed := bytes.TrimLeftFunc(rightTrimmed, func(r rune) bool {\n		return unicode.IsSpace(r) && !unicode.Is(unicode.Zl, r)')],
  demo=eq([("<p>a<em>\u2028b</em></p>","a\u2028*b*")])),
 dict(id='s08', prop='C08', imports=IMP+LIB, needs='a setext heading with four or more lines', breaks='the underline is as wide as all the later lines together',
  edits=[('plugin/commonmark/render_heading.go','parts := bytes.Split(content, []byte("\\n"))','parts := bytes.SplitN(content, []byte("\\n"), 4)')],
  demo="""
func TestDemo(t *testing.T) {
	_, _ = htmltomarkdown.ConvertString("")
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHeadingStyle("setext"))))
	if s, err := conv.ConvertString("<h1>abc<br>def<br>ghi<br>jkl<br>mno</h1>"); err != nil || s != "abc  \\ndef  \\nghi  \\njkl  \\nmno\\n=====" {
		t.Errorf("%q %v", s, err)
	}
}
"""),
 dict(id='s13', prop='C13', imports=IMP, needs='a paragraph that consists only of invalid bytes or NUL characters between two others', breaks='the blank line after it is lost and the paragraphs run together',
  edits=[('internal/textutils/consecutive_newlines.go','			newlineCount = 0\n			result = append(result, spaceBuffer...)','			if r != utf8.RuneError {\n				newlineCount = 0\n			}\n			result = append(result, spaceBuffer...)')], demo=eq([("<p>a</p><p>\ufffd</p><p>b</p>","a\n\n\ufffd\n\nb")])),
 dict(id='s16', prop='C03', imports=IMP, needs='a bracket with more than a thousand bytes of text inside', breaks='the bracket is not escaped',
  edits=[('internal/escape/elem_image.go','	for i := index + 1; i < len(chars); i++ {','	for i := index + 1; i < len(chars) && i-index <= 1000; i++ {')], demo=eq([("<p>x ["+"a"*1200+"](/u)</p>","x \\["+"a"*1200+"](/u)")])),
 dict(id='s17', prop='C03', imports=IMP, needs='a star before a replacement character or an invalid byte', breaks='it is not escaped',
  edits=[('internal/escape/util.go','		r, _ := utf8.DecodeRune(source[i:])\n		return r','		r, _ := utf8.DecodeRune(source[i:])\n		if r == utf8.RuneError {\n			return 0\n		}\n		return r')], demo=eq([("<p>x *\ufffda*</p>","x \\*\ufffda*")])),
 dict(id='s18', prop='C12', imports=IMP+['"strings"'], needs='a block quote with more than a thousand lines', breaks='the lines after the first thousand have no prefix',
  edits=[('internal/textutils/prefix_lines.go',"	for _, b := range source {\n		newSlice = append(newSlice, b)\n		if b == '\\n' {","	lines := 0\n	for _, b := range source {\n		newSlice = append(newSlice, b)\n		if b == '\\n' {\n			lines++\n		}\n		if b == '\\n' && lines < 1000 {")],
  demo=CONV+"""
func TestDemo(t *testing.T) {
	s := conv(t, "<blockquote>"+strings.Repeat("<p>a</p>", 600)+"</blockquote>")
	for _, l := range strings.Split(s, "\\n") {
		if !strings.HasPrefix(l, "> ") {
			t.Fatalf("%q", l)
		}
	}
}
"""),
]
