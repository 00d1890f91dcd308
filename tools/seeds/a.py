CONV='''
func conv(t *testing.T, in string) string {
	s, err := htmltomarkdown.ConvertString(in)
	if err != nil { t.Fatal(err) }
	return s
}
'''
IMP=['htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"']
def eq(cases):
    b=CONV+'\nfunc TestDemo(t *testing.T) {\n'
    for i,o in cases:
        import json
        b+='\tif got := conv(t, %s); got != %s {\n\t\tt.Errorf("%%q", got)\n\t}\n'%(json.dumps(i,ensure_ascii=False),json.dumps(o,ensure_ascii=False))
    return b+'}\n'
SEEDS=[
 dict(id='s01', prop='C02', imports=IMP, needs='a thematic break made of an even number of characters, six or more',
  breaks='such a thematic break is not escaped',
  edits=[('internal/escape/elem_divider.go','	if count >= 3 {','	if count >= 3 && (count%2 == 1 || count < 6) {')],
  demo=eq([("<p>------</p>","\\------")])),
 dict(id='s02', prop='C04', imports=IMP+['"strings"'], needs='two runs of the fence character of different length in the code, the longer one at the very end of the content',
  breaks='the longest run at the end of the code does not count if an earlier run was longer than two', 
  edits=[('internal/textutils/codefence.go','''	if charsTogether != 0 {
		occurrences = append(occurrences, charsTogether)
	}

	return''','''	if charsTogether != 0 && (len(occurrences) == 0 || charsTogether <= 3 || occurrences[0] < 3) {
		occurrences = append(occurrences, charsTogether)
	}

	return''')],
  demo=CONV+'''
func TestDemo(t *testing.T) {
	got := conv(t, "<pre><code>````\\nx\\n`````</code></pre>")
	if !strings.HasPrefix(got, "``````\\n") {
		t.Errorf("%q", got)
	}
}
'''),
 dict(id='s03', prop='C03', imports=IMP, needs='an emphasis character followed by a multi-byte character whose last byte looks like white space (0x85, 0xA0)',
  breaks='the star before the character is not escaped, so the text becomes emphasis',
  edits=[('internal/escape/elem_italic_bold.go','''	nextIsWhitespace := unicode.IsSpace(next) || next == 0''','''	nextIsWhitespace := unicode.IsSpace(next&0xff) || next == 0''')],
  demo=eq([("<p>a *\u0120bc* d</p>","a \\*Ġbc* d")])),
 dict(id='s04', prop='C02', imports=IMP, needs='an ordered list marker whose number has a blank between the digits and the line start, after a hard line break',
  breaks='the number at the start of a later line is not escaped when the line is indented',
  edits=[('internal/escape/elem_list.go','''		if IsDigit(chars[i]) {
			continue
		}

		return -1''','''		if IsDigit(chars[i]) && index-i < 9 {
			continue
		}

		return -1''')],
  demo=eq([("<p>123456789. hello</p>","123456789\\. hello"),("<p>12345678. hello</p>","12345678\\. hello")])),
]
