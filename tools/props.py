# The properties, and for each how it is claimed. mkmanifest.py writes
# properties.jsonl and MANIFEST.json from this list.
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []), note=note))

prop("C02", "Text never starts a markdown block by accident, and is not escaped needlessly",
 "Literal text that CommonMark would read at the start of a line as an ATX heading, setext underline, thematic break, code fence, bullet or numbered list marker or block quote gets a backslash in the output before the character that would start that construct. No other occurrence of those characters gets a backslash on account of a block construct.",
 ["inputs"], "every text, every position in it, any mix of escaped and ordinary characters around it",
 "The tests sample a few dozen lines; the recognisers look backwards and forwards over lines of any length and any mix of spaces, and must agree with the construct's definition at every position.",
 ["internal/escape/elem_header.go", "internal/escape/elem_divider.go", "internal/escape/elem_code.go", "internal/escape/elem_list.go", "internal/escape/elem_quote.go", "internal/escape/util.go"],
 [("one recogniser per block construct", "internal/escape/elem_*.go"), ("recognisers registered for the conversion", "plugin/commonmark/commonmark.go")],
 "each recogniser is proved equivalent to a recursive specification of its construct over the marked text, for all texts and positions")
prop("C03", "Text never starts inline markup by accident, and is not escaped needlessly",
 "In literal text a backslash, a backtick, a star or underscore followed by something other than white space, and an opening bracket with a closing bracket after it on the same line get a backslash in the output, except inside a block construct whose start was already escaped. No other occurrence of these characters gets one on account of inline markup.",
 ["inputs"], "every text, every position in it, any characters around it",
 "The tests sample a few dozen texts; whether a character opens markup depends on text of any length around it, including multi-byte characters.",
 ["internal/escape/elem_backslash.go", "internal/escape/elem_code.go", "internal/escape/elem_image.go", "internal/escape/elem_italic_bold.go", "internal/escape/util.go"],
 [("one recogniser per inline construct", "internal/escape/elem_*.go"), ("next character, skipping markers", "internal/escape/util.go")],
 "each recogniser is proved equivalent to a specification of its construct over the marked text, for all texts and positions")
prop("C04", "A code block's fence is longer than every run of the fence character inside",
 "The fence written around a code block consists only of the configured fence character, has at least three of them, and is longer than the longest run of that character anywhere in the code; it is never longer than that requires.",
 ["inputs", "configurations"], "every code content of any length, both fence characters",
 "Runs can be of any length and stand anywhere, in particular at the very end of the code; the tests sample a few contents.",
 ["internal/textutils/codefence.go", "plugin/commonmark/render_code.go"],
 [("longest run of the fence character", "internal/textutils/codefence.go: CalculateCodeFenceOccurrences"), ("fence length", "internal/textutils/codefence.go: CalculateCodeFence")],
 "the fence is proved to be max(3, longest run + 1) copies of the fence character for every content, by loop invariants over a recursive run-length specification")

prop("C01", "Visible text is carried through, escapes aside, and nothing internal leaks",
 "The text of an HTML document comes out in the markdown in document order, no word lost, repeated or moved: with the escapes taken out again, the text of the output is the text of the input. The only characters the conversion adds to text are backslashes in front of punctuation and the references &lt; and &gt; for < and >. With the escape mode set to disabled it adds no backslash at all. The internal placeholders never appear in the output, and a NUL byte in the text comes out as U+FFFD.",
 ["inputs", "configurations"], "every text of any length and any bytes (the placeholder characters themselves aside), in any nesting of elements",
 "Escaping is decided over the whole text with markers that must all be consumed again; the tests compare a few dozen fixed outputs.",
 ["converter/escape.go", "plugin/base/base.go", "converter/ctx.go", "plugin/commonmark/commonmark.go"],
 [("characters are marked, and the marks decided and removed", "converter/escape.go: escapeContent, unEscapeContent"), ("angle brackets", "plugin/base/base.go: handleTextTransform")],
 "escapeContent and unEscapeContent are proved equal to recursive specifications for all texts, handlers and registered characters; lemmas prove that no marker survives and that only backslashes are added")
prop("C06", "Inline code shows its code on one line between fences that fit",
 "Inline code comes out as a code span on a single line that a CommonMark reader shows as that code: with newlines and tabs as spaces, runs of spaces as one space, and nothing but that around it. The backtick fence is longer than every run of backticks inside and of no other length than needed, and where the code starts or ends with a backtick a space is added on both sides. Nothing in the code is escaped.",
 ["inputs"], "every code content without the placeholder characters",
 "Backtick runs of any length can stand anywhere, also at both ends; the tests sample a few contents.",
 ["plugin/commonmark/render_code.go", "internal/textutils/collapse_code.go", "internal/textutils/codefence.go"],
 [("content collapsed to one line", "internal/textutils: CollapseInlineCodeContent"), ("fence and padding", "plugin/commonmark/render_code.go: renderInlineCode")],
 "the collapsed content and the fence are proved equal to recursive specifications for all contents")
prop("C07", "Emphasis delimiters hug the text of every line",
 "Bold, italic and struck-through text gets its delimiter directly around the text of every line of it that has any: opened after the leading white space and closed before the trailing white space of that line. Blank lines get no delimiter, nothing else about the lines changes, and the delimiter is the configured one (strong and b: the strong delimiter, em and i: the emphasis delimiter, del, s and strike: ~~).",
 ["inputs", "configurations"], "every content of any number of lines, every white space around and inside, every allowed delimiter",
 "White space, line breaks and blank lines can stand anywhere in any number; the tests sample a few.",
 ["internal/textutils/delimiter.go", "internal/textutils/surrounding_spaces.go", "plugin/commonmark/render_bold_italic.go", "plugin/strikethrough/strikethrough.go"],
 [("delimiter on every line", "internal/textutils: DelimiterForEveryLine"), ("white space around the text", "internal/textutils: SurroundingSpaces"), ("rendering", "plugin/commonmark/render_bold_italic.go: renderBoldItalic")],
 "the rendering is proved equal to a recursive line by line specification for all contents, by loop invariants")
prop("C08", "A heading comes out as one heading of its level with its text",
 "h1 to h6 become a markdown heading that a CommonMark reader shows as one heading of that level with the same text: in the atx style on a single line after the matching number of # characters (also when the content has line breaks or several blocks), in the setext style h1 and h2 get an underline of = or - as wide as the widest line of the text and no blank line within the text. Text that ends in # characters keeps them. A heading without text leaves no # marks behind.",
 ["inputs", "configurations"], "every heading content, both styles, all levels",
 "The content can have any number of lines, blank lines, trailing # runs and escapes in any combination.",
 ["plugin/commonmark/render_heading.go", "internal/textutils/consecutive_newlines.go", "internal/textutils/escape_multiline.go"],
 [("heading styles", "plugin/commonmark/render_heading.go"), ("blank lines inside are kept from ending it", "internal/textutils: EscapeMultiLine")],
 "the pieces a heading is built from are proved equal to recursive specifications for all contents")
prop("C09", "A link or image keeps its text, address and title, and ends where it ends",
 "A link or image in the HTML comes out as one inline link or image that a CommonMark reader reads back with the same text (or description), the same title and the same address: no character of the text, description, address or title, in whatever combination, can end it early or turn part of it into something else. Blank lines inside the text of a link are kept from ending it.",
 ["inputs"], "every title, description, address and link content",
 "Titles and descriptions can hold any mix of quotes, brackets, backslashes and newlines; the tests sample a few of each.",
 ["plugin/commonmark/render_link.go", "plugin/commonmark/render_image.go", "internal/textutils/quote.go", "internal/textutils/escape_multiline.go"],
 [("quotes around titles", "internal/textutils/quote.go: SurroundByQuotes"), ("blank lines in the link text", "internal/textutils: EscapeMultiLine"), ("image description", "plugin/commonmark/render_image.go: escapeAlt")],
 "quoting and line keeping are proved equal to recursive specifications for all texts")
prop("C12", "Every line of a block quote carries the prefix",
 "A block quote comes out, between blank lines, as its trimmed content with '> ' in front of every line of it, including blank lines and the lines of code blocks and nested quotes, lists and tables; runs of newlines in it are shortened to one blank line first. Nothing of the content is lost, text in it that would start a construct is escaped, and a quote without content leaves nothing.",
 ["inputs"], "every content of any number of lines, any nesting",
 "Any block can stand inside, at any depth; a single line without the prefix ends the quote.",
 ["plugin/commonmark/render_blockquote.go", "internal/textutils/prefix_lines.go"],
 [("prefix on every line", "internal/textutils: PrefixLines"), ("rendering", "plugin/commonmark/render_blockquote.go: renderBlockquote")],
 "PrefixLines and renderBlockquote are proved equal to a recursive specification over all contents")
prop("C13", "Blocks are separated by one blank line, without losing anything",
 "The output starts and ends with a line of text, has nowhere more than one blank line in a row outside of code blocks, and no spaces or tabs are left on blank lines by the block separation. Shortening runs of newlines never removes, adds or reorders any other character: hard line breaks keep their two spaces or backslash.",
 ["inputs"], "every document and every text of any length",
 "Any number of newlines, with spaces between them or not, can come together from nested blocks.",
 ["internal/textutils/consecutive_newlines.go", "plugin/base/base.go", "converter/convert.go"],
 [("runs of newlines are shortened", "internal/textutils: TrimConsecutiveNewlines"), ("applied to the whole output", "plugin/base/base.go: postRenderTrimContent")],
 "TrimConsecutiveNewlines is proved equal to a recursive specification; lemmas prove that at most two newlines follow each other and that no visible character is lost")
prop("C17", "Handlers run in order of priority, each stage on what the last one left",
 "For each kind of handler (pre-render, render, post-render, text transform, unescape) all registered handlers run in ascending order of priority, whatever order they were registered in. Every pre-render handler runs before anything is rendered and every post-render handler after it, each text transformer works on the previous one's result, post-render handlers likewise, for a node render handlers are tried in order until the first that reports success and none after it, and text nodes go to the text transformers instead.",
 ["configurations", "histories"], "every number of handlers with any priorities, registered in any order, every document",
 "The tests use one or two handlers; order must hold for every list and every node.",
 ["converter/register.go", "converter/prioritized.go", "converter/convert.go", "converter/render.go"],
 [("sorted by priority", "converter/prioritized.go, converter/register.go"), ("dispatch loops", "converter/render.go, converter/convert.go")],
 "ghost traces of the calls are proved to equal the sorted handler lists, for every list, by loop invariants")
prop("C27", "An unclaimed node is rendered by its tag type; stock renderers keep their word",
 "A node that no render handler claims is rendered as its children only: surrounded by blank lines if its tag type is block, as they are if it is inline. The tag type used is the registered one with the lowest priority number, otherwise the built-in one. RenderAsHTML, RenderAsHTMLWrapper and RenderAsPlaintextWrapper write the element as HTML, its tag around its converted children, or its converted children, and a line break and a rule come out as two spaces and a newline and as the configured rule between blank lines.",
 ["inputs", "configurations"], "every node, every registration of handlers and tag types",
 "Which renderer and tag type wins depends on all registrations; the tests use single ones.",
 ["converter/render.go", "converter/register.go", "plugin/base/renderers.go", "plugin/commonmark/render_break.go", "plugin/commonmark/render_divider.go"],
 [("fallback", "converter/render.go: handleRenderFallback"), ("tag types", "converter/register.go: getTagType"), ("ready-made renderers", "plugin/base")],
 "dispatch, fallback, tag type lookup and the ready-made renderers are proved against their contracts for all nodes and registrations")
prop("C05", "A code block comes out verbatim inside its fence",
 "A pre element comes out as one fenced code block between blank lines whose lines are exactly the lines of the code: nothing in it is escaped, trimmed or collapsed, all its spaces, blank lines and markup characters are kept, and only the newlines at its very end may be dropped. The info string after the opening fence is the language named by the class, on that line, and cannot end the line or close the fence early.",
 ["inputs", "configurations"], "every code content and class without the placeholder characters, at any nesting",
 "The code passes through collapsing, escaping, line trimming, prefixing and post-processing, each of which could change it for some content; the tests sample a few.",
 ["plugin/commonmark/render_code.go", "plugin/commonmark/handle_render.go", "internal/textutils/codefence.go"],
 [("rendering", "plugin/commonmark/render_code.go: renderBlockCode"), ("newlines marked and restored", "plugin/commonmark/render_code.go: handlePostRenderCodeBlockNewline")],
 "the rendered block and the restoring of its newlines are proved equal to a specification; a lemma proves that the round trip gives back every code")
prop("C10", "Addresses are absolute, clean and still mean the same",
 "With a domain configured, relative addresses of links and images come out resolved against it, as a browser would; without one they stay relative. Addresses come out without spaces, newlines, angle brackets, parentheses, brackets, backslashes or control characters that would end the destination, and still decode to the same address. The query keeps its parameters in their order with their values. Addresses of other schemes (data:, mailto:) and fragments alone are not resolved.",
 ["inputs", "configurations"], "every address without control characters and every domain",
 "Any character can appear in any part of an address; the tests sample a few dozen.",
 ["converter/url.go", "plugin/commonmark/render_link.go", "plugin/commonmark/render_image.go"],
 [("resolving and encoding", "converter/url.go")],
 "the assembling of an address is proved against contracts over the parsed URL; lemmas prove which characters cannot be in the result")
prop("C11", "Lists keep their items, numbers, markers and nesting",
 "Every item of a list comes out as one item in order: unordered ones with the configured bullet, ordered ones numbered from start (a valid start, otherwise 1) upwards, all numbers of a list written equally wide. Every further line of an item, including code, nested lists and quotes, is indented by the width of its marker so that it stays inside the item. Two lists that follow each other stay two lists.",
 ["inputs", "configurations"], "every list of any length, nesting and start",
 "Widths change with the number of items and the start; blocks of any kind can stand inside an item at any depth.",
 ["plugin/commonmark/render_list.go", "internal/domutils/list_end_comment.go", "plugin/commonmark/render_comment.go"],
 [("rendering", "plugin/commonmark/render_list.go"), ("comment between lists", "internal/domutils/list_end_comment.go")],
 "the container, its items and the start are proved equal to a recursive specification for all lists; a lemma proves that all prefixes are equally wide")
prop("C18", "Invalid options and failed setup are reported, valid options take effect",
 "A commonmark option that would not produce the Markdown it stands for (a delimiter other than * _ or ** __, a rule that is not a thematic break, another bullet, fence or heading style) and an unknown table option make every conversion fail with an error and without output; every valid value is accepted and takes effect, an empty one means the default. An option or plugin whose setup fails, a plugin without a name, a converter without renderers, or commonmark without base make every conversion return an error, whatever is registered afterwards; no handler runs then. A valid setup never fails.",
 ["configurations", "inputs"], "every value of every option, every list of options and plugins",
 "Option values are arbitrary strings and setups arbitrary sequences; the tests try a handful of each.",
 ["plugin/commonmark/validation.go", "plugin/commonmark/options.go", "plugin/commonmark/commonmark.go", "plugin/table/table.go", "converter/register.go", "converter/converter.go", "converter/convert.go"],
 [("validation", "plugin/commonmark: validateConfig"), ("defaults", "plugin/commonmark: fillInDefaultConfig"), ("table options", "plugin/table/table.go"), ("errors kept and returned", "converter/register.go: Plugin, converter/converter.go: NewConverter, converter/convert.go: ConvertNode")],
 "validation and defaults are proved against a specification for all strings; setup errors are proved to be kept and returned for every list of options and plugins")
prop("C14", "A table comes out as one rectangular table with its cells in place",
 "A table converted with the table plugin comes out as one Markdown table: the header row first (an empty one if there is none), then the delimiter row, then every row in order, each on one line with the same number of cells, as many as the widest row has; every cell keeps its text, every | in it escaped exactly once, padded as configured; alignments are kept per column; the caption follows. A table that cannot be one (a heading, list, quote, rule or table in it, a line break in a cell unless newlines are to be preserved as <br />, inside a link or emphasis, or a presentation table unless enabled) gives no table and loses no text. Only empty rows are skipped, and only when asked to.",
 ["inputs", "configurations"], "every table of any size and content, every combination of options",
 "Rows of different lengths, empty cells, multi-byte text and | in any construct come together in any combination.",
 ["plugin/table/3_render.go", "plugin/table/2_collect.go", "plugin/table/1_select.go", "plugin/table/utils.go", "plugin/table/table.go"],
 [("rendering", "plugin/table/3_render.go: renderTable, writeRow, writeHeaderUnderline"), ("collecting cells", "plugin/table/2_collect.go"), ("widths and filling up", "plugin/table/utils.go: calculateMaxCounts, fillUpRows")],
 "renderTable is proved to write a rectangle: rows of exactly as many cells as there are columns, no cell with a newline or an unescaped bar, each as wide as its column")
prop("C15", "Cells that span columns or rows keep every cell in its own column",
 "A cell spanning several columns takes that many columns of its row, and one spanning several rows takes its columns in that many rows; each covered place holds an empty cell, or the same text with the mirror option, and every other cell stands in the column an HTML reader shows it in. A missing, unparsable, zero or negative span counts as 1, one over the limits of HTML (1000 columns, 65534 rows) as the limit.",
 ["inputs", "configurations"], "every table whose cells do not overlap, in which no cell spanning rows stands to the right of a column still covered from above",
 "Spans of several cells and rows interact: a span shifts the columns of everything that follows it in its row and in the rows below.",
 ["plugin/table/2_collect.go", "plugin/table/utils.go"],
 [("covered places", "plugin/table/utils.go: calculateModifications"), ("cells inserted from the last row to the first", "plugin/table/utils.go: applyGroupedModifications"), ("start column of a cell", "plugin/table/2_collect.go: collectCellsInRow")],
 "the places to fill are proved to be exactly the covered ones, and to be inserted row by row; lemmas prove that each cell of a row not reached from above starts where the columns of the one before it end")
prop("C16", "White space is collapsed the way a browser does, and no word changes",
 "Collapsing changes texts only: the other characters of every text stay, in order, and only ASCII white space (space, tab, newline, carriage return; not a no-break space) goes or turns into a space. Outside preformatted elements (pre, code and the other elements shown as code, or what the caller's functions say) no text keeps two white-space characters in a row, across inline elements and comments a run of white space leaves one space, in the text it begins in; none is left at the beginning or the end of a block or next to a line break, and the space next to an image, another void element or inline code stays. Preformatted texts stay as they are. Nodes other than texts without content and doctype-like nodes are not removed.",
 ["inputs"], "every tree of elements, texts and comments, the default functions or the caller's own",
 "Whether a space stays depends on all texts and elements before it in the line and on the next block border, however deeply nested.",
 ["collapse/collapse.go", "collapse/whitespace.go", "collapse/is_node.go", "plugin/base/base.go"],
 [("the walk over the tree", "collapse/collapse.go: Collapse, nextNode, removeNode"), ("white space within a text", "collapse/whitespace.go: replaceAnyWhitespaceWithSpace"), ("block, void and preformatted elements", "collapse/is_node.go; plugin/base/base.go: preRenderCollapse")],
 "proved: words kept, only white space removed, at most one space within a text, memory safety and termination of the walk, on a tree with consistent links; the rule across texts is decided by the bounded stand-in")
prop("C19", "The command line tool never replaces a file it was not told to replace",
 "Without --output-overwrite no file that exists (whatever it contains, also a link or the input itself) is ever replaced, truncated, appended to or removed: the tool fails with exit status 1 and a message instead, at whichever of several outputs this happens. With the flag exactly the output files are replaced, and then contain the new Markdown and nothing of the old content. Other files are never touched, and a run that reports success has written every output completely.",
 ["inputs", "configurations", "environment states"], "every output path, every state of the file system, any number of inputs",
 "The files that exist, and which of several outputs hits one, vary freely; a test looks at a handful of layouts.",
 ["cli/html2markdown/cmd/io_output.go", "cli/html2markdown/cmd/exec.go"],
 [("opening the output file", "cli/html2markdown/cmd/io_output.go: WriteFile"), ("directory, file or standard output", "cli/html2markdown/cmd/io_output.go: writeOutput"), ("all inputs of a run", "cli/html2markdown/cmd/exec.go: run")],
 "proved: without the flag every open of a whole run is O_CREATE|O_EXCL, with it O_CREATE|O_TRUNC; the operating system's part (O_EXCL never opens an existing file) is assumed")
prop("C20", "Every input file gets an output file of its own",
 "When several files are converted into a directory, every input is written to exactly one file in that directory and no two inputs to the same one, whatever their names and folders: name.md for the first input with that name, name.<hash of its path>.md for the others (numbered if that is taken too). The number of files written is the number of inputs matched, and each contains the Markdown of its input.",
 ["inputs", "configurations"], "every set of input files in any folders, also names that look like the name of another one's output",
 "Whether two names collide depends on all names together, including ones made to look like a hashed name.",
 ["cli/html2markdown/cmd/io_output.go", "cli/html2markdown/cmd/io_input.go", "cli/html2markdown/cmd/exec.go"],
 [("output names", "cli/html2markdown/cmd/io_output.go: calculateOutputPaths"), ("inputs", "cli/html2markdown/cmd/io_input.go: listInputs, readInput, fileNameWithoutExtension"), ("writing", "cli/html2markdown/cmd/exec.go: run")],
 "proved: the names are pairwise different plain names ending in .md, and a run opens a different file for every input matched")
prop("C21", "The tool decides between standard output, a file and a directory as documented",
 "Without --output the result of one input goes to standard output, and several inputs are refused. An --output that ends in a slash is a directory (created if missing) and takes any number of inputs; any other --output is one file (its folders created) and is refused for several inputs or when it is an existing directory. --input takes precedence over standard input; without both the tool fails. Every refusal has exit status 1, a message on standard error, nothing on standard output, and writes no file.",
 ["inputs", "configurations", "environment states"], "every combination of --input, --output, standard input and what exists at these paths",
 "The decision depends on flags, on the number of matches and on the file system at once.",
 ["cli/html2markdown/cmd/io_output.go", "cli/html2markdown/cmd/io_input.go", "cli/html2markdown/cmd/exec.go", "cli/html2markdown/cmd/util_pipe.go"],
 [("the decision", "cli/html2markdown/cmd/io_output.go: determineOutputType, hasFolderSuffix"), ("where the input comes from", "cli/html2markdown/cmd/io_input.go: listInputs")],
 "determineOutputType is proved to return exactly this decision for every input")
prop("C26", "The flags of the command line tool mean what the library's options mean",
 "Converting with the command line tool gives what the library gives with the corresponding options: --domain, --opt-strong-delimiter, --plugin-strikethrough, --plugin-table and each of its options, in any order and combination; --include-selector and --exclude-selector convert only the matching parts and everything but them. Table options without --plugin-table, unknown flags and arguments, invalid selectors and invalid values are refused with exit status 1, a message, and no output.",
 ["inputs", "configurations"], "every combination of flags and values",
 "Thirteen flags interact, and a flag that is wired to the wrong option only shows on an input that uses it.",
 ["cli/html2markdown/cmd/cmd_convert.go", "cli/html2markdown/cmd/flags.go", "cli/html2markdown/cmd/flags_categorize.go", "cli/html2markdown/cmd/exec.go"],
 [("options passed to the library", "cli/html2markdown/cmd/cmd_convert.go: convert"), ("selectors", "cli/html2markdown/cmd/cmd_convert.go: includeNodesFromDoc, excludeNodesFromDoc"), ("flags", "cli/html2markdown/cmd/flags.go: initFlags, parseFlags")],
 "what the flag package does with a command line is assumed; whole runs against the library are the bounded stand-in")

prop("C25", "One converter can be used by several goroutines at once",
 "Goroutines may convert with the same converter at the same time, and register handlers, tag types and plugins on it meanwhile: there is no data race and no deadlock, and every conversion gives exactly what it would give alone, with the handlers registered when it looked; nothing of one conversion (context values, global attributes, errors) shows up in another, and a conversion changes nothing in the converter. Package functions ConvertString, ConvertReader and ConvertNode are independent of each other in the same way.",
 ["schedules", "inputs"], "every interleaving of conversions and registrations on one converter",
 "Races only show under particular interleavings, and the tests convert from one goroutine.",
 ["converter/converter.go", "converter/register.go", "converter/convert.go", "converter/ctx.go", "converter/prioritized.go", "converter/escape.go", "plugin/table/table.go", "convert.go"],
 [("handler lists and tag types", "converter/register.go"), ("the error and plugin names", "converter/converter.go, converter/convert.go"), ("state of one conversion", "converter/ctx.go"), ("the table plugin's error", "plugin/table/table.go")],
 "proved for every function that touches shared fields: read only with the lock held, written only with it held exclusively, no lock taken twice or kept, frames; schedules themselves are sampled under the race detector")
prop("C22", "Every document converts: no panic, no endless run, no error",
 "Whatever the HTML (any bytes, any nesting, any attribute values) or the tree of nodes given to ConvertNode, and whatever valid options and plugins: the conversion returns, without a panic and without an error of its own (only the parser's, and what the reader or a handler of the caller reports), in time that stays in proportion to the document and the tables its spans ask for; of a document in UTF-8 the Markdown is UTF-8 too.",
 ["inputs", "configurations"], "every byte string, every tree of nodes, every valid combination of options and plugins",
 "Index arithmetic over bytes and nodes fails at edges (an empty text, a marker at the very end, a list without items, a cell without a row) that hand-written tests rarely hit in combination.",
 ["converter/convert.go", "converter/escape.go", "converter/render.go", "internal/escape/elem_image.go", "internal/textutils/prefix_lines.go", "internal/domutils/domutils.go", "plugin/commonmark/render_list.go", "plugin/commonmark/render_code.go", "plugin/table/utils.go", "plugin/table/2_collect.go", "collapse/collapse.go"],
 [("index, slice and nil safety", "every function under contract"), ("escaping", "converter/escape.go, internal/escape"), ("tables", "plugin/table"), ("walks over the tree", "collapse/collapse.go, internal/domutils")],
 "the safety obligations (index, slice bounds, nil, division, assertions of type) of every function under contract are proved, and termination where a decreases clause is given; the rest is a bounded stand-in")
prop("C24", "Elements that are to be removed leave no trace",
 "Elements whose tag type is remove (head, script, style, link, meta, iframe, noscript, input, textarea and comments by default, and what is registered as such with the earliest priority) leave nothing of themselves or their content in the Markdown, wherever they stand, also inside each other; the text around them comes out as if they had never been there, with nothing lost and nothing joined or split otherwise. A registration with an earlier priority keeps them. Only the comment THE END between two lists stays.",
 ["inputs", "configurations"], "every document, every set of registered tag types",
 "Removing nodes while walking the tree goes wrong only for particular neighbours (two in a row, first or last, nested, between texts).",
 ["plugin/base/base.go", "converter/register.go", "internal/domutils/adjacent.go", "plugin/commonmark/render_comment.go", "plugin/commonmark/handle_pre_render.go"],
 [("removal", "plugin/base/base.go: preRenderRemove, Init"), ("which tag type counts", "converter/register.go: getTagType"), ("texts that become neighbours", "internal/domutils/adjacent.go: MergeAdjacentTextNodes")],
 "proved: the tag types, the order of registrations, comments; the walk itself is a bounded stand-in")
prop("C23", "Normalising the tree keeps all of its text, once, in order and in its block",
 "Whatever the tree, the steps that rearrange it before rendering (removing redundant and merging adjacent emphasis, links, code and strikethrough, swapping tags, renaming spans around blocks, moving what stands in a list outside of an item, replacing blocks where none can be, spaces around code, comments between lists, joining texts) lose, repeat, reorder and alter no text, apart from white space and the quotation marks that replace a blockquote: every word of the document is in the Markdown exactly once and in its order, words of one line stay on it, words of different blocks never meet on one line, emphasis, code and links cover the words they covered. Only elements without effect are dissolved, and only code elements without any text and rules are dropped.",
 ["inputs"], "every tree of elements, texts and comments",
 "The steps walk and change the same tree, one after the other; what one of them leaves behind for the next only shows for particular neighbours and nestings.",
 ["internal/domutils/adjacent.go", "internal/domutils/alternatives.go", "internal/domutils/domutils.go", "internal/domutils/empty_code.go", "internal/domutils/list_end_comment.go", "internal/domutils/list_items.go", "internal/domutils/redundant.go", "internal/domutils/span.go", "internal/domutils/swap.go", "internal/domutils/add_space.go", "plugin/commonmark/handle_pre_render.go", "plugin/base/base.go", "plugin/strikethrough/strikethrough.go"],
 [("the steps", "internal/domutils"), ("their order", "plugin/commonmark/handle_pre_render.go: handlePreRender"), ("joining texts", "internal/domutils/adjacent.go: MergeAdjacentTextNodes")],
 "proved for every tree: each step changes only the data it may (texts keep their words, tags only of elements), no text and no element with children loses its place in the tree, and so do the steps of the plugins together; order and blocks are a bounded stand-in")
NA = []
