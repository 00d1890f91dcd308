// The command line tool: what it writes, and where.
package cli/html2markdown/cmd

// Verification-only state: the files opened for writing (their flags and
// names) and the bytes written to files and printed, in order.
ghost opens seq[int]
ghost openNames seq[bytes]
ghost fileWrites seq[bytes]
ghost printed seq[bytes]

// O_WRONLY 1, O_CREATE 64, O_EXCL 128, O_TRUNC 512: the operating system
// fails to open an existing file with O_CREATE and O_EXCL, for whoever calls
spec func bit(flag int, b int) bool { (flag / b) % 2 == 1 }
spec func exclusive(flag int) bool { bit(flag, 64) && bit(flag, 128) }
spec func replaces(flag int) bool { bit(flag, 64) && bit(flag, 512) && bit(flag, 1) && !bit(flag, 128) && !bit(flag, 1024) }
spec func allExclusive(s seq[int], from int) bool { forall k int {s[k]} :: from <= k < len(s) ==> exclusive(s[k]) }
spec func allReplace(s seq[int], from int) bool { forall k int {s[k]} :: from <= k < len(s) ==> replaces(s[k]) }

extern os.OpenFile(name, flag, perm) (f, err)
  modifies opens, openNames
  ensures opens == old(opens) + one(flag)
  ensures openNames == old(openNames) + one(name)
  ensures err == nil ==> f != nil
extern os.WriteFile(name, data, perm) (err)
  modifies opens, openNames, fileWrites
  ensures opens == old(opens) + one(577)
  ensures openNames == old(openNames) + one(name)
  ensures err == nil ==> fileWrites == old(fileWrites) + one(data)
  ensures err != nil ==> fileWrites == old(fileWrites) || (exists d bytes :: fileWrites == old(fileWrites) + one(d))
extern (f *os.File) Write(b) (n, err)
  requires f != nil
  modifies fileWrites
  ensures err == nil ==> n == len(b) && fileWrites == old(fileWrites) + one(b)
  ensures err != nil ==> fileWrites == old(fileWrites) || (exists d bytes :: fileWrites == old(fileWrites) + one(d))
extern (f *os.File) Close() (err)

func WriteFile(filename, data, override) (err)
  property C19
  modifies opens, openNames, fileWrites
  ensures one_file: len(opens) == len(old(opens)) + 1 && opens[:len(old(opens))] == old(opens)
  ensures never_replaces: !override ==> exclusive(opens[len(old(opens))])
  ensures replaces_wholly: override ==> replaces(opens[len(old(opens))])
  ensures that_file: openNames == old(openNames) + one(filename)
  ensures whole: err == nil ==> fileWrites == old(fileWrites) + one(data)

// ------------------------------------------------------------ paths
spec func pathJoin(a bytes, b bytes) bytes
spec func pathBase(p bytes) bytes
spec func pathExt(p bytes) bytes
spec func plainName(n bytes) bool { len(n) > 2 && noSlash(n) }
axiom join_keeps_names_apart(d bytes, a bytes, b bytes)
  requires plainName(a) && plainName(b) && a != b
  ensures pathJoin(d, a) != pathJoin(d, b)
  auto
  trigger pathJoin(d, a), pathJoin(d, b)
extern filepath.Join(elem) (r)
  ensures len(elem) == 2 ==> r == pathJoin(elem[0], elem[1])
spec func noSlash(s bytes) bool opaque { forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != '/' }
lemma noslash_cut(s bytes, i int, j int)
  requires 0 <= i <= j && j <= len(s) && noSlash(s)
  ensures noSlash(s[i:j])
  auto
  trigger noSlash(s[i:j])
lemma halves(a bytes, b bytes)
  ensures (a + b)[0:len(a)] == a
  ensures (a + b)[len(a):len(a)+len(b)] == b
lemma noslash_concat(a bytes, b bytes)
  ensures noSlash(a + b) <==> noSlash(a) && noSlash(b)
  apply halves(a, b)
  apply noslash_cut(a + b, 0, len(a)) when noSlash(a + b)
  apply noslash_cut(a + b, len(a), len(a) + len(b)) when noSlash(a + b)
  auto
  trigger noSlash(a + b)
extern filepath.Base(path) (r)
  ensures r == pathBase(path)
  ensures len(r) > 0 && (noSlash(r) || r == "/")
  ensures len(path) > 0 && path[len(path)-1] != '/' ==> noSlash(r)
axiom ext_is_suffix(path bytes)
  ensures 0 <= len(pathExt(path)) && len(pathExt(path)) <= len(path)
  auto
  trigger pathExt(path)
extern filepath.Ext(path) (r)
  ensures r == pathExt(path)
  ensures len(r) <= len(path) && r == path[len(path)-len(r):]
  ensures len(r) > 0 ==> r[0] == '.' && noSlash(r) && (forall i int {r[i]} :: 0 < i < len(r) ==> r[i] != '.')
  ensures len(r) == 0 ==> (forall i int {path[i]} :: 0 <= i < len(path) && path[i] == '.' ==> (exists j int {path[j]} :: i < j < len(path) && path[j] == '/'))
extern filepath.Dir(path) (r)
extern filepath.Clean(path) (r)
extern filepath.ToSlash(path) (r)
extern filepath.Rel(basepath, targpath) (r, err)
extern doublestar.SplitPattern(p) (base, pattern)
extern errors.Is(err, target) (r)
extern fmt.Fprintln(w, a) (n, err)
  modifies printed
  ensures len(a) == 1 ==> printed == old(printed) + one(unboxstr(a[0]))
spec func isLetter(c int) bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') }
extern fmt.Sprintf(format, a) (r)
  ensures noSlash(format) && (forall k int {a[k]} :: 0 <= k < len(a) ==> typeis(a[k], string) || typeis(a[k], int)) && (forall k int {a[k]} :: 0 <= k < len(a) && typeis(a[k], string) ==> noSlash(unboxstr(a[k]))) ==> noSlash(r)
  ensures len(format) >= 4 && isLetter(format[len(format)-4]) && format[len(format)-3:] == ".md" ==> len(r) >= 3 && r[len(r)-3:] == ".md"

func NewCLIError(cause, printers) (r)
  property C21
  ensures r != nil

func hasFolderSuffix(outputPath) (r)
  property C21
  internal
  ensures r <==> len(outputPath) > 0 && outputPath[len(outputPath)-1] == '/'

func (cli *CLI) writeOutput(outputType, filename, markdown) (err)
  property C19
  modifies opens, openNames, fileWrites, printed
  ensures never_replaces: !cli.config.outputOverwrite ==> allExclusive(opens, len(old(opens)))
  ensures replaces_wholly: cli.config.outputOverwrite ==> allReplace(opens, len(old(opens)))
  ensures one_file: len(openNames) <= len(old(openNames)) + 1 && len(opens) <= len(old(opens)) + 1
  ensures earlier_ones: len(opens) >= len(old(opens)) && (forall k int {opens[k]} :: 0 <= k < len(old(opens)) ==> opens[k] == old(opens)[k])
  ensures directory: outputType == "directory" ==> openNames == old(openNames) + one(pathJoin(cli.config.outputFilepath, filename))
  ensures file: outputType == "file" ==> openNames == old(openNames) + one(cli.config.outputFilepath)
  ensures stdout: outputType == "stdout" ==> openNames == old(openNames) && printed == old(printed) + one(markdown)
  ensures whole: (outputType == "directory" || outputType == "file") && err == nil ==> fileWrites == old(fileWrites) + one(markdown)

// ------------------------------------------------------------ one output file per input
spec func stem(path bytes) bytes { let b = pathBase(path) in let e = pathExt(b) in if len(e) > 0 then b[:len(b)-len(e)] else b }
func fileNameWithoutExtension(fileName) (r)
  property C20
  internal
  ensures r == (let e = pathExt(fileName) in if len(e) > 0 then fileName[:len(fileName)-len(e)] else fileName)

// the hash of a path, in hexadecimal (crypto/sha256, "%x")
func hashFilepath(path) (r)
  trusted
  ensures len(r) == 64 && noSlash(r)

func calculateOutputPaths(inputFilepath, inputs) (err)
  property C20
  requires forall i int {inputs[i]} :: 0 <= i < len(inputs) ==> inputs[i] != nil && len(inputs[i].inputFullFilepath) > 0 && inputs[i].inputFullFilepath[len(inputs[i].inputFullFilepath)-1] != '/'
  requires forall i int, j int {inputs[i], inputs[j]} :: 0 <= i < j < len(inputs) ==> inputs[i] != inputs[j]
  modifies cmd.input.outputFullFilepath
  ensures all_different: err == nil ==> (forall i int, j int {inputs[i], inputs[j]} :: 0 <= i < j < len(inputs) ==> inputs[i].outputFullFilepath != inputs[j].outputFullFilepath)
  ensures plain_names: err == nil ==> (forall i int {inputs[i]} :: 0 <= i < len(inputs) ==> plainName(inputs[i].outputFullFilepath))
  ensures markdown: err == nil ==> (forall i int {inputs[i]} :: 0 <= i < len(inputs) ==> len(inputs[i].outputFullFilepath) >= 3 && inputs[i].outputFullFilepath[len(inputs[i].outputFullFilepath)-3:] == ".md")
  ensures named_after_input: err == nil ==> (forall i int {inputs[i]} :: 0 <= i < len(inputs) && (forall j int {inputs[j]} :: 0 <= j < i ==> inputs[j].outputFullFilepath != stem(inputs[i].inputFullFilepath) + ".md") ==> inputs[i].outputFullFilepath == stem(inputs[i].inputFullFilepath) + ".md")
  invariant L1: forall i int {inputs[i]} :: 0 <= i < $i ==> haskey(allNames, inputs[i].outputFullFilepath) && mapget(allNames, inputs[i].outputFullFilepath)
  invariant L1: forall i int, j int {inputs[i], inputs[j]} :: 0 <= i < j < $i ==> inputs[i].outputFullFilepath != inputs[j].outputFullFilepath
  invariant L1: forall i int {inputs[i]} :: 0 <= i < $i ==> noSlash(inputs[i].outputFullFilepath)
  invariant L1: forall i int {inputs[i]} :: 0 <= i < $i ==> len(inputs[i].outputFullFilepath) >= 3 && inputs[i].outputFullFilepath[len(inputs[i].outputFullFilepath)-3:] == ".md"
  invariant L1: forall i int {inputs[i]} :: 0 <= i < $i && (forall j int {inputs[j]} :: 0 <= j < i ==> inputs[j].outputFullFilepath != stem(inputs[i].inputFullFilepath) + ".md") ==> inputs[i].outputFullFilepath == stem(inputs[i].inputFullFilepath) + ".md"
  invariant L1: forall n bytes {haskey(allNames, n)} :: haskey(allNames, n) ==> (exists i int {inputs[i]} :: 0 <= i < $i && inputs[i].outputFullFilepath == n)
  invariant L2: noSlash(name) && len(name) >= 3 && name[len(name)-3:] == ".md"

// ------------------------------------------------------------ what --output means
spec func pathExists(p bytes) bool
spec func isFolder(p bytes) bool
spec func infoOf(p bytes) ref
extern os.Stat(name) (info, err)
  ensures (err == nil) <==> pathExists(name)
  ensures err == nil ==> info != nil && info == infoOf(name)
iface io/fs.FileInfo.IsDir() (r)
  ensures forall p bytes {infoOf(p)} :: self == infoOf(p) ==> (r <==> isFolder(p))
spec func folderSuffix(p bytes) bool { len(p) > 0 && p[len(p)-1] == '/' }

func determineOutputType(_inputPath, countInputs, outputPath) (t, err)
  property C21
  ensures no_output_stdout: len(outputPath) == 0 && countInputs <= 1 ==> err == nil && t == "stdout"
  ensures several_need_a_folder: countInputs > 1 && !folderSuffix(outputPath) ==> err != nil
  ensures slash_is_a_folder: folderSuffix(outputPath) ==> err == nil && t == "directory"
  ensures existing_folder: len(outputPath) > 0 && !folderSuffix(outputPath) && pathExists(outputPath) && isFolder(outputPath) ==> err != nil
  ensures otherwise_a_file: len(outputPath) > 0 && !folderSuffix(outputPath) && countInputs <= 1 && !(pathExists(outputPath) && isFolder(outputPath)) ==> err == nil && t == "file"

extern doublestar.WithFilesOnly() (r)
extern doublestar.WithNoFollow() (r)
// the files a pattern matches: paths of files, which do not end in a slash
spec func globbed(pattern bytes) seq[bytes]
extern doublestar.FilepathGlob(pattern, opts) (matches, err)
  ensures err == nil ==> matches == globbed(pattern)
  ensures forall i int {matches[i]} :: 0 <= i < len(matches) ==> len(matches[i]) > 0 && matches[i][len(matches[i])-1] != '/'
extern io.ReadAll(r) (data, err)
spec func contentOf(name bytes) bytes
extern os.ReadFile(name) (data, err)
  ensures err == nil ==> data == contentOf(name)
extern os.MkdirAll(path, perm) (err)

func (cli *CLI) listInputs() (inputs, err)
  property C20, C21
  ensures some: err == nil ==> len(inputs) > 0
  ensures all_matches: err == nil && len(cli.config.inputFilepath) > 0 ==> len(inputs) == len(globbed(cli.config.inputFilepath)) && (forall i int {inputs[i]} :: 0 <= i < len(inputs) ==> inputs[i].inputFullFilepath == globbed(cli.config.inputFilepath)[i] && len(inputs[i].data) == 0)
  ensures one_from_stdin: err == nil && len(cli.config.inputFilepath) == 0 ==> cli.isStdinPipe && len(inputs) == 1
  ensures needs_an_input: len(cli.config.inputFilepath) == 0 && !cli.isStdinPipe ==> err != nil
  ensures real: err == nil ==> (forall i int {inputs[i]} :: 0 <= i < len(inputs) ==> inputs[i] != nil && len(inputs[i].inputFullFilepath) > 0 && inputs[i].inputFullFilepath[len(inputs[i].inputFullFilepath)-1] != '/')
  ensures separate: err == nil ==> (forall i int, j int {inputs[i], inputs[j]} :: 0 <= i < j < len(inputs) ==> inputs[i] != inputs[j])
  invariant len(inputs) == $i
  opt clock
  invariant forall i int {inputs[i]} :: 0 <= i < len(inputs) ==> inputs[i] != nil && fresh(inputs[i]) && allocated(inputs[i]) && inputs[i].inputFullFilepath == matches[i] && len(inputs[i].data) == 0
  invariant forall i int, j int {inputs[i], inputs[j]} :: 0 <= i < j < len(inputs) ==> inputs[i] != inputs[j]

func (cli *CLI) readInput(in) (data, err)
  property C20
  requires in != nil
  ensures held: len(in.data) > 0 ==> err == nil && data == in.data
  ensures read: len(in.data) == 0 && err == nil ==> len(data) == 0 || data == contentOf(in.inputFullFilepath)

func ensureOutputDirectories(outputType, outputFilepath) (err)
  property C21

// ------------------------------------------------------------ selectors
// selects(m, n): the selector matches the node in the document as it was parsed;
// selectedAbove(m, n): it matches a node around it; belowNode(d, n): n is in d
spec func selects(m ref, n ref) bool
spec func selectedAbove(m ref, n ref) bool
spec func belowNode(d ref, n ref) bool
extern cascadia.QueryAll(n, m) (r)
  ensures forall k int {r[k]} :: 0 <= k < len(r) ==> r[k] != nil && r[k].Parent != nil && allocated(r[k]) && selects(m, r[k])
  ensures forall i int, j int {r[i], r[j]} :: 0 <= i < j < len(r) ==> r[i] != r[j]
  ensures forall c *html.Node {belowNode(n, c)} :: c != nil && belowNode(n, c) && selects(m, c) ==> (exists k int {r[k]} :: 0 <= k < len(r) && r[k] == c)

func (cli *CLI) includeNodesFromDoc(doc) (r, err)
  property C26
  opt clock
  requires doc != nil
  given forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil ==> allocated(n.Parent)
  given forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil ==> (selectedAbove(box(cli.config.includeSelector), n) <==> selects(box(cli.config.includeSelector), n.Parent) || selectedAbove(box(cli.config.includeSelector), n.Parent))
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures all_without_selector: len(cli.config.includeSelector) == 0 ==> r == doc && (forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent))
  ensures no_error: err == nil && r != nil
  ensures only_matching: len(cli.config.includeSelector) > 0 ==> fresh(r) && (forall n *html.Node {n.Parent} :: n == r || n.Parent == old(n.Parent) || n.Parent == r && selects(box(cli.config.includeSelector), n))
  ensures all_matching: len(cli.config.includeSelector) > 0 ==> (forall n *html.Node {belowNode(doc, n)} :: n != nil && belowNode(doc, n) && selects(box(cli.config.includeSelector), n) && !selectedAbove(box(cli.config.includeSelector), n) ==> n.Parent == r)
  invariant fresh(root) && root.Parent == nil && (forall k int {nodes[k]} :: 0 <= k < len(nodes) ==> nodes[k] != root)
  invariant taken(box(cli.config.includeSelector), root)
  invariant forall k int {nodes[k]} :: $i <= k < len(nodes) ==> nodes[k].Parent == old(nodes[k].Parent)
  invariant forall n *html.Node {n.Parent} :: n == root || n.Parent == old(n.Parent) || n.Parent == root && selects(box(cli.config.includeSelector), n)
  invariant forall k int {nodes[k]} :: 0 <= k < $i ==> nodes[k].Parent == root || selectedAbove(box(cli.config.includeSelector), nodes[k])

func (cli *CLI) excludeNodesFromDoc(doc) (err)
  property C26
  requires doc != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures no_error: err == nil
  ensures all_without_selector: len(cli.config.excludeSelector) == 0 ==> (forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent))
  ensures only_matching: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil && selects(box(cli.config.excludeSelector), n)
  ensures all_matching: len(cli.config.excludeSelector) > 0 ==> (forall n *html.Node {belowNode(doc, n)} :: n != nil && belowNode(doc, n) && selects(box(cli.config.excludeSelector), n) ==> n.Parent == nil)
  invariant forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil && selects(box(cli.config.excludeSelector), n)
  invariant forall k int {nodes[k]} :: 0 <= k < $i ==> nodes[k].Parent == nil

// what is in the part that was taken so far
spec func taken(m ref, a *html.Node) bool {
  forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil ==> (if n.Parent == a then selects(m, n) else (selectedAbove(m, n) <==> selects(m, n.Parent) || selectedAbove(m, n.Parent)))
}
func isInside(node, ancestor) (r)
  internal
  requires node != nil && ancestor != nil
  ensures forall m ref {selectedAbove(m, node)} :: r && node.Parent != ancestor && taken(m, ancestor) ==> selectedAbove(m, node)
  invariant forall m ref {selectedAbove(m, node)} :: node.Parent != ancestor && taken(m, ancestor) && p != nil ==> (if p == ancestor then selectedAbove(m, node) else selects(m, p) || selectedAbove(m, p) ==> selectedAbove(m, node))

// which flag sets which field: the flag package writes what is given to a flag to
// the place that was passed with its name
extern flag.NewFlagSet(name, errorHandling) (r)
  ensures r != nil && fresh(r)
extern (f *flag.FlagSet) SetOutput(output)
extern (f *flag.FlagSet) BoolVar(p, name, value, usage)
extern (f *flag.FlagSet) StringVar(p, name, value, usage)
extern (f *flag.FlagSet) Func(name, usage, fn)
spec func selectorsOf(text bytes) seq[ref]
extern cascadia.ParseGroup(sel) (r, err)
  ensures err == nil ==> r == selectorsOf(sel)
func (cli *CLI) singleStringFlag(target, name, usage)
  property C20, C21
  requires cli.flags != nil
func (cli *CLI) selectorFlag(target, name, usage)
  property C26
  requires cli.flags != nil
func (cli *CLI) initFlags(progname)
  property C19, C20, C21, C26
  modifies cmd.CLI.config, cmd.CLI.flags
  ensures set_up: cli.flags != nil
  before StringVar domain_flag: arg_name == "domain" ==> pointsto(arg_p, cli, "config.domain")
  before StringVar opt_strong_delimiter_flag: arg_name == "opt-strong-delimiter" ==> pointsto(arg_p, cli, "config.strongDelimiter")
  before StringVar opt_table_span_cell_behavior_flag: arg_name == "opt-table-span-cell-behavior" ==> pointsto(arg_p, cli, "config.tableSpanCellBehavior")
  before StringVar opt_table_newline_behavior_flag: arg_name == "opt-table-newline-behavior" ==> pointsto(arg_p, cli, "config.tableNewlineBehavior")
  before StringVar opt_table_cell_padding_behavior_flag: arg_name == "opt-table-cell-padding-behavior" ==> pointsto(arg_p, cli, "config.tableCellPaddingBehavior")
  before BoolVar version_flag: arg_name == "version" ==> pointsto(arg_p, cli, "config.version")
  before BoolVar v_flag: arg_name == "v" ==> pointsto(arg_p, cli, "config.version")
  before BoolVar output_overwrite_flag: {C19} arg_name == "output-overwrite" ==> pointsto(arg_p, cli, "config.outputOverwrite")
  before BoolVar plugin_strikethrough_flag: arg_name == "plugin-strikethrough" ==> pointsto(arg_p, cli, "config.enablePluginStrikethrough")
  before BoolVar plugin_table_flag: arg_name == "plugin-table" ==> pointsto(arg_p, cli, "config.enablePluginTable")
  before BoolVar opt_table_skip_empty_rows_flag: arg_name == "opt-table-skip-empty-rows" ==> pointsto(arg_p, cli, "config.tableSkipEmptyRows")
  before BoolVar opt_table_header_promotion_flag: arg_name == "opt-table-header-promotion" ==> pointsto(arg_p, cli, "config.tableHeaderPromotion")
  before BoolVar opt_table_presentation_tables_flag: arg_name == "opt-table-presentation-tables" ==> pointsto(arg_p, cli, "config.tablePresentationTables")
  before BoolVar off_by_default: !arg_value
  before StringVar unset_by_default: arg_value == "" || arg_name == "opt-strong-delimiter" && arg_value == "**"
  before singleStringFlag input_flag: {C20, C21} arg_name == "input" ==> pointsto(arg_target, cli, "config.inputFilepath")
  before singleStringFlag output_flag: {C20, C21} arg_name == "output" ==> pointsto(arg_target, cli, "config.outputFilepath")
  before selectorFlag include_selector_flag: arg_name == "include-selector" ==> pointsto(arg_target, cli, "config.includeSelector")
  before selectorFlag exclude_selector_flag: arg_name == "exclude-selector" ==> pointsto(arg_target, cli, "config.excludeSelector")
// ------------------------------------------------------------ a whole run
// what the flags are set to is up to the flag package (and the harness)
extern (f *flag.FlagSet) Parse(arguments) (err)
  modifies cmd.CLI.config
extern (f *flag.FlagSet) Args() (r)
iface error.Error() (r)
// which flag is suggested is up to the levenshtein package
func (cli *CLI) getAlternativeFlag(unknownFlag) (r)
  trusted
func (cli *CLI) categorizeFlagError(err) (r)
  property C26
  ensures still_an_error: (r == nil) <==> (err == nil)
func (cli *CLI) parseFlags(args) (err)
  property C26
  requires cli.flags != nil
  modifies cmd.CLI.config
  ensures table_options_need_the_plugin: err == nil && !cli.config.enablePluginTable ==> !cli.config.tableSkipEmptyRows && !cli.config.tableHeaderPromotion && !cli.config.tablePresentationTables && len(cli.config.tableSpanCellBehavior) == 0 && len(cli.config.tableNewlineBehavior) == 0 && len(cli.config.tableCellPaddingBehavior) == 0

extern fmt.Fprintf(w, format, a) (n, err)
  modifies w
func (cli CLI) printVersion()
  trusted
// errors.As sets its target to an error it found: the pointer is not nil then
extern bytes.NewReader(b) (r)
  ensures r != nil
// the library is set up as the flags say (what Init does with that is checked
// under the library's own contracts)
extern errors.As(err, target) (r)
func overrideValidationError(e) (r)
  property C26
  internal
  given e != nil
  modifies commonmark.ValidateConfigError.Key, commonmark.ValidateConfigError.KeyWithValue
  ensures still_an_error: r != nil
func (cli *CLI) parseInputWithSelectors(input) (doc, err)
  property C26
  internal
  opt clock
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  before excludeNodesFromDoc included_before: len(cli.config.includeSelector) > 0 ==> fresh(arg_doc)
  ensures parsed: err == nil ==> doc != nil
func (cli *CLI) convert(input) (r, err)
  property C26
  modifies rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, inits, plugged, pluggedTo, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, converter.Converter.escapeMode, commonmark.ValidateConfigError.Key, commonmark.ValidateConfigError.KeyWithValue
  before ConvertNode domain: domainAll(arg_opts, len(arg_opts)) == cli.config.domain
  before ConvertNode as_many_plugins: arg_conv.err == nil ==> len(plugged) == len(old(plugged)) + 2 + (if cli.config.enablePluginStrikethrough then 1 else 0) + (if cli.config.enablePluginTable then 1 else 0)
  before ConvertNode on_this_converter: arg_conv.err == nil ==> pluggedTo == old(pluggedTo) + repseq(arg_conv, 2 + (if cli.config.enablePluginStrikethrough then 1 else 0) + (if cli.config.enablePluginTable then 1 else 0))
  before ConvertNode base_plugin: arg_conv.err == nil ==> typeis(plugged[len(old(plugged))], "*base.base")
  before ConvertNode commonmark_plugin: arg_conv.err == nil ==> typeis(plugged[len(old(plugged))+1], "*commonmark.commonmark")
  before ConvertNode strong_delimiter: arg_conv.err == nil ==> asptr(plugged[len(old(plugged))+1], "plugin/commonmark.commonmark").StrongDelimiter == orElse(cli.config.strongDelimiter, "**")
  before ConvertNode strikethrough_plugin: arg_conv.err == nil && cli.config.enablePluginStrikethrough ==> typeis(plugged[len(old(plugged))+2], "*strikethrough.strikethroughPlugin")
  before ConvertNode table_plugin: arg_conv.err == nil && cli.config.enablePluginTable ==> typeis(plugged[len(old(plugged))+(if cli.config.enablePluginStrikethrough then 3 else 2)], "*table.tablePlugin")
  before ConvertNode table_span: arg_conv.err == nil && cli.config.enablePluginTable ==> (let p = asptr(plugged[len(old(plugged))+(if cli.config.enablePluginStrikethrough then 3 else 2)], "plugin/table.tablePlugin") in p.err == nil ==> p.spanCellBehavior == orElse(cli.config.tableSpanCellBehavior, ""))
  before ConvertNode table_newline: arg_conv.err == nil && cli.config.enablePluginTable ==> (let p = asptr(plugged[len(old(plugged))+(if cli.config.enablePluginStrikethrough then 3 else 2)], "plugin/table.tablePlugin") in p.err == nil ==> p.newlineBehavior == orElse(cli.config.tableNewlineBehavior, ""))
  before ConvertNode table_padding: arg_conv.err == nil && cli.config.enablePluginTable ==> (let p = asptr(plugged[len(old(plugged))+(if cli.config.enablePluginStrikethrough then 3 else 2)], "plugin/table.tablePlugin") in p.err == nil ==> p.cellPaddingBehavior == orElse(cli.config.tableCellPaddingBehavior, "aligned"))
  before ConvertNode table_empty_rows: arg_conv.err == nil && cli.config.enablePluginTable ==> (let p = asptr(plugged[len(old(plugged))+(if cli.config.enablePluginStrikethrough then 3 else 2)], "plugin/table.tablePlugin") in p.err == nil ==> (p.skipEmptyRows <==> cli.config.tableSkipEmptyRows))
  before ConvertNode table_promotion: arg_conv.err == nil && cli.config.enablePluginTable ==> (let p = asptr(plugged[len(old(plugged))+(if cli.config.enablePluginStrikethrough then 3 else 2)], "plugin/table.tablePlugin") in p.err == nil ==> (p.promoteFirstRowToHeader <==> cli.config.tableHeaderPromotion))
  before ConvertNode table_presentation: arg_conv.err == nil && cli.config.enablePluginTable ==> (let p = asptr(plugged[len(old(plugged))+(if cli.config.enablePluginStrikethrough then 3 else 2)], "plugin/table.tablePlugin") in p.err == nil ==> (p.convertPresentationTables <==> cli.config.tablePresentationTables))
  ensures error_without_output: err != nil ==> isnil(r)

func (cli *CLI) run() (warnings, err)
  property C19, C20
  requires cli.flags != nil && len(cli.OsArgs) > 0
  modifies cmd.CLI.config, cmd.input.outputFullFilepath, opens, openNames, fileWrites, printed, rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, inits, plugged, pluggedTo, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, converter.Converter.escapeMode, commonmark.ValidateConfigError.Key, commonmark.ValidateConfigError.KeyWithValue
  ensures never_replaces: {C19} !cli.config.outputOverwrite ==> allExclusive(opens, len(old(opens)))
  ensures replaces_wholly: {C19} cli.config.outputOverwrite ==> allReplace(opens, len(old(opens)))
  ensures each_file_once: {C20} forall i int, j int {openNames[i], openNames[j]} :: len(old(openNames)) <= i < j < len(openNames) ==> openNames[i] != openNames[j]
  ensures one_file_per_input: {C20} err == nil && !cli.config.version && folderSuffix(cli.config.outputFilepath) && len(cli.config.inputFilepath) > 0 ==> len(openNames) == len(old(openNames)) + len(globbed(cli.config.inputFilepath))
  ensures version_writes_nothing: {C19} cli.config.version ==> opens == old(opens)
  invariant len(openNames) >= len(old(openNames)) && len(opens) >= len(old(opens))
  invariant outputType == "directory" ==> len(openNames) == len(old(openNames)) + $i
  invariant outputType == "directory" ==> (forall i int {openNames[i]} :: len(old(openNames)) <= i < len(openNames) ==> openNames[i] == pathJoin(cli.config.outputFilepath, inputs[i-len(old(openNames))].outputFullFilepath))
  invariant outputType != "directory" ==> len(openNames) <= len(old(openNames)) + $i
  invariant !cli.config.outputOverwrite ==> allExclusive(opens, len(old(opens)))
  invariant cli.config.outputOverwrite ==> allReplace(opens, len(old(opens)))
extern os.IsExist(err) (r)
extern os.IsNotExist(err) (r)
extern os.Lstat(name) (info, err)
extern filepath.Abs(path) (r, err)
extern filepath.IsAbs(path) (r)
// a flag that can be given once; blank values are refused
func (cli *CLI) singleStringFlag$1(flagValue) (r)
  property C20, C21, C26
  given target != nil
  opt noframe
  ensures blank_refused: blank(flagValue) ==> r != nil
  ensures given_twice: deref(target) != "" && old(deref(target)) != "" ==> r != nil
  ensures set: !blank(flagValue) && old(deref(target)) == "" ==> r == nil && deref(target) == trimmed(flagValue)
  ensures kept_otherwise: r != nil ==> deref(target) == old(deref(target))
// a selector flag adds what it is given to what was given before
func (cli *CLI) selectorFlag$1(flagValue) (r)
  property C26
  given target != nil
  opt noframe
  ensures blank_refused: blank(flagValue) ==> r != nil
  ensures kept_when_refused: r != nil ==> deref(target) == old(deref(target))
  ensures added: r == nil ==> deref(target) == old(deref(target)) + selectorsOf(flagValue)
