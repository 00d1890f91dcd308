
// ------------------------------------------------------------ the package's own functions
package plugin/base
func (s *base) Name() (r)
  property C18
  ensures r == "base"
func NewBasePlugin() (p)
  property C18
  ensures p != nil && typeis(p, "*base.base")
package plugin/commonmark
func (s *commonmark) Name() (r)
  property C18
  ensures r == "commonmark"
package plugin/strikethrough
func (s *strikethroughPlugin) Name() (r)
  property C18
  ensures r == "strikethrough"
package plugin/table
func (s *tablePlugin) Name() (r)
  property C18
  ensures r == "table"

// pluginName is what Name returns, which the four contracts above fix for the
// plugins of this repository
package converter
axiom plugin_names(p ref)
  auto why "pluginName(p) stands for what p.Name() returns; the four contracts above are what Name returns for each of these types"
  trigger pluginName(p)
  ensures typeis(p, "*base.base") ==> pluginName(p) == "base"
  ensures typeis(p, "*commonmark.commonmark") ==> pluginName(p) == "commonmark"
  ensures typeis(p, "*strikethrough.strikethroughPlugin") ==> pluginName(p) == "strikethrough"
  ensures typeis(p, "*table.tablePlugin") ==> pluginName(p) == "table"

// the converter of the functions of the package: the base plugin, then the
// commonmark plugin with nothing changed
spec func setUpWithDefaults(conv *converter.Converter, from int) bool {
  conv.err == nil ==> len(plugged) == from + 2 && typeis(plugged[from], "*base.base") && typeis(plugged[from+1], "*commonmark.commonmark")
    && pluggedTo[len(pluggedTo)-2] == conv && pluggedTo[len(pluggedTo)-1] == conv
    && (let c = asptr(plugged[from+1], "plugin/commonmark.commonmark") in c.EmDelimiter == "*" && c.StrongDelimiter == "**" && c.HorizontalRule == "* * *" && c.BulletListMarker == "-" && c.CodeBlockFence == "```" && c.HeadingStyle == "atx" && c.LinkStyle == "inlined" && !c.DisableListEndComment)
}
package htmltomarkdown
func ConvertString(htmlInput, opts) (out, err)
  property C10, C18
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  modifies rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, inits, plugged, pluggedTo, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, converter.Converter.escapeMode
  before ConvertString plugins: setUpWithDefaults(arg_conv, len(old(plugged)))
  before ConvertString domain_passed_on: domainAll(arg_opts, len(arg_opts)) == domainAll(opts, len(opts)) && arg_htmlInput == htmlInput
  ensures error_without_output: err != nil ==> out == ""
func ConvertReader(r, opts) (out, err)
  property C10, C18
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  modifies rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, inits, plugged, pluggedTo, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, converter.Converter.escapeMode
  before ConvertReader plugins: setUpWithDefaults(arg_conv, len(old(plugged)))
  before ConvertReader domain_passed_on: domainAll(arg_opts, len(arg_opts)) == domainAll(opts, len(opts)) && arg_r == r
  ensures error_without_output: err != nil ==> isnil(out)
func ConvertNode(doc, opts) (out, err)
  property C10, C18
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  modifies rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, inits, plugged, pluggedTo, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, converter.Converter.escapeMode
  before ConvertNode plugins: setUpWithDefaults(arg_conv, len(old(plugged)))
  before ConvertNode domain_passed_on: domainAll(arg_opts, len(arg_opts)) == domainAll(opts, len(opts)) && arg_doc == doc
  ensures error_without_output: err != nil ==> isnil(out)
