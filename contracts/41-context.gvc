// What the conversion context offers to the handlers.
package converter

func (c *converterContext) EscapeContent(content) (r)
  property C01
  requires c.conv != nil
  ensures disabled: c.conv.escapeMode == "disabled" ==> r == content
  ensures marked: c.conv.escapeMode != "disabled" ==> r == marked(c.conv.markdownChars, content, len(content))
func (c *converterContext) UnEscapeContent(content) (r)
  property C01
  requires c.conv != nil
  requires forall i int {c.conv.unEscapeHandlers[i]} :: 0 <= i < len(c.conv.unEscapeHandlers) ==> c.conv.unEscapeHandlers[i].Value != nil
  ensures disabled: c.conv.escapeMode == "disabled" ==> r == content
  ensures decided: c.conv.escapeMode != "disabled" ==> r == unescaped(ordUn(c.conv.unEscapeHandlers), content, len(content))
  ensures bars_stay_escaped: {C14} barsEscaped(content, len(content)) ==> barsEscaped(r, len(r))
  use unescaping_keeps_bars

func (r *register) EscapedChar(chars)
  property C01
  requires r.conv != nil
  requires r.conv.markdownChars != nil
  modifies mapof(r.conv.markdownChars)
  ensures registered: forall i int {chars[i]} :: 0 <= i < len(chars) ==> haskey(r.conv.markdownChars, chars[i])
  ensures none_lost: forall c int {haskey(r.conv.markdownChars, c)} :: old(haskey(r.conv.markdownChars, c)) ==> haskey(r.conv.markdownChars, c)
  invariant forall i int {chars[i]} :: 0 <= i < $i ==> haskey(r.conv.markdownChars, chars[i])
  invariant forall c int {haskey(r.conv.markdownChars, c)} :: old(haskey(r.conv.markdownChars, c)) ==> haskey(r.conv.markdownChars, c)

func (conv *Converter) getTagType(tagName) (t, ok)
  property C24, C27
  ensures registered: haskey(conv.tagTypes, tagName) && len(mapget(conv.tagTypes, tagName)) > 0 ==> ok && (exists j int {mapget(conv.tagTypes, tagName)[j]} :: 0 <= j < len(mapget(conv.tagTypes, tagName)) && mapget(conv.tagTypes, tagName)[j].Value == t && (forall i int {mapget(conv.tagTypes, tagName)[i]} :: 0 <= i < len(mapget(conv.tagTypes, tagName)) ==> mapget(conv.tagTypes, tagName)[j].Priority <= mapget(conv.tagTypes, tagName)[i].Priority))
  ensures not_registered: !(haskey(conv.tagTypes, tagName) && len(mapget(conv.tagTypes, tagName)) > 0) ==> t == "block" || t == "inline" || (t == "" && !ok)
func (r *register) TagType(tagName, tagType, priority)
  property C24, C27
  requires r.conv != nil
  requires r.conv.tagTypes != nil
  modifies mapof(r.conv.tagTypes)
  ensures is_last: haskey(r.conv.tagTypes, tagName) && len(mapget(r.conv.tagTypes, tagName)) > 0 && mapget(r.conv.tagTypes, tagName)[len(mapget(r.conv.tagTypes, tagName))-1].Value == tagType && mapget(r.conv.tagTypes, tagName)[len(mapget(r.conv.tagTypes, tagName))-1].Priority == priority
  ensures others_kept: forall k bytes {haskey(r.conv.tagTypes, k)} :: k != tagName ==> haskey(r.conv.tagTypes, k) == old(haskey(r.conv.tagTypes, k))

func (conv *Converter) handleRenderNodes(ctx, w, nodes)
  property C27
  requires ctx != nil
  requires forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil
  requires forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> conv.renderHandlers[i].Value != nil
  modifies w, rendered, calls, statuses
  ensures output_kept: len(w) >= len(old(w)) && w[:len(old(w))] == old(w)
  invariant len(w) >= len(old(w)) && w[:len(old(w))] == old(w)

guarded converter.Converter.m: err, registeredPlugins, preRenderHandlers, renderHandlers, postRenderHandlers, textTransformHandlers, markdownChars, unEscapeHandlers, tagTypes
guarded table.tablePlugin.m: err
