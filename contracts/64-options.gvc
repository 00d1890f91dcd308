// Options are validated, and errors of the setup are returned.
package plugin/commonmark

spec func countByte(s bytes, c int, i int) int decreases i {
  if i <= 0 then 0 else countByte(s, c, i-1) + (if s[i-1] == c then 1 else 0)
}
extern strings.Count(s, sub) (r)
  requires len(sub) == 1
  ensures r == countByte(s, sub[0], len(s))

// a thematic break: three or more of one of the characters, with blanks between them
spec func onlyOf(s bytes, c int, i int) bool decreases i {
  if i <= 0 then true else onlyOf(s, c, i-1) && (s[i-1] == c || s[i-1] == ' ' || s[i-1] == '\t')
}
spec func ruleOf(s bytes, c int) bool { onlyOf(s, c, len(s)) && countByte(s, c, len(s)) >= 3 }
spec func isRule(s bytes) bool { ruleOf(s, '*') || ruleOf(s, '_') || ruleOf(s, '-') }
spec func solid(s bytes) bytes { repl1(repl1(s, ' ', "", len(s)), '\t', "", len(repl1(s, ' ', "", len(s)))) }
spec func solidTo(s bytes, i int) bytes decreases i {
  if i <= 0 then "" else if s[i-1] == ' ' || s[i-1] == '\t' then solidTo(s, i-1) else solidTo(s, i-1) + unit(s[i-1])
}
lemma solid_last(a bytes, x int)
  apply repl1_prefix(a, unit(x), '\t', "", len(a))
  requires 0 <= x && x < 256
  ensures repl1(a + unit(x), '\t', "", len(a) + 1) == (if x == '\t' then repl1(a, '\t', "", len(a)) else repl1(a, '\t', "", len(a)) + unit(x))
lemma solid_two_steps(s bytes, i int)
  requires 0 <= i <= len(s)
  decreases i
  apply solid_two_steps(s, i-1) when i > 0
  apply repl1_prefix(repl1(s, ' ', "", i-1), unit(s[i-1]), '\t', "", len(repl1(s, ' ', "", i-1))) when i > 0
  apply solid_last(repl1(s, ' ', "", i-1), s[i-1]) when i > 0
  ensures repl1(repl1(s, ' ', "", i), '\t', "", len(repl1(s, ' ', "", i))) == solidTo(s, i)
lemma count_prefix(a bytes, b bytes, c int, i int)
  requires 0 <= i <= len(a)
  decreases i
  apply count_prefix(a, b, c, i-1) when i > 0
  ensures countByte(a + b, c, i) == countByte(a, c, i)
lemma count_bounds(s bytes, c int, i int)
  requires 0 <= i <= len(s)
  decreases i
  apply count_bounds(s, c, i-1) when i > 0
  ensures 0 <= countByte(s, c, i) <= i
lemma rule_counted(s bytes, c int, i int)
  requires 0 <= i <= len(s) && c != ' ' && c != '\t'
  decreases i
  apply rule_counted(s, c, i-1) when i > 0
  apply count_prefix(solidTo(s, i-1), unit(s[i-1]), c, len(solidTo(s, i-1))) when i > 0
  apply count_bounds(solidTo(s, i-1), c, len(solidTo(s, i-1))) when i > 0
  ensures countByte(solidTo(s, i), c, len(solidTo(s, i))) == countByte(s, c, i)
  ensures onlyOf(s, c, i) <==> countByte(s, c, i) == len(solidTo(s, i))
lemma rule_recognised(s bytes)
  apply solid_two_steps(s, len(s))
  apply rule_counted(s, '*', len(s))
  apply rule_counted(s, '_', len(s))
  apply rule_counted(s, '-', len(s))
  ensures isRule(s) <==> len(solid(s)) >= 3 && (countByte(solid(s), '*', len(solid(s))) == len(solid(s)) || countByte(solid(s), '_', len(solid(s))) == len(solid(s)) || countByte(solid(s), '-', len(solid(s))) == len(solid(s)))
  trigger solid(s)

func contains(values, searchVal) (r)
  internal
  ensures r <==> (exists i int :: 0 <= i < len(values) && values[i] == searchVal)
  ensures !r ==> (len(values) > 0 ==> values[0] != searchVal) && (len(values) > 1 ==> values[1] != searchVal) && (len(values) > 2 ==> values[2] != searchVal)
  invariant forall i int {values[i]} :: 0 <= i < $i ==> values[i] != searchVal

spec func validDelims(em bytes, strong bytes) bool { (em == "*" || em == "_") && (strong == "**" || strong == "__") }
spec func validRest(bullet bytes, fence bytes, heading bytes, link bytes) bool {
  (bullet == "-" || bullet == "+" || bullet == "*") && (fence == "```" || fence == "~~~")
  && (heading == "atx" || heading == "setext") && (link == "inlined" || link == "referenced_index" || link == "referenced_short")
}
func validateConfig(cfg) (err)
  property C18
  requires cfg != nil
  use rule_recognised
  ensures rejects_invalid: err == nil ==> validDelims(cfg.EmDelimiter, cfg.StrongDelimiter) && isRule(cfg.HorizontalRule) && validRest(cfg.BulletListMarker, cfg.CodeBlockFence, cfg.HeadingStyle, cfg.LinkStyle)
  ensures accepts_valid: validDelims(cfg.EmDelimiter, cfg.StrongDelimiter) && isRule(cfg.HorizontalRule) && validRest(cfg.BulletListMarker, cfg.CodeBlockFence, cfg.HeadingStyle, cfg.LinkStyle) ==> err == nil

spec func orElse(s bytes, d bytes) bytes { if len(s) == 0 then d else s }
func fillInDefaultConfig(cfg) (r)
  property C18
  requires cfg != nil
  modifies cfg.EmDelimiter, cfg.StrongDelimiter, cfg.HorizontalRule, cfg.BulletListMarker, cfg.CodeBlockFence, cfg.HeadingStyle, cfg.LinkStyle, cfg.LinkEmptyHrefBehavior, cfg.LinkEmptyContentBehavior, cfg.DisableListEndComment
  ensures em: r.EmDelimiter == orElse(old(cfg.EmDelimiter), "*")
  ensures strong: r.StrongDelimiter == orElse(old(cfg.StrongDelimiter), "**")
  ensures rule: r.HorizontalRule == orElse(old(cfg.HorizontalRule), "* * *")
  ensures bullet: r.BulletListMarker == orElse(old(cfg.BulletListMarker), "-")
  ensures fence: r.CodeBlockFence == orElse(old(cfg.CodeBlockFence), "```")
  ensures heading: r.HeadingStyle == orElse(old(cfg.HeadingStyle), "atx")
  ensures link: r.LinkStyle == orElse(old(cfg.LinkStyle), "inlined")
  ensures empty_href: r.LinkEmptyHrefBehavior == orElse(old(cfg.LinkEmptyHrefBehavior), "render")
  ensures empty_content: r.LinkEmptyContentBehavior == orElse(old(cfg.LinkEmptyContentBehavior), "render")
  ensures end_comment: r.DisableListEndComment == old(cfg.DisableListEndComment)

func (cm *commonmark) Init(conv) (err)
  requires conv != nil && conv.Register.conv == conv && conv.markdownChars != nil
  modifies conv.preRenderHandlers, conv.renderHandlers, conv.postRenderHandlers, conv.textTransformHandlers, conv.unEscapeHandlers, mapof(conv.markdownChars)
  ensures error_for_invalid: {C18} err == nil <==> validDelims(old(cm.EmDelimiter), old(cm.StrongDelimiter)) && isRule(old(cm.HorizontalRule)) && validRest(old(cm.BulletListMarker), old(cm.CodeBlockFence), old(cm.HeadingStyle), old(cm.LinkStyle))
  ensures nothing_registered: {C18} err != nil ==> len(conv.renderHandlers) == len(old(conv.renderHandlers))
  ensures block_characters: {C02} err == nil ==> haskey(conv.markdownChars, '#') && haskey(conv.markdownChars, '=') && haskey(conv.markdownChars, '-') && haskey(conv.markdownChars, '+') && haskey(conv.markdownChars, '*') && haskey(conv.markdownChars, '_') && haskey(conv.markdownChars, '.') && haskey(conv.markdownChars, ')') && haskey(conv.markdownChars, '>') && haskey(conv.markdownChars, '`') && haskey(conv.markdownChars, '~')
  ensures inline_characters: {C03} err == nil ==> haskey(conv.markdownChars, 92) && haskey(conv.markdownChars, '*') && haskey(conv.markdownChars, '_') && haskey(conv.markdownChars, '`') && haskey(conv.markdownChars, '[') && haskey(conv.markdownChars, '!')

// ------------------------------------------------------------ setting up
package converter

// 1 for every plugin whose Init failed, 0 for every other one
ghost inits seq[int]
spec func pluginName(p ref) bytes
spec func noneFailed(s seq[int], from int) bool { forall k int {s[k]} :: from <= k < len(s) ==> s[k] == 0 }
// every handler that is registered is a function
spec func handlersSet(conv *converter.Converter) bool {
  (forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil)
  && (forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> conv.renderHandlers[i].Value != nil)
  && (forall i int {conv.preRenderHandlers[i]} :: 0 <= i < len(conv.preRenderHandlers) ==> conv.preRenderHandlers[i].Value != nil)
  && (forall i int {conv.postRenderHandlers[i]} :: 0 <= i < len(conv.postRenderHandlers) ==> conv.postRenderHandlers[i].Value != nil)
}
// the plugins that were set up, in their order, and for which converter
ghost plugged seq[int]
ghost pluggedTo seq[int]
iface converter.Plugin.Name() (r)
  ensures r == pluginName(self)
// plugins change the converter only, and only through conv.Register
iface converter.Plugin.Init(conv) (err)
  modifies plugged, pluggedTo, inits, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, mapof(conv.markdownChars), mapof(conv.tagTypes)
  ensures plugged == old(plugged) + one(self) && pluggedTo == old(pluggedTo) + one(conv)
  ensures old(handlersSet(conv)) ==> handlersSet(conv)
  ensures inits == old(inits) + one(if err == nil then 0 else 1)
  ensures old(conv.err) != nil ==> conv.err != nil

extern errors.New(s) (err)
  ensures err != nil
extern fmt.Errorf(format, a) (err)
  ensures err != nil

func (conv *Converter) setError(err)
  property C18
  modifies conv.err
  ensures kept: conv.err == err
func (conv *Converter) getError() (err)
  property C18
  ensures reported: err == conv.err

func (r *register) Plugin(plugin)
  property C18
  requires r.conv != nil && plugin != nil
  modifies plugged, pluggedTo, inits, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, mapof(r.conv.markdownChars), mapof(r.conv.tagTypes)
  ensures nameless: len(pluginName(plugin)) == 0 ==> r.conv.err != nil && inits == old(inits)
  ensures plugged_here: len(pluginName(plugin)) > 0 ==> plugged == old(plugged) + one(plugin) && pluggedTo == old(pluggedTo) + one(r.conv)
  ensures handlers: old(handlersSet(r.conv)) ==> handlersSet(r.conv)
  ensures initialised: len(pluginName(plugin)) > 0 ==> len(inits) == len(old(inits)) + 1
  ensures failure_kept: !noneFailed(inits, len(old(inits))) ==> r.conv.err != nil
  ensures earlier_kept: len(inits) >= len(old(inits)) && (forall k int {inits[k]} :: 0 <= k < len(old(inits)) ==> inits[k] == old(inits)[k])
  ensures error_never_lost: old(r.conv.err) != nil ==> r.conv.err != nil

spec func pluginsOf(fn ref) seq[ref]
spec func allNamed(ps seq[ref]) bool { forall i int {ps[i]} :: 0 <= i < len(ps) ==> len(pluginName(ps[i])) > 0 }
func WithPlugins$1(c) (err)
  property C18
  opt as="converter.converterOption"
  stands pluginsOf(fn) == plugins && !optionFails(fn)
  stands forall v bytes {escapeAfter(fn, v)} :: escapeAfter(fn, v) == v
  ensures plugged_here: allNamed(plugins) ==> plugged == old(plugged) + plugins && pluggedTo == old(pluggedTo) + repseq(c, len(plugins))
  ensures handlers: old(handlersSet(c)) ==> handlersSet(c)
  invariant old(handlersSet(c)) ==> handlersSet(c)
  invariant allNamed(plugins) ==> plugged == old(plugged) + plugins[:$i] && pluggedTo == old(pluggedTo) + repseq(c, $i)
  requires c != nil && c.Register.conv == c
  requires forall i int {plugins[i]} :: 0 <= i < len(plugins) ==> plugins[i] != nil
  modifies plugged, pluggedTo, inits, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, mapof(c.markdownChars), mapof(c.tagTypes)
  ensures no_own_error: err == nil
  ensures failure_kept: !noneFailed(inits, len(old(inits))) ==> c.err != nil
  ensures nameless: (exists i int {plugins[i]} :: 0 <= i < len(plugins) && len(pluginName(plugins[i])) == 0) ==> c.err != nil
  ensures all_initialised: len(inits) <= len(old(inits)) + len(plugins) && (c.err == nil ==> len(inits) == len(old(inits)) + len(plugins))
  ensures error_never_lost: old(c.err) != nil ==> c.err != nil
  ensures earlier_kept: len(inits) >= len(old(inits)) && (forall k int {inits[k]} :: 0 <= k < len(old(inits)) ==> inits[k] == old(inits)[k])
  invariant len(inits) >= len(old(inits)) && (forall k int {inits[k]} :: 0 <= k < len(old(inits)) ==> inits[k] == old(inits)[k])
  invariant c.err == nil ==> noneFailed(inits, len(old(inits)))
  invariant (exists i int {plugins[i]} :: 0 <= i < $i && len(pluginName(plugins[i])) == 0) ==> c.err != nil
  invariant len(inits) <= len(old(inits)) + $i && (c.err == nil ==> len(inits) == len(old(inits)) + $i)
  invariant old(c.err) != nil ==> c.err != nil

// what an option makes of the escape mode, and whether it fails
spec func optionFails(fn ref) bool
spec func escapeAfter(fn ref, v bytes) bytes
functype converter.converterOption(c) (err)
  modifies plugged, pluggedTo, inits, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, converter.Converter.escapeMode, mapof(c.markdownChars), mapof(c.tagTypes)
  ensures err != nil <==> optionFails(fn)
  ensures allNamed(pluginsOf(fn)) ==> plugged == old(plugged) + pluginsOf(fn) && pluggedTo == old(pluggedTo) + repseq(c, len(pluginsOf(fn)))
  ensures err == nil ==> c.escapeMode == escapeAfter(fn, old(c.escapeMode))
  ensures old(handlersSet(c)) ==> handlersSet(c)
  ensures old(c.err) != nil ==> c.err != nil
func WithEscapeMode$1(c) (err)
  property C18
  requires c != nil
  opt as="converter.converterOption"
  stands !optionFails(fn) && len(pluginsOf(fn)) == 0
  stands forall v bytes {escapeAfter(fn, v)} :: escapeAfter(fn, v) == mode
  modifies converter.Converter.escapeMode
  ensures set: err == nil && c.escapeMode == mode
spec func escapeAll(opts seq[ref], i int) bytes decreases i fuel 3 { if i <= 0 then "" else escapeAfter(opts[i-1], escapeAll(opts, i-1)) }
spec func pluggedBy(opts seq[ref], i int) seq[ref] decreases i fuel 3 { if i <= 0 then emptyseq(1) else pluggedBy(opts, i-1) + pluginsOf(opts[i-1]) }
func NewConverter(opts) (conv)
  property C18
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  modifies plugged, pluggedTo, inits, converter.Converter.err, converter.Converter.registeredPlugins, converter.Converter.preRenderHandlers, converter.Converter.renderHandlers, converter.Converter.postRenderHandlers, converter.Converter.textTransformHandlers, converter.Converter.unEscapeHandlers, converter.Converter.escapeMode
  ensures failure_kept: (exists i int {opts[i]} :: 0 <= i < len(opts) && optionFails(opts[i])) ==> conv.err != nil
  ensures escape_as_set: conv.err == nil ==> conv.escapeMode == escapeAll(opts, len(opts))
  ensures plugged_here: conv.err == nil && (forall i int {opts[i]} :: 0 <= i < len(opts) ==> allNamed(pluginsOf(opts[i]))) ==> plugged == old(plugged) + pluggedBy(opts, len(opts)) && pluggedTo == old(pluggedTo) + repseq(conv, len(pluggedBy(opts, len(opts))))
  ensures registers_here: conv.Register.conv == conv
  ensures handlers: handlersSet(conv)
  ensures conv != nil && fresh(conv) && fresh(conv.markdownChars) && fresh(conv.tagTypes)
  invariant forall i int {opts[i]} :: 0 <= i < $i ==> !optionFails(opts[i])
  invariant conv.escapeMode == escapeAll(opts, $i)
  invariant (forall i int {opts[i]} :: 0 <= i < len(opts) ==> allNamed(pluginsOf(opts[i]))) ==> plugged == old(plugged) + pluggedBy(opts, $i) && pluggedTo == old(pluggedTo) + repseq(conv, len(pluggedBy(opts, $i)))
  invariant conv.Register.conv == conv && handlersSet(conv)

// ---------------------------------------------------------------- options
package plugin/commonmark
// what an option makes of a setting: fn is the option
spec func emAfter(fn ref, v bytes) bytes
spec func strongAfter(fn ref, v bytes) bytes
spec func ruleAfter(fn ref, v bytes) bytes
spec func bulletAfter(fn ref, v bytes) bytes
spec func fenceAfter(fn ref, v bytes) bytes
spec func headingAfter(fn ref, v bytes) bytes
spec func emptyHrefAfter(fn ref, v bytes) bytes
spec func emptyContentAfter(fn ref, v bytes) bytes
spec func noCommentAfter(fn ref, v bool) bool
func WithEmDelimiter$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == delimiter
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.EmDelimiter
  ensures set: config.EmDelimiter == delimiter
func WithStrongDelimiter$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == delimiter
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.StrongDelimiter
  ensures set: config.StrongDelimiter == delimiter
func WithHorizontalRule$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == rule
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.HorizontalRule
  ensures set: config.HorizontalRule == rule
func WithBulletListMarker$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == marker
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.BulletListMarker
  ensures set: config.BulletListMarker == marker
func WithCodeBlockFence$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == fence
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.CodeBlockFence
  ensures set: config.CodeBlockFence == fence
func WithHeadingStyle$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == style
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.HeadingStyle
  ensures set: config.HeadingStyle == style
func WithLinkEmptyHrefBehavior$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == behavior
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.LinkEmptyHrefBehavior
  ensures set: config.LinkEmptyHrefBehavior == behavior
func WithLinkEmptyContentBehavior$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == behavior
  stands noCommentAfter(fn, true) && !noCommentAfter(fn, false)
  requires config != nil
  modifies config.LinkEmptyContentBehavior
  ensures set: config.LinkEmptyContentBehavior == behavior
func WithListEndComment$1(config)
  property C18
  opt as="commonmark.OptionFunc"
  stands forall v bytes {emAfter(fn, v)} :: emAfter(fn, v) == v
  stands forall v bytes {strongAfter(fn, v)} :: strongAfter(fn, v) == v
  stands forall v bytes {ruleAfter(fn, v)} :: ruleAfter(fn, v) == v
  stands forall v bytes {bulletAfter(fn, v)} :: bulletAfter(fn, v) == v
  stands forall v bytes {fenceAfter(fn, v)} :: fenceAfter(fn, v) == v
  stands forall v bytes {headingAfter(fn, v)} :: headingAfter(fn, v) == v
  stands forall v bytes {emptyHrefAfter(fn, v)} :: emptyHrefAfter(fn, v) == v
  stands forall v bytes {emptyContentAfter(fn, v)} :: emptyContentAfter(fn, v) == v
  stands (noCommentAfter(fn, true) <==> !enabled) && (noCommentAfter(fn, false) <==> !enabled)
  requires config != nil
  modifies config.DisableListEndComment
  ensures set: config.DisableListEndComment <==> !enabled
functype commonmark.OptionFunc(config)
  modifies config.EmDelimiter, config.StrongDelimiter, config.HorizontalRule, config.BulletListMarker, config.CodeBlockFence, config.HeadingStyle, config.LinkStyle, config.LinkEmptyHrefBehavior, config.LinkEmptyContentBehavior, config.DisableListEndComment
  ensures config.EmDelimiter == emAfter(fn, old(config.EmDelimiter))
  ensures config.StrongDelimiter == strongAfter(fn, old(config.StrongDelimiter))
  ensures config.HorizontalRule == ruleAfter(fn, old(config.HorizontalRule))
  ensures config.BulletListMarker == bulletAfter(fn, old(config.BulletListMarker))
  ensures config.CodeBlockFence == fenceAfter(fn, old(config.CodeBlockFence))
  ensures config.HeadingStyle == headingAfter(fn, old(config.HeadingStyle))
  ensures config.LinkEmptyHrefBehavior == emptyHrefAfter(fn, old(config.LinkEmptyHrefBehavior))
  ensures config.LinkEmptyContentBehavior == emptyContentAfter(fn, old(config.LinkEmptyContentBehavior))
  ensures config.DisableListEndComment <==> noCommentAfter(fn, old(config.DisableListEndComment))
spec func emAll(opts seq[ref], i int) bytes decreases i fuel 3 { if i <= 0 then "" else emAfter(opts[i-1], emAll(opts, i-1)) }
spec func strongAll(opts seq[ref], i int) bytes decreases i fuel 3 { if i <= 0 then "" else strongAfter(opts[i-1], strongAll(opts, i-1)) }
func NewCommonmarkPlugin(opts) (p)
  property C18
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  ensures a_plugin: p != nil && typeis(p, "*commonmark.commonmark")
  ensures strong_as_set: asptr(p, "plugin/commonmark.commonmark").StrongDelimiter == orElse(strongAll(opts, len(opts)), "**")
  ensures em_as_set: asptr(p, "plugin/commonmark.commonmark").EmDelimiter == orElse(emAll(opts, len(opts)), "*")
  invariant cfg.StrongDelimiter == strongAll(opts, $i) && cfg.EmDelimiter == emAll(opts, $i)
  ensures complete: (let c = asptr(p, "plugin/commonmark.commonmark") in len(c.EmDelimiter) > 0 && len(c.StrongDelimiter) > 0 && len(c.HorizontalRule) > 0 && len(c.BulletListMarker) > 0 && len(c.CodeBlockFence) > 0 && len(c.HeadingStyle) > 0 && len(c.LinkStyle) > 0)
  ensures defaults: len(opts) == 0 ==> (let c = asptr(p, "plugin/commonmark.commonmark") in c.EmDelimiter == "*" && c.StrongDelimiter == "**" && c.HorizontalRule == "* * *" && c.BulletListMarker == "-" && c.CodeBlockFence == "```" && c.HeadingStyle == "atx" && c.LinkStyle == "inlined" && !c.DisableListEndComment)
  invariant $i == 0 ==> cfg.EmDelimiter == "" && cfg.StrongDelimiter == "" && cfg.HorizontalRule == "" && cfg.BulletListMarker == "" && cfg.CodeBlockFence == "" && cfg.HeadingStyle == "" && cfg.LinkStyle == "" && !cfg.DisableListEndComment

package plugin/table
// what an option makes of a setting, and whether it is refused
spec func refused(fn ref) bool
spec func spanAfter(fn ref, v bytes) bytes
spec func nlAfter(fn ref, v bytes) bytes
spec func padAfter(fn ref, v bytes) bytes
spec func skipAfter(fn ref, v bool) bool
spec func promoAfter(fn ref, v bool) bool
spec func presAfter(fn ref, v bool) bool
func WithSpanCellBehavior$1(p) (err)
  property C18
  opt as="table.option"
  stands refused(fn) <==> !(behavior == "" || behavior == "empty" || behavior == "mirror")
  stands forall v bytes {spanAfter(fn, v)} :: spanAfter(fn, v) == (if behavior == "" then v else behavior)
  stands forall v bytes {nlAfter(fn, v)} :: nlAfter(fn, v) == (v)
  stands forall v bytes {padAfter(fn, v)} :: padAfter(fn, v) == (v)
  stands skipAfter(fn, true) && !skipAfter(fn, false)
  stands promoAfter(fn, true) && !promoAfter(fn, false)
  stands presAfter(fn, true) && !presAfter(fn, false)
  requires p != nil
  modifies p.spanCellBehavior
  ensures rejects_unknown: err == nil <==> behavior == "" || behavior == "empty" || behavior == "mirror"
  ensures set: err == nil && behavior != "" ==> p.spanCellBehavior == behavior
  ensures otherwise_unset: err != nil || behavior == "" ==> p.spanCellBehavior == old(p.spanCellBehavior)
func WithNewlineBehavior$1(p) (err)
  property C18
  opt as="table.option"
  stands refused(fn) <==> !(behavior == "" || behavior == "skip" || behavior == "preserve")
  stands forall v bytes {spanAfter(fn, v)} :: spanAfter(fn, v) == (v)
  stands forall v bytes {nlAfter(fn, v)} :: nlAfter(fn, v) == (if behavior == "" then v else behavior)
  stands forall v bytes {padAfter(fn, v)} :: padAfter(fn, v) == (v)
  stands skipAfter(fn, true) && !skipAfter(fn, false)
  stands promoAfter(fn, true) && !promoAfter(fn, false)
  stands presAfter(fn, true) && !presAfter(fn, false)
  requires p != nil
  modifies p.newlineBehavior
  ensures rejects_unknown: err == nil <==> behavior == "" || behavior == "skip" || behavior == "preserve"
  ensures set: err == nil && behavior != "" ==> p.newlineBehavior == behavior
  ensures otherwise_unset: err != nil || behavior == "" ==> p.newlineBehavior == old(p.newlineBehavior)
func WithCellPaddingBehavior$1(p) (err)
  property C18
  opt as="table.option"
  stands refused(fn) <==> !(behavior == "" || behavior == "aligned" || behavior == "minimal" || behavior == "none")
  stands forall v bytes {spanAfter(fn, v)} :: spanAfter(fn, v) == (v)
  stands forall v bytes {nlAfter(fn, v)} :: nlAfter(fn, v) == (v)
  stands forall v bytes {padAfter(fn, v)} :: padAfter(fn, v) == (if behavior == "" then "aligned" else behavior)
  stands skipAfter(fn, true) && !skipAfter(fn, false)
  stands promoAfter(fn, true) && !promoAfter(fn, false)
  stands presAfter(fn, true) && !presAfter(fn, false)
  requires p != nil
  modifies p.cellPaddingBehavior
  ensures rejects_unknown: err == nil <==> behavior == "" || behavior == "aligned" || behavior == "minimal" || behavior == "none"
  ensures set: err == nil ==> p.cellPaddingBehavior == (if behavior == "" then "aligned" else behavior)
func WithSkipEmptyRows$1(p) (err)
  property C18
  opt as="table.option"
  stands !refused(fn)
  stands forall v bytes {spanAfter(fn, v)} :: spanAfter(fn, v) == (v)
  stands forall v bytes {nlAfter(fn, v)} :: nlAfter(fn, v) == (v)
  stands forall v bytes {padAfter(fn, v)} :: padAfter(fn, v) == (v)
  stands (skipAfter(fn, true) <==> skip) && (skipAfter(fn, false) <==> skip)
  stands promoAfter(fn, true) && !promoAfter(fn, false)
  stands presAfter(fn, true) && !presAfter(fn, false)
  requires p != nil
  modifies p.skipEmptyRows
  ensures set: err == nil && (p.skipEmptyRows <==> skip)
func WithHeaderPromotion$1(p) (err)
  property C18
  opt as="table.option"
  stands !refused(fn)
  stands forall v bytes {spanAfter(fn, v)} :: spanAfter(fn, v) == (v)
  stands forall v bytes {nlAfter(fn, v)} :: nlAfter(fn, v) == (v)
  stands forall v bytes {padAfter(fn, v)} :: padAfter(fn, v) == (v)
  stands skipAfter(fn, true) && !skipAfter(fn, false)
  stands (promoAfter(fn, true) <==> promote) && (promoAfter(fn, false) <==> promote)
  stands presAfter(fn, true) && !presAfter(fn, false)
  requires p != nil
  modifies p.promoteFirstRowToHeader
  ensures set: err == nil && (p.promoteFirstRowToHeader <==> promote)
func WithPresentationTables$1(p) (err)
  property C18
  opt as="table.option"
  stands !refused(fn)
  stands forall v bytes {spanAfter(fn, v)} :: spanAfter(fn, v) == (v)
  stands forall v bytes {nlAfter(fn, v)} :: nlAfter(fn, v) == (v)
  stands forall v bytes {padAfter(fn, v)} :: padAfter(fn, v) == (v)
  stands skipAfter(fn, true) && !skipAfter(fn, false)
  stands promoAfter(fn, true) && !promoAfter(fn, false)
  stands (presAfter(fn, true) <==> convert) && (presAfter(fn, false) <==> convert)
  requires p != nil
  modifies p.convertPresentationTables
  ensures set: err == nil && (p.convertPresentationTables <==> convert)

func (p *tablePlugin) setError(err)
  property C18
  modifies p.err
  ensures kept: p.err == err
func (p *tablePlugin) getError() (err)
  property C18
  ensures reported: err == p.err
functype table.option(p) (err)
  modifies p.spanCellBehavior, p.newlineBehavior, p.cellPaddingBehavior, p.skipEmptyRows, p.promoteFirstRowToHeader, p.convertPresentationTables
  ensures err != nil <==> refused(fn)
  ensures err == nil ==> (p.spanCellBehavior == spanAfter(fn, old(p.spanCellBehavior)))
  ensures err == nil ==> (p.newlineBehavior == nlAfter(fn, old(p.newlineBehavior)))
  ensures err == nil ==> (p.cellPaddingBehavior == padAfter(fn, old(p.cellPaddingBehavior)))
  ensures err == nil ==> (p.skipEmptyRows <==> skipAfter(fn, old(p.skipEmptyRows)))
  ensures err == nil ==> (p.promoteFirstRowToHeader <==> promoAfter(fn, old(p.promoteFirstRowToHeader)))
  ensures err == nil ==> (p.convertPresentationTables <==> presAfter(fn, old(p.convertPresentationTables)))
spec func spanAll(opts seq[ref], i int) bytes decreases i fuel 8 { if i <= 0 then "" else spanAfter(opts[i-1], spanAll(opts, i-1)) }
spec func nlAll(opts seq[ref], i int) bytes decreases i fuel 8 { if i <= 0 then "" else nlAfter(opts[i-1], nlAll(opts, i-1)) }
spec func padAll(opts seq[ref], i int) bytes decreases i fuel 8 { if i <= 0 then "aligned" else padAfter(opts[i-1], padAll(opts, i-1)) }
spec func skipAll(opts seq[ref], i int) bool decreases i fuel 8 { if i <= 0 then false else skipAfter(opts[i-1], skipAll(opts, i-1)) }
spec func promoAll(opts seq[ref], i int) bool decreases i fuel 8 { if i <= 0 then false else promoAfter(opts[i-1], promoAll(opts, i-1)) }
spec func presAll(opts seq[ref], i int) bool decreases i fuel 8 { if i <= 0 then false else presAfter(opts[i-1], presAll(opts, i-1)) }
func NewTablePlugin(opts) (r)
  property C18
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  ensures a_plugin: r != nil && typeis(r, "*table.tablePlugin")
  ensures failure_kept: (exists k int {opts[k]} :: 0 <= k < len(opts) && refused(opts[k])) <==> asptr(r, "plugin/table.tablePlugin").err != nil
  ensures as_set: asptr(r, "plugin/table.tablePlugin").err == nil ==> (let p = asptr(r, "plugin/table.tablePlugin") in
    p.spanCellBehavior == spanAll(opts, len(opts)) && p.newlineBehavior == nlAll(opts, len(opts)) && p.cellPaddingBehavior == padAll(opts, len(opts))
    && (p.skipEmptyRows <==> skipAll(opts, len(opts))) && (p.promoteFirstRowToHeader <==> promoAll(opts, len(opts))) && (p.convertPresentationTables <==> presAll(opts, len(opts))))
  invariant forall k int {opts[k]} :: 0 <= k < $i ==> !refused(opts[k])
  invariant plugin.err == nil
  invariant plugin.spanCellBehavior == spanAll(opts, $i) && plugin.newlineBehavior == nlAll(opts, $i) && plugin.cellPaddingBehavior == padAll(opts, $i)
  invariant (plugin.skipEmptyRows <==> skipAll(opts, $i)) && (plugin.promoteFirstRowToHeader <==> promoAll(opts, $i)) && (plugin.convertPresentationTables <==> presAll(opts, $i))
func (s *tablePlugin) Init(conv) (err)
  property C18
  requires conv != nil && conv.Register.conv == conv && conv.markdownChars != nil
  modifies conv.renderHandlers, mapof(conv.markdownChars)
  ensures error_returned: err == s.err
  ensures nothing_registered: err != nil ==> len(conv.renderHandlers) == len(old(conv.renderHandlers))
  ensures escapes_pipe: err == nil ==> haskey(conv.markdownChars, '|')

package plugin/strikethrough
func (s *strikethroughPlugin) Init(conv) (err)
  requires conv != nil && conv.Register.conv == conv && conv.markdownChars != nil
  modifies conv.renderHandlers, conv.preRenderHandlers, conv.unEscapeHandlers, mapof(conv.markdownChars)
  ensures no_error: {C18} err == nil
  ensures escapes_tilde: {C03} haskey(conv.markdownChars, '~')

package plugin/base
func (b *base) Init(conv) (err)
  requires conv != nil && conv.Register.conv == conv && conv.tagTypes != nil
  modifies conv.preRenderHandlers, conv.postRenderHandlers, conv.textTransformHandlers, mapof(conv.tagTypes)
  ensures no_error: {C18} err == nil
  ensures removed: {C24} (haskey(conv.tagTypes, "#comment") && haskey(conv.tagTypes, "head") && haskey(conv.tagTypes, "script") && haskey(conv.tagTypes, "style") && haskey(conv.tagTypes, "link") && haskey(conv.tagTypes, "meta") && haskey(conv.tagTypes, "iframe") && haskey(conv.tagTypes, "noscript") && haskey(conv.tagTypes, "input") && haskey(conv.tagTypes, "textarea"))

// ------------------------------------------------------------- converting
package converter
extern strings.NewReader(s) (r)
  ensures r != nil
extern html.Parse(r) (doc, err)
  ensures err == nil ==> doc != nil
func (conv *Converter) ConvertReader(r, opts) (out, err)
  property C10, C18
  before ConvertNode options_passed_on: {C10} arg_conv == conv && domainAll(arg_opts, len(arg_opts)) == domainAll(opts, len(opts))
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  requires forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil
  requires forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> conv.renderHandlers[i].Value != nil
  requires forall i int {conv.preRenderHandlers[i]} :: 0 <= i < len(conv.preRenderHandlers) ==> conv.preRenderHandlers[i].Value != nil
  requires forall i int {conv.postRenderHandlers[i]} :: 0 <= i < len(conv.postRenderHandlers) ==> conv.postRenderHandlers[i].Value != nil
  modifies rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr
  ensures setup_error: conv.err != nil ==> err != nil && isnil(out)
  ensures needs_renderers: len(conv.renderHandlers) == 0 ==> err != nil && isnil(out)
  ensures error_runs_nothing: err != nil ==> isnil(out) && preRun == old(preRun) && postRun == old(postRun) && calls == old(calls)
func (conv *Converter) ConvertString(htmlInput, opts) (out, err)
  property C10, C18
  before ConvertReader options_passed_on: {C10} arg_conv == conv && domainAll(arg_opts, len(arg_opts)) == domainAll(opts, len(opts))
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  requires forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil
  requires forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> conv.renderHandlers[i].Value != nil
  requires forall i int {conv.preRenderHandlers[i]} :: 0 <= i < len(conv.preRenderHandlers) ==> conv.preRenderHandlers[i].Value != nil
  requires forall i int {conv.postRenderHandlers[i]} :: 0 <= i < len(conv.postRenderHandlers) ==> conv.postRenderHandlers[i].Value != nil
  modifies rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr
  ensures setup_error: conv.err != nil ==> err != nil && out == ""
  ensures needs_renderers: len(conv.renderHandlers) == 0 ==> err != nil && out == ""
  ensures error_without_output: err != nil ==> out == "" && calls == old(calls)
