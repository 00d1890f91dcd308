// Handlers run in order of priority.
package converter

func (s prioritizedSlice) Sort()
  modifies s
  ensures by_priority: forall i int, j int {s[i], s[j]} :: 0 <= i < j && j < len(s) ==> s[i].Priority <= s[j].Priority
  ensures none_new: forall i int {s[i]} :: 0 <= i < len(s) ==> (exists j int :: 0 <= j < len(s) && s[i] == old(s)[j])
  ensures none_lost: forall i int {old(s)[i]} :: 0 <= i < len(s) ==> (exists j int :: 0 <= j < len(s) && old(s)[i] == s[j])
  ensures same_number: len(s) == len(old(s))
  property C17

func (conv *Converter) getPreRenderHandlers() (r)
  property C17
  ensures by_priority: forall i int, j int {r[i], r[j]} :: 0 <= i < j && j < len(r) ==> r[i].Priority <= r[j].Priority
  ensures none_new: forall i int {r[i]} :: 0 <= i < len(r) ==> (exists j int :: 0 <= j < len(conv.preRenderHandlers) && r[i] == conv.preRenderHandlers[j])
  ensures none_lost: forall i int {conv.preRenderHandlers[i]} :: 0 <= i < len(conv.preRenderHandlers) ==> (exists j int :: 0 <= j < len(r) && conv.preRenderHandlers[i] == r[j])
  ensures none_nil: (forall i int {conv.preRenderHandlers[i]} :: 0 <= i < len(conv.preRenderHandlers) ==> conv.preRenderHandlers[i].Value != nil) ==> (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i].Value != nil)
  ensures same_number: len(r) == len(conv.preRenderHandlers)
  assumes deterministic: r == ordPre(conv.preRenderHandlers)

func (conv *Converter) getRenderHandlers() (r)
  property C17
  ensures by_priority: forall i int, j int {r[i], r[j]} :: 0 <= i < j && j < len(r) ==> r[i].Priority <= r[j].Priority
  ensures none_new: forall i int {r[i]} :: 0 <= i < len(r) ==> (exists j int :: 0 <= j < len(conv.renderHandlers) && r[i] == conv.renderHandlers[j])
  ensures none_lost: forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> (exists j int :: 0 <= j < len(r) && conv.renderHandlers[i] == r[j])
  ensures none_nil: (forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> conv.renderHandlers[i].Value != nil) ==> (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i].Value != nil)
  ensures same_number: len(r) == len(conv.renderHandlers)
  assumes deterministic: r == ordRender(conv.renderHandlers)

func (conv *Converter) getPostRenderHandlers() (r)
  property C17
  ensures by_priority: forall i int, j int {r[i], r[j]} :: 0 <= i < j && j < len(r) ==> r[i].Priority <= r[j].Priority
  ensures none_new: forall i int {r[i]} :: 0 <= i < len(r) ==> (exists j int :: 0 <= j < len(conv.postRenderHandlers) && r[i] == conv.postRenderHandlers[j])
  ensures none_lost: forall i int {conv.postRenderHandlers[i]} :: 0 <= i < len(conv.postRenderHandlers) ==> (exists j int :: 0 <= j < len(r) && conv.postRenderHandlers[i] == r[j])
  ensures none_nil: (forall i int {conv.postRenderHandlers[i]} :: 0 <= i < len(conv.postRenderHandlers) ==> conv.postRenderHandlers[i].Value != nil) ==> (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i].Value != nil)
  ensures same_number: len(r) == len(conv.postRenderHandlers)
  assumes deterministic: r == ordPost(conv.postRenderHandlers)

func (conv *Converter) getTextTransformHandlers() (r)
  property C17
  ensures by_priority: forall i int, j int {r[i], r[j]} :: 0 <= i < j && j < len(r) ==> r[i].Priority <= r[j].Priority
  ensures none_new: forall i int {r[i]} :: 0 <= i < len(r) ==> (exists j int :: 0 <= j < len(conv.textTransformHandlers) && r[i] == conv.textTransformHandlers[j])
  ensures none_lost: forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> (exists j int :: 0 <= j < len(r) && conv.textTransformHandlers[i] == r[j])
  ensures none_nil: (forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil) ==> (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i].Value != nil)
  ensures same_number: len(r) == len(conv.textTransformHandlers)
  assumes deterministic: r == ordText(conv.textTransformHandlers)

func (conv *Converter) getUnEscapeHandlers() (r)
  property C17
  ensures by_priority: forall i int, j int {r[i], r[j]} :: 0 <= i < j && j < len(r) ==> r[i].Priority <= r[j].Priority
  ensures none_new: forall i int {r[i]} :: 0 <= i < len(r) ==> (exists j int :: 0 <= j < len(conv.unEscapeHandlers) && r[i] == conv.unEscapeHandlers[j])
  ensures none_lost: forall i int {conv.unEscapeHandlers[i]} :: 0 <= i < len(conv.unEscapeHandlers) ==> (exists j int :: 0 <= j < len(r) && conv.unEscapeHandlers[i] == r[j])
  ensures none_nil: (forall i int {conv.unEscapeHandlers[i]} :: 0 <= i < len(conv.unEscapeHandlers) ==> conv.unEscapeHandlers[i].Value != nil) ==> (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i].Value != nil)
  ensures same_number: len(r) == len(conv.unEscapeHandlers)
  assumes deterministic: r == ordUn(conv.unEscapeHandlers)


func (r *register) PreRenderer(fn, priority)
  property C17
  requires r.conv != nil
  modifies r.conv.preRenderHandlers
  ensures appended: len(r.conv.preRenderHandlers) == len(old(r.conv.preRenderHandlers)) + 1
  ensures is_last: r.conv.preRenderHandlers[len(r.conv.preRenderHandlers)-1].Value == fn && r.conv.preRenderHandlers[len(r.conv.preRenderHandlers)-1].Priority == priority
  ensures others_kept: forall i int {r.conv.preRenderHandlers[i]} :: 0 <= i < len(old(r.conv.preRenderHandlers)) ==> r.conv.preRenderHandlers[i] == old(r.conv.preRenderHandlers)[i]

func (r *register) Renderer(fn, priority)
  property C17
  requires r.conv != nil
  modifies r.conv.renderHandlers
  ensures appended: len(r.conv.renderHandlers) == len(old(r.conv.renderHandlers)) + 1
  ensures is_last: r.conv.renderHandlers[len(r.conv.renderHandlers)-1].Value == fn && r.conv.renderHandlers[len(r.conv.renderHandlers)-1].Priority == priority
  ensures others_kept: forall i int {r.conv.renderHandlers[i]} :: 0 <= i < len(old(r.conv.renderHandlers)) ==> r.conv.renderHandlers[i] == old(r.conv.renderHandlers)[i]

func (r *register) PostRenderer(fn, priority)
  property C17
  requires r.conv != nil
  modifies r.conv.postRenderHandlers
  ensures appended: len(r.conv.postRenderHandlers) == len(old(r.conv.postRenderHandlers)) + 1
  ensures is_last: r.conv.postRenderHandlers[len(r.conv.postRenderHandlers)-1].Value == fn && r.conv.postRenderHandlers[len(r.conv.postRenderHandlers)-1].Priority == priority
  ensures others_kept: forall i int {r.conv.postRenderHandlers[i]} :: 0 <= i < len(old(r.conv.postRenderHandlers)) ==> r.conv.postRenderHandlers[i] == old(r.conv.postRenderHandlers)[i]

func (r *register) TextTransformer(fn, priority)
  property C17
  requires r.conv != nil
  modifies r.conv.textTransformHandlers
  ensures appended: len(r.conv.textTransformHandlers) == len(old(r.conv.textTransformHandlers)) + 1
  ensures is_last: r.conv.textTransformHandlers[len(r.conv.textTransformHandlers)-1].Value == fn && r.conv.textTransformHandlers[len(r.conv.textTransformHandlers)-1].Priority == priority
  ensures others_kept: forall i int {r.conv.textTransformHandlers[i]} :: 0 <= i < len(old(r.conv.textTransformHandlers)) ==> r.conv.textTransformHandlers[i] == old(r.conv.textTransformHandlers)[i]

func (r *register) UnEscaper(fn, priority)
  property C17
  requires r.conv != nil
  modifies r.conv.unEscapeHandlers
  ensures appended: len(r.conv.unEscapeHandlers) == len(old(r.conv.unEscapeHandlers)) + 1
  ensures is_last: r.conv.unEscapeHandlers[len(r.conv.unEscapeHandlers)-1].Value == fn && r.conv.unEscapeHandlers[len(r.conv.unEscapeHandlers)-1].Priority == priority
  ensures others_kept: forall i int {r.conv.unEscapeHandlers[i]} :: 0 <= i < len(old(r.conv.unEscapeHandlers)) ==> r.conv.unEscapeHandlers[i] == old(r.conv.unEscapeHandlers)[i]

// ------------------------------------------------------------ dispatch
// Verification-only state: the handlers called by the dispatch loop under
// contract, in order, and what the render handlers returned.
ghost calls seq[int]
ghost statuses seq[int]

spec func renderFns(hs converter.Converter.renderHandlers, k int) seq[int] decreases k {
  if k <= 0 then emptyseq(1) else renderFns(hs, k-1) + one(hs[k-1].Value)
}
spec func tryNexts(k int) seq[int] { repseq(0, k) }
spec func textFns(hs converter.Converter.textTransformHandlers, k int) seq[int] decreases k {
  if k <= 0 then emptyseq(1) else textFns(hs, k-1) + one(hs[k-1].Value)
}
// what a text transformer makes of a text, after the calls made before it
spec func transformed(fn int, content bytes, before seq[int]) bytes
spec func transformedBy(hs converter.Converter.textTransformHandlers, content bytes, k int, before seq[int]) bytes decreases k {
  if k <= 0 then content
  else transformed(hs[k-1].Value, transformedBy(hs, content, k-1, before), before + textFns(hs, k-1))
}
// sorting is deterministic: the order is a function of the registered list
spec func ordRender(hs converter.Converter.renderHandlers) converter.Converter.renderHandlers
spec func ordText(hs converter.Converter.textTransformHandlers) converter.Converter.textTransformHandlers

functype converter.HandleRenderFunc(ctx, w, n) (r)
  modifies w, calls, statuses
  ensures calls == old(calls) + one(fn)
  ensures statuses == old(statuses) + one(r)
  ensures w == old(w) + wrote(fn, old(calls))
// what a render handler writes, after the calls made before it
spec func wrote(fn int, before seq[int]) bytes
spec func wroteAll(hs converter.Converter.renderHandlers, k int, before seq[int]) bytes decreases k {
  if k <= 0 then "" else wroteAll(hs, k-1, before) + wrote(hs[k-1].Value, before + renderFns(hs, k-1))
}

functype converter.HandleTextTransformFunc(ctx, content) (r)
  modifies calls
  ensures calls == old(calls) + one(fn)
  ensures r == transformed(fn, content, old(calls))

// what the calls made so far wrote for their nodes
ghost rendered seq[bytes]
iface converter.Context.RenderChildNodes(ctx, w, n)
  modifies w, rendered
  ensures len(rendered) == len(old(rendered)) + 1 && rendered[:len(old(rendered))] == old(rendered)
  ensures forall k int {rendered[k]} :: 0 <= k < len(old(rendered)) ==> rendered[k] == old(rendered)[k]
  ensures w == old(w) + rendered[len(old(rendered))]
iface converter.Context.RenderNodes(ctx, w, nodes)
  modifies w, rendered
  ensures len(rendered) == len(old(rendered)) + 1 && rendered[:len(old(rendered))] == old(rendered)
  ensures forall k int {rendered[k]} :: 0 <= k < len(old(rendered)) ==> rendered[k] == old(rendered)[k]
  ensures w == old(w) + rendered[len(old(rendered))]
iface converter.Context.GetTagType(tagName) (t, ok)
  ensures t == tagTypeOf(self, tagName)
  ensures ok == tagTypeKnown(self, tagName)
spec func tagTypeKnown(ctx ref, tagName bytes) bool
spec func tagTypeOf(ctx ref, tagName bytes) bytes

func (conv *Converter) handleRenderText(ctx, w, node) (r)
  property C17
  requires node != nil
  requires forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil
  modifies w, calls
  ensures in_order: calls == old(calls) + textFns(ordText(conv.textTransformHandlers), len(conv.textTransformHandlers))
  ensures all_applied: w == old(w) + transformedBy(ordText(conv.textTransformHandlers), old(node.Data), len(conv.textTransformHandlers), old(calls))
  ensures success: r == 1
  invariant calls == old(calls) + textFns(ordText(conv.textTransformHandlers), $i)
  invariant content == transformedBy(ordText(conv.textTransformHandlers), old(node.Data), $i, old(calls))

func (conv *Converter) handleRenderFallback(ctx, w, node) (r)
  property C27
  requires ctx != nil
  modifies w, rendered
  ensures block: tagTypeOf(ctx, old(nodeName(node))) == "block" ==> w == old(w) + "\n\n" + rendered[len(old(rendered))] + "\n\n"
  ensures transparent: tagTypeOf(ctx, old(nodeName(node))) != "block" ==> w == old(w) + rendered[len(old(rendered))]
  ensures success: r == 1

func (conv *Converter) handleRenderNode(ctx, w, node) (r)
  property C17, C27
  requires ctx != nil
  requires forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil
  requires forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> conv.renderHandlers[i].Value != nil
  modifies w, rendered, calls, statuses
  ensures in_order: old(nodeName(node)) != "#text" ==> calls == old(calls) + renderFns(ordRender(conv.renderHandlers), len(statuses) - len(old(statuses)))
  ensures none_after_success: old(nodeName(node)) != "#text" ==> (forall i int {statuses[i]} :: len(old(statuses)) <= i < len(statuses) - 1 ==> statuses[i] != 1)
  ensures until_success: old(nodeName(node)) != "#text" ==> len(statuses) - len(old(statuses)) == len(conv.renderHandlers) || (len(statuses) > len(old(statuses)) && statuses[len(statuses)-1] == 1)
  ensures text_bypasses: old(nodeName(node)) == "#text" ==> statuses == old(statuses)
  ensures output_kept: len(w) >= len(old(w)) && w[:len(old(w))] == old(w)
  ensures handlers_output: old(nodeName(node)) != "#text" && len(statuses) > len(old(statuses)) && statuses[len(statuses)-1] == 1 ==> w == old(w) + wroteAll(ordRender(conv.renderHandlers), len(statuses) - len(old(statuses)), old(calls))
  ensures fallback_output: old(nodeName(node)) != "#text" && !(len(statuses) > len(old(statuses)) && statuses[len(statuses)-1] == 1) ==> w == old(w) + wroteAll(ordRender(conv.renderHandlers), len(conv.renderHandlers), old(calls)) + rendered[len(old(rendered))] || w == old(w) + wroteAll(ordRender(conv.renderHandlers), len(conv.renderHandlers), old(calls)) + "\n\n" + rendered[len(old(rendered))] + "\n\n"
  ensures text_output: old(nodeName(node)) == "#text" ==> w == old(w) + transformedBy(ordText(conv.textTransformHandlers), old(node.Data), len(conv.textTransformHandlers), old(calls))
  ensures text_calls: old(nodeName(node)) == "#text" ==> calls == old(calls) + textFns(ordText(conv.textTransformHandlers), len(conv.textTransformHandlers))
  ensures success: r == 1
  invariant len(statuses) == len(old(statuses)) + $i
  invariant calls == old(calls) + renderFns(ordRender(conv.renderHandlers), $i)
  invariant forall k int {statuses[k]} :: len(old(statuses)) <= k < len(statuses) ==> statuses[k] != 1
  invariant w == old(w) + wroteAll(ordRender(conv.renderHandlers), $i, old(calls))

// ------------------------------------------------------------ one conversion
spec func startsWith(a bytes, p bytes) bool { len(a) >= len(p) && a[:len(p)] == p }
ghost preRun seq[int]
ghost postRun seq[int]
spec func preFns(hs converter.Converter.preRenderHandlers, k int) seq[int] decreases k {
  if k <= 0 then emptyseq(1) else preFns(hs, k-1) + one(hs[k-1].Value)
}
spec func postFns(hs converter.Converter.postRenderHandlers, k int) seq[int] decreases k {
  if k <= 0 then emptyseq(1) else postFns(hs, k-1) + one(hs[k-1].Value)
}
spec func ordPre(hs converter.Converter.preRenderHandlers) converter.Converter.preRenderHandlers
spec func ordPost(hs converter.Converter.postRenderHandlers) converter.Converter.postRenderHandlers

functype converter.HandlePreRenderFunc(ctx, doc)
  modifies preRun, preSaw, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr
  ensures preRun == old(preRun) + one(fn)
  ensures preSaw == old(preSaw) + one(len(calls))
// how many calls had been made when a handler ran, and what it was given
ghost preSaw seq[int]
ghost postSaw seq[int]
ghost postIn seq[bytes]
// what a post-render handler makes of a content, after those run before it
spec func postProcessed(fn int, content bytes, before seq[int]) bytes
spec func postProcessedBy(hs converter.Converter.postRenderHandlers, content bytes, k int, before seq[int]) bytes decreases k {
  if k <= 0 then content
  else postProcessed(hs[k-1].Value, postProcessedBy(hs, content, k-1, before), before + postFns(hs, k-1))
}
functype converter.HandlePostRenderFunc(ctx, content) (r)
  modifies postRun, postSaw, postIn
  ensures postRun == old(postRun) + one(fn)
  ensures postSaw == old(postSaw) + one(len(calls))
  ensures len(postIn) == len(old(postIn)) + 1 && postIn[:len(old(postIn))] == old(postIn) && postIn[len(old(postIn))] == content
  ensures r == postProcessed(fn, content, old(postRun))
// what an option of a conversion makes of its domain
spec func domainAfter(fn ref, v bytes) bytes
spec func domainAll(opts seq[ref], i int) bytes decreases i fuel 3 { if i <= 0 then "" else domainAfter(opts[i-1], domainAll(opts, i-1)) }
functype converter.ConvertOptionFunc(o)
  modifies o.domain, o.context
  ensures o.domain == domainAfter(fn, old(o.domain))
func WithDomain$1(o)
  property C10, C26
  requires o != nil
  opt as="converter.ConvertOptionFunc"
  stands forall v bytes {domainAfter(fn, v)} :: domainAfter(fn, v) == domain
  modifies o.domain
  ensures set: o.domain == domain
func WithContext$1(o)
  property C10
  requires o != nil
  opt as="converter.ConvertOptionFunc"
  stands forall v bytes {domainAfter(fn, v)} :: domainAfter(fn, v) == v
  modifies o.context
  ensures set: o.context == ctx
extern context.Background() (r)
  ensures r != nil
extern context.WithValue(parent, key, val) (r)
  ensures r != nil
  ensures forall k ref {ctxValue(r, k)} :: ctxValue(r, k) == (if k == key then val else ctxValue(parent, k))
extern slices.Contains(s, v) (r)
  ensures r <==> (exists i int :: 0 <= i < len(s) && s[i] == v)

func (conv *Converter) ConvertNode(doc, opts) (r, err)
  property C17, C18
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  requires forall i int {conv.textTransformHandlers[i]} :: 0 <= i < len(conv.textTransformHandlers) ==> conv.textTransformHandlers[i].Value != nil
  requires forall i int {conv.renderHandlers[i]} :: 0 <= i < len(conv.renderHandlers) ==> conv.renderHandlers[i].Value != nil
  requires forall i int {conv.preRenderHandlers[i]} :: 0 <= i < len(conv.preRenderHandlers) ==> conv.preRenderHandlers[i].Value != nil
  requires forall i int {conv.postRenderHandlers[i]} :: 0 <= i < len(conv.postRenderHandlers) ==> conv.postRenderHandlers[i].Value != nil
  modifies rendered, calls, statuses, preRun, postRun, preSaw, postSaw, postIn, html.Node.Data, html.Node.FirstChild, html.Node.LastChild, html.Node.NextSibling, html.Node.PrevSibling, html.Node.Parent, html.Node.Attr
  before handleRenderNode domain_passed_on: {C10} ctxValue(asptr(arg_ctx, "converter.converterContext").Context, boxstr("Domain", "converter.ctxKey")) == boxstr(domainAll(opts, len(opts)))
  before handleRenderNode of_this_converter: asptr(arg_ctx, "converter.converterContext").conv == conv && arg_conv == conv && arg_node == doc
  before HandlePreRenderFunc same_domain: {C10} ctxValue(asptr(arg_ctx, "converter.converterContext").Context, boxstr("Domain", "converter.ctxKey")) == boxstr(domainAll(opts, len(opts)))
  before HandlePreRenderFunc same_document: arg_doc == doc
  invariant L1: option.domain == domainAll(opts, $i)
  ensures registration_error: {C17, C18} conv.err != nil ==> err == conv.err && preRun == old(preRun) && postRun == old(postRun)
  ensures needs_renderers: {C18} conv.err == nil && len(conv.renderHandlers) == 0 ==> err != nil && isnil(r)
  ensures error_no_output: {C18} err != nil ==> isnil(r)
  ensures no_other_error: {C18} conv.err == nil && len(conv.renderHandlers) > 0 && !(exists i int :: 0 <= i < len(conv.registeredPlugins) && conv.registeredPlugins[i] == "commonmark") ==> err == nil
  ensures base_missing: {C18} conv.err == nil && (exists i int :: 0 <= i < len(conv.registeredPlugins) && conv.registeredPlugins[i] == "commonmark") && !(exists i int :: 0 <= i < len(conv.registeredPlugins) && conv.registeredPlugins[i] == "base") ==> err != nil
  ensures with_base: {C18} conv.err == nil && len(conv.renderHandlers) > 0 && (exists i int :: 0 <= i < len(conv.registeredPlugins) && conv.registeredPlugins[i] == "base") ==> err == nil
  ensures pre_in_order: err == nil ==> preRun == old(preRun) + preFns(ordPre(conv.preRenderHandlers), len(conv.preRenderHandlers))
  ensures post_in_order: err == nil ==> postRun == old(postRun) + postFns(ordPost(conv.postRenderHandlers), len(conv.postRenderHandlers))
  ensures error_runs_nothing: err != nil ==> preRun == old(preRun) && postRun == old(postRun) && calls == old(calls)
  ensures pre_before_rendering: err == nil ==> len(preSaw) == len(old(preSaw)) + len(conv.preRenderHandlers) && (forall k int {preSaw[k]} :: len(old(preSaw)) <= k < len(preSaw) ==> preSaw[k] == len(old(calls)))
  ensures post_after_rendering: err == nil ==> len(postSaw) == len(old(postSaw)) + len(conv.postRenderHandlers) && (forall k int {postSaw[k]} :: len(old(postSaw)) <= k < len(postSaw) ==> postSaw[k] == len(calls))
  ensures renders: err == nil ==> calls == old(calls) + textFns(ordText(conv.textTransformHandlers), len(conv.textTransformHandlers)) || calls == old(calls) + renderFns(ordRender(conv.renderHandlers), len(statuses) - len(old(statuses)))
  ensures each_post_on_the_last_result: err == nil && len(conv.postRenderHandlers) > 0 ==> r == postProcessedBy(ordPost(conv.postRenderHandlers), postIn[len(old(postIn))], len(conv.postRenderHandlers), old(postRun))
  ensures post_gets_what_was_rendered: err == nil && len(conv.postRenderHandlers) > 0 && len(statuses) > len(old(statuses)) ==> startsWith(postIn[len(old(postIn))], wroteAll(ordRender(conv.renderHandlers), len(statuses) - len(old(statuses)), old(calls)))
  invariant L2: preRun == old(preRun) + preFns(ordPre(conv.preRenderHandlers), $i)
  invariant L2: len(preSaw) == len(old(preSaw)) + $i && (forall k int {preSaw[k]} :: len(old(preSaw)) <= k < len(preSaw) ==> preSaw[k] == len(old(calls)))
  invariant L3: postRun == old(postRun) + postFns(ordPost(conv.postRenderHandlers), $i)
  invariant L3: len(postSaw) == len(old(postSaw)) + $i && (forall k int {postSaw[k]} :: len(old(postSaw)) <= k < len(postSaw) ==> postSaw[k] == len(calls))
  invariant L3: len(postIn) == len(old(postIn)) + $i && ($i > 0 ==> result == postProcessedBy(ordPost(conv.postRenderHandlers), postIn[len(old(postIn))], $i, old(postRun)))
  invariant L3: $i > 0 && len(statuses) > len(old(statuses)) ==> startsWith(postIn[len(old(postIn))], wroteAll(ordRender(conv.renderHandlers), len(statuses) - len(old(statuses)), old(calls)))
  invariant L3: $i == 0 && len(statuses) > len(old(statuses)) ==> startsWith(result, wroteAll(ordRender(conv.renderHandlers), len(statuses) - len(old(statuses)), old(calls)))
