package props

// The keyword constants of css and htmx against the keywords themselves (tables taken from the documentation of the constants
// and checked against the CSS and htmx references), as they come out of the attributes they are for.

import (
	"aitchverif/sym"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

func init() {
	sym.Register("C18_keywords", C18_keywords)
	sym.Register("C19_keywords", C19_keywords)
}

type keyword struct{ is, text string }

var cssKeywords = []keyword{
	{css.Important, " !important"},
	{css.DisplayBlock, "block"},
	{css.DisplayInline, "inline"},
	{css.DisplayInlineBlock, "inline-block"},
	{css.DisplayFlex, "flex"},
	{css.DisplayGrid, "grid"},
	{css.DisplayNone, "none"},
	{css.PositionStatic, "static"},
	{css.PositionRelative, "relative"},
	{css.PositionAbsolute, "absolute"},
	{css.PositionFixed, "fixed"},
	{css.PositionSticky, "sticky"},
	{css.TextLeft, "left"},
	{css.TextCenter, "center"},
	{css.TextRight, "right"},
	{css.TextJustify, "justify"},
	{css.BorderNone, "none"},
	{css.BorderSolid, "solid"},
	{css.BorderDashed, "dashed"},
	{css.BorderDotted, "dotted"},
	{css.BorderDouble, "double"},
	{css.BorderGroove, "groove"},
	{css.BorderRidge, "ridge"},
	{css.BorderInset, "inset"},
	{css.BorderOutset, "outset"},
	{css.FontWeightNormal, "normal"},
	{css.FontWeightBold, "bold"},
	{css.FontWeightLight, "lighter"},
	{css.FontWeightBolder, "bolder"},
	{css.JustifyStart, "flex-start"},
	{css.JustifyCenter, "center"},
	{css.JustifyEnd, "flex-end"},
	{css.JustifyBetween, "space-between"},
	{css.JustifyAround, "space-around"},
	{css.AlignStart, "start"},
	{css.AlignCenter, "center"},
	{css.AlignEnd, "end"},
	{css.AlignStretch, "stretch"},
	{css.AlignBaseline, "baseline"},
	{css.OverflowVisible, "visible"},
	{css.OverflowHidden, "hidden"},
	{css.OverflowScroll, "scroll"},
	{css.OverflowAuto, "auto"},
	{css.VisibilityVisible, "visible"},
	{css.VisibilityHidden, "hidden"},
	{css.VisibilityCollapse, "collapse"},
	{css.TextTransformNone, "none"},
	{css.TextTransformCapitalize, "capitalize"},
	{css.TextTransformUppercase, "uppercase"},
	{css.TextTransformLowercase, "lowercase"},
	{css.WhiteSpaceNormal, "normal"},
	{css.WhiteSpaceNowrap, "nowrap"},
	{css.WhiteSpacePre, "pre"},
	{css.WhiteSpacePreWrap, "pre-wrap"},
	{css.WhiteSpacePreLine, "pre-line"},
}

var htmxKeywords = []keyword{
	{htmx.SwapOuterHTML, "outerHTML"},
	{htmx.SwapInnerHTML, "innerHTML"},
	{htmx.SwapTextContent, "textContent"},
	{htmx.SwapNone, "none"},
	{htmx.SwapDelete, "delete"},
	{htmx.SwapBeforeBegin, "beforebegin"},
	{htmx.SwapAfterBegin, "afterbegin"},
	{htmx.SwapBeforeEnd, "beforeend"},
	{htmx.SwapAfterEnd, "afterend"},
	{htmx.TriggerClick, "click"},
	{htmx.TriggerChange, "change"},
	{htmx.TriggerSubmit, "submit"},
	{htmx.TriggerLoad, "load"},
	{htmx.TriggerEvery, "every"},
	{htmx.TriggerRevealed, "revealed"},
	{htmx.TriggerIntersect, "intersect"},
	{htmx.EventBeforeRequest, "before-request"},
	{htmx.EventSend, "send"},
	{htmx.EventAfterRequest, "after-request"},
	{htmx.EventBeforeSwap, "before-swap"},
	{htmx.EventAfterSwap, "after-swap"},
	{htmx.EventResponseError, "response-error"},
	{htmx.EventSendError, "send-error"},
	{htmx.SyncAbort, "abort"},
	{htmx.SyncDrop, "drop"},
	{htmx.SyncReplace, "replace"},
	{htmx.SyncQueue, "queue"},
	{htmx.SyncQueueFirst, "queue first"},
	{htmx.SyncQueueLast, "queue last"},
	{htmx.SyncQueueAll, "queue all"},
	{htmx.AttrGet, "hx-get"},
	{htmx.AttrPost, "hx-post"},
	{htmx.AttrPut, "hx-put"},
	{htmx.AttrDelete, "hx-delete"},
	{htmx.AttrPatch, "hx-patch"},
	{htmx.AttrTarget, "hx-target"},
	{htmx.AttrSwap, "hx-swap"},
	{htmx.AttrSwapOob, "hx-swap-oob"},
	{htmx.AttrTrigger, "hx-trigger"},
	{htmx.AttrInclude, "hx-include"},
	{htmx.AttrSelect, "hx-select"},
	{htmx.AttrParams, "hx-params"},
	{htmx.AttrPushURL, "hx-push-url"},
	{htmx.AttrReplaceURL, "hx-replace-url"},
	{htmx.AttrConfirm, "hx-confirm"},
	{htmx.AttrDisable, "hx-disable"},
	{htmx.AttrDisabledElt, "hx-disabled-elt"},
	{htmx.AttrBoost, "hx-boost"},
	{htmx.AttrExt, "hx-ext"},
	{htmx.AttrEncoding, "hx-encoding"},
	{htmx.AttrHistoryElt, "hx-history-elt"},
	{htmx.AttrIndicator, "hx-indicator"},
	{htmx.AttrRequest, "hx-request"},
	{htmx.AttrOn, "hx-on"},
	{htmx.AttrVals, "hx-vals"},
	{htmx.AttrVars, "hx-vars"},
	{htmx.AttrHeaders, "hx-headers"},
	{htmx.AttrInherit, "hx-inherit"},
	{htmx.AttrDisinherit, "hx-disinherit"},
	{htmx.AttrPreserve, "hx-preserve"},
	{htmx.AttrPrompt, "hx-prompt"},
	{htmx.AttrSync, "hx-sync"},
	{htmx.AttrValidate, "hx-validate"},
}

// C18_keywords: the keywords alone, after each other and among arbitrary text, in htmx attributes.
func C18_keywords() {
	w := htmxKeywords[sym.Choice(len(htmxKeywords))]
	x := rawVal(1)
	sym.Assert(w.is == w.text, "the keyword")
	expect(html.Div(htmx.Swap(w.is), htmx.Target(w.is, x.given, " ", w.is)), nil, nil,
		`<div hx-swap="`+w.text+`" hx-target="`+w.text+x.text+" "+w.text+`"></div>`, "the keyword in htmx attributes")
	expect(html.Div(aitch.Attribute("a", w.is)), nil, nil, `<div a="`+w.text+`"></div>`, "the keyword in any attribute")
}

// C19_keywords: the same in css properties.
func C19_keywords() {
	w := cssKeywords[sym.Choice(len(cssKeywords))]
	x := rawVal(1)
	sym.Assert(w.is == w.text, "the keyword")
	expect(html.Div(css.Display(w.is, css.Important), css.BorderStyle(w.is, " ", x.given, w.is)), nil, nil,
		`<div style="display:`+w.text+` !important; border-style:`+w.text+" "+x.text+w.text+`"></div>`, "the keyword as a value")
}
