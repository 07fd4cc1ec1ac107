// Code drafted by tools/gentables.py and reviewed by hand; the names are the specification.

package props

import (
	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

type elemCtor struct {
	name string
	void bool
	fn   func(...any) aitch.Node
	go_  string // as written in Go
}

type attrCtor struct {
	name  string
	delim string
	fn    func(...any) aitch.Node
	go_   string
}

type boolCtor struct {
	name string
	fn   func() aitch.Node
	go_  string
}

var htmlElements = []elemCtor{
	{"a", false, html.A, "html.A"},
	{"abbr", false, html.Abbr, "html.Abbr"},
	{"address", false, html.Address, "html.Address"},
	{"area", true, html.Area, "html.Area"},
	{"article", false, html.Article, "html.Article"},
	{"aside", false, html.Aside, "html.Aside"},
	{"audio", false, html.Audio, "html.Audio"},
	{"b", false, html.B, "html.B"},
	{"base", true, html.Base, "html.Base"},
	{"blockquote", false, html.BlockQuote, "html.BlockQuote"},
	{"body", false, html.Body, "html.Body"},
	{"br", true, html.Br, "html.Br"},
	{"button", false, html.Button, "html.Button"},
	{"canvas", false, html.Canvas, "html.Canvas"},
	{"caption", false, html.Caption, "html.Caption"},
	{"cite", false, html.Cite, "html.Cite"},
	{"code", false, html.Code, "html.Code"},
	{"col", true, html.Col, "html.Col"},
	{"colgroup", false, html.ColGroup, "html.ColGroup"},
	{"data", false, html.DataElement, "html.DataElement"},
	{"datalist", false, html.DataList, "html.DataList"},
	{"dd", false, html.Dd, "html.Dd"},
	{"del", false, html.Del, "html.Del"},
	{"dfn", false, html.Dfn, "html.Dfn"},
	{"dt", false, html.Dt, "html.Dt"},
	{"details", false, html.Details, "html.Details"},
	{"dialog", false, html.Dialog, "html.Dialog"},
	{"div", false, html.Div, "html.Div"},
	{"dl", false, html.Dl, "html.Dl"},
	{"em", false, html.Em, "html.Em"},
	{"embed", true, html.Embed, "html.Embed"},
	{"form", false, html.Form, "html.Form"},
	{"fieldset", false, html.FieldSet, "html.FieldSet"},
	{"figcaption", false, html.FigCaption, "html.FigCaption"},
	{"figure", false, html.Figure, "html.Figure"},
	{"footer", false, html.Footer, "html.Footer"},
	{"h1", false, html.H1, "html.H1"},
	{"h2", false, html.H2, "html.H2"},
	{"h3", false, html.H3, "html.H3"},
	{"h4", false, html.H4, "html.H4"},
	{"h5", false, html.H5, "html.H5"},
	{"h6", false, html.H6, "html.H6"},
	{"head", false, html.Head, "html.Head"},
	{"header", false, html.Header, "html.Header"},
	{"hgroup", false, html.HGroup, "html.HGroup"},
	{"hr", true, html.Hr, "html.Hr"},
	{"html", false, html.Html, "html.Html"},
	{"i", false, html.I, "html.I"},
	{"iframe", false, html.IFrame, "html.IFrame"},
	{"img", true, html.Img, "html.Img"},
	{"input", true, html.Input, "html.Input"},
	{"ins", false, html.Ins, "html.Ins"},
	{"kbd", false, html.Kbd, "html.Kbd"},
	{"label", false, html.Label, "html.Label"},
	{"legend", false, html.Legend, "html.Legend"},
	{"li", false, html.Li, "html.Li"},
	{"link", true, html.Link, "html.Link"},
	{"main", false, html.Main, "html.Main"},
	{"mark", false, html.Mark, "html.Mark"},
	{"menu", false, html.Menu, "html.Menu"},
	{"meta", true, html.Meta, "html.Meta"},
	{"meter", false, html.Meter, "html.Meter"},
	{"nav", false, html.Nav, "html.Nav"},
	{"noscript", false, html.NoScript, "html.NoScript"},
	{"object", false, html.Object, "html.Object"},
	{"ol", false, html.Ol, "html.Ol"},
	{"optgroup", false, html.OptGroup, "html.OptGroup"},
	{"option", false, html.Option, "html.Option"},
	{"p", false, html.P, "html.P"},
	{"p", false, html.Para, "html.Para"},
	{"param", true, html.Param, "html.Param"},
	{"picture", false, html.Picture, "html.Picture"},
	{"pre", false, html.Pre, "html.Pre"},
	{"progress", false, html.Progress, "html.Progress"},
	{"q", false, html.Q, "html.Q"},
	{"s", false, html.S, "html.S"},
	{"samp", false, html.Samp, "html.Samp"},
	{"script", false, html.Script, "html.Script"},
	{"section", false, html.Section, "html.Section"},
	{"select", false, html.Select, "html.Select"},
	{"slot", false, html.Slot, "html.Slot"},
	{"small", false, html.Small, "html.Small"},
	{"source", true, html.Source, "html.Source"},
	{"span", false, html.Span, "html.Span"},
	{"strong", false, html.Strong, "html.Strong"},
	{"style", false, html.StyleElement, "html.StyleElement"},
	{"sub", false, html.Sub, "html.Sub"},
	{"sup", false, html.Sup, "html.Sup"},
	{"summary", false, html.Summary, "html.Summary"},
	{"table", false, html.Table, "html.Table"},
	{"tbody", false, html.TBody, "html.TBody"},
	{"td", false, html.Td, "html.Td"},
	{"template", false, html.Template, "html.Template"},
	{"textarea", false, html.Textarea, "html.Textarea"},
	{"tfoot", false, html.TFoot, "html.TFoot"},
	{"th", false, html.Th, "html.Th"},
	{"thead", false, html.THead, "html.THead"},
	{"time", false, html.Time, "html.Time"},
	{"title", false, html.TitleElement, "html.TitleElement"},
	{"tr", false, html.Tr, "html.Tr"},
	{"ul", false, html.Ul, "html.Ul"},
	{"u", false, html.U, "html.U"},
	{"var", false, html.Var, "html.Var"},
	{"video", false, html.Video, "html.Video"},
	{"wbr", true, html.Wbr, "html.Wbr"},
	{"bdi", false, html.Bdi, "html.Bdi"},
	{"bdo", false, html.Bdo, "html.Bdo"},
	{"map", false, html.Map, "html.Map"},
	{"output", false, html.Output, "html.Output"},
	{"rp", false, html.Rp, "html.Rp"},
	{"rt", false, html.Rt, "html.Rt"},
	{"ruby", false, html.Ruby, "html.Ruby"},
	{"search", false, html.Search, "html.Search"},
	{"track", true, html.Track, "html.Track"},
}

var svgElements = []elemCtor{
	{"svg", false, svg.Svg, "svg.Svg"},
	{"altGlyph", false, svg.AltGlyph, "svg.AltGlyph"},
	{"animate", false, svg.Animate, "svg.Animate"},
	{"animateMotion", false, svg.AnimateMotion, "svg.AnimateMotion"},
	{"animateTransform", false, svg.AnimateTransform, "svg.AnimateTransform"},
	{"circle", false, svg.Circle, "svg.Circle"},
	{"clipPath", false, svg.ClipPath, "svg.ClipPath"},
	{"defs", false, svg.Defs, "svg.Defs"},
	{"desc", false, svg.Desc, "svg.Desc"},
	{"discard", false, svg.Discard, "svg.Discard"},
	{"ellipse", false, svg.Ellipse, "svg.Ellipse"},
	{"feBlend", false, svg.FeBlend, "svg.FeBlend"},
	{"feColorMatrix", false, svg.FeColorMatrix, "svg.FeColorMatrix"},
	{"feComponentTransfer", false, svg.FeComponentTransfer, "svg.FeComponentTransfer"},
	{"feComposite", false, svg.FeComposite, "svg.FeComposite"},
	{"feConvolveMatrix", false, svg.FeConvolveMatrix, "svg.FeConvolveMatrix"},
	{"feDiffuseLighting", false, svg.FeDiffuseLighting, "svg.FeDiffuseLighting"},
	{"feDisplacementMap", false, svg.FeDisplacementMap, "svg.FeDisplacementMap"},
	{"feDistantLight", false, svg.FeDistantLight, "svg.FeDistantLight"},
	{"feDropShadow", false, svg.FeDropShadow, "svg.FeDropShadow"},
	{"feFlood", false, svg.FeFlood, "svg.FeFlood"},
	{"feFuncA", false, svg.FeFuncA, "svg.FeFuncA"},
	{"feFuncB", false, svg.FeFuncB, "svg.FeFuncB"},
	{"feFuncG", false, svg.FeFuncG, "svg.FeFuncG"},
	{"feFuncR", false, svg.FeFuncR, "svg.FeFuncR"},
	{"feGaussianBlur", false, svg.FeGaussianBlur, "svg.FeGaussianBlur"},
	{"feImage", false, svg.FeImage, "svg.FeImage"},
	{"feMerge", false, svg.FeMerge, "svg.FeMerge"},
	{"feMergeNode", false, svg.FeMergeNode, "svg.FeMergeNode"},
	{"feMorphology", false, svg.FeMorphology, "svg.FeMorphology"},
	{"feOffset", false, svg.FeOffset, "svg.FeOffset"},
	{"fePointLight", false, svg.FePointLight, "svg.FePointLight"},
	{"feSpecularLighting", false, svg.FeSpecularLighting, "svg.FeSpecularLighting"},
	{"feSpotLight", false, svg.FeSpotLight, "svg.FeSpotLight"},
	{"feTile", false, svg.FeTile, "svg.FeTile"},
	{"feTurbulence", false, svg.FeTurbulence, "svg.FeTurbulence"},
	{"filter", false, svg.Filter, "svg.Filter"},
	{"foreignObject", false, svg.ForeignObject, "svg.ForeignObject"},
	{"g", false, svg.G, "svg.G"},
	{"glyph", false, svg.Glyph, "svg.Glyph"},
	{"line", false, svg.Line, "svg.Line"},
	{"linearGradient", false, svg.LinearGradient, "svg.LinearGradient"},
	{"marker", false, svg.Marker, "svg.Marker"},
	{"mask", false, svg.Mask, "svg.Mask"},
	{"metadata", false, svg.Metadata, "svg.Metadata"},
	{"mpath", false, svg.Mpath, "svg.Mpath"},
	{"path", false, svg.Path, "svg.Path"},
	{"pattern", false, svg.Pattern, "svg.Pattern"},
	{"polygon", false, svg.Polygon, "svg.Polygon"},
	{"polyline", false, svg.Polyline, "svg.Polyline"},
	{"radialGradient", false, svg.RadialGradient, "svg.RadialGradient"},
	{"rect", false, svg.Rect, "svg.Rect"},
	{"script", false, svg.Script, "svg.Script"},
	{"set", false, svg.Set, "svg.Set"},
	{"solidcolor", false, svg.SolidColor, "svg.SolidColor"},
	{"stop", false, svg.Stop, "svg.Stop"},
	{"style", false, svg.StyleElement, "svg.StyleElement"},
	{"symbol", false, svg.Symbol, "svg.Symbol"},
	{"text", false, svg.TextElement, "svg.TextElement"},
	{"textPath", false, svg.TextPath, "svg.TextPath"},
	{"title", false, svg.Title, "svg.Title"},
	{"tref", false, svg.TRef, "svg.TRef"},
	{"tspan", false, svg.TSpan, "svg.TSpan"},
	{"use", false, svg.Use, "svg.Use"},
	{"switch", false, svg.Switch, "svg.Switch"},
	{"view", false, svg.View, "svg.View"},
}

var htmlAttributes = []attrCtor{
	{"crossorigin", "", html.CrossOrigin, "html.CrossOrigin"},
	{"datetime", "", html.DateTime, "html.DateTime"},
	{"download", "", html.Download, "html.Download"},
	{"draggable", "", html.Draggable, "html.Draggable"},
	{"accept", "", html.Accept, "html.Accept"},
	{"action", "", html.Action, "html.Action"},
	{"alt", "", html.Alt, "html.Alt"},
	{"as", "", html.As, "html.As"},
	{"autocomplete", "", html.AutoComplete, "html.AutoComplete"},
	{"charset", "", html.Charset, "html.Charset"},
	{"cite", "", html.CiteAttr, "html.CiteAttr"},
	{"class", " ", html.Class, "html.Class"},
	{"cols", "", html.Cols, "html.Cols"},
	{"colspan", "", html.ColSpan, "html.ColSpan"},
	{"content", "", html.Content, "html.Content"},
	{"contenteditable", "", html.ContentEditable, "html.ContentEditable"},
	{"dir", "", html.Dir, "html.Dir"},
	{"enctype", "", html.EncType, "html.EncType"},
	{"for", "", html.For, "html.For"},
	{"form", "", html.FormAttr, "html.FormAttr"},
	{"height", "", html.Height, "html.Height"},
	{"href", "", html.Href, "html.Href"},
	{"id", "", html.Id, "html.Id"},
	{"integrity", "", html.Integrity, "html.Integrity"},
	{"lang", "", html.Lang, "html.Lang"},
	{"list", "", html.List, "html.List"},
	{"loading", "", html.Loading, "html.Loading"},
	{"max", "", html.Max, "html.Max"},
	{"maxlength", "", html.MaxLength, "html.MaxLength"},
	{"method", "", html.Method, "html.Method"},
	{"min", "", html.Min, "html.Min"},
	{"minlength", "", html.MinLength, "html.MinLength"},
	{"name", "", html.Name, "html.Name"},
	{"pattern", "", html.Pattern, "html.Pattern"},
	{"placeholder", "", html.Placeholder, "html.Placeholder"},
	{"popover", "", html.PopOver, "html.PopOver"},
	{"popovertarget", "", html.PopOverTarget, "html.PopOverTarget"},
	{"popovertargetaction", "", html.PopOverTargetAction, "html.PopOverTargetAction"},
	{"poster", "", html.Poster, "html.Poster"},
	{"preload", "", html.Preload, "html.Preload"},
	{"referrerpolicy", "", html.ReferrerPolicy, "html.ReferrerPolicy"},
	{"rel", "", html.Rel, "html.Rel"},
	{"role", "", html.Role, "html.Role"},
	{"rows", "", html.Rows, "html.Rows"},
	{"rowspan", "", html.RowSpan, "html.RowSpan"},
	{"slot", "", html.SlotAttr, "html.SlotAttr"},
	{"src", "", html.Src, "html.Src"},
	{"srcset", "", html.SrcSet, "html.SrcSet"},
	{"step", "", html.Step, "html.Step"},
	{"style", "; ", html.Style, "html.Style"},
	{"tabindex", "", html.TabIndex, "html.TabIndex"},
	{"target", "", html.Target, "html.Target"},
	{"title", "", html.Title, "html.Title"},
	{"type", "", html.Type, "html.Type"},
	{"value", "", html.Value, "html.Value"},
	{"width", "", html.Width, "html.Width"},
	{"aria-atomic", "", html.AriaAtomic, "html.AriaAtomic"},
	{"aria-busy", "", html.AriaBusy, "html.AriaBusy"},
	{"aria-checked", "", html.AriaChecked, "html.AriaChecked"},
	{"aria-controls", "", html.AriaControls, "html.AriaControls"},
	{"aria-describedby", "", html.AriaDescribedBy, "html.AriaDescribedBy"},
	{"aria-disabled", "", html.AriaDisabled, "html.AriaDisabled"},
	{"aria-expanded", "", html.AriaExpanded, "html.AriaExpanded"},
	{"aria-flowto", "", html.AriaFlowTo, "html.AriaFlowTo"},
	{"aria-hidden", "", html.AriaHidden, "html.AriaHidden"},
	{"aria-invalid", "", html.AriaInvalid, "html.AriaInvalid"},
	{"aria-label", "", html.AriaLabel, "html.AriaLabel"},
	{"aria-labelledby", "", html.AriaLabelledBy, "html.AriaLabelledBy"},
	{"aria-live", "", html.AriaLive, "html.AriaLive"},
	{"aria-owns", "", html.AriaOwns, "html.AriaOwns"},
	{"aria-placeholder", "", html.AriaPlaceholder, "html.AriaPlaceholder"},
	{"aria-posinset", "", html.AriaPosInSet, "html.AriaPosInSet"},
	{"aria-pressed", "", html.AriaPressed, "html.AriaPressed"},
	{"aria-readonly", "", html.AriaReadonly, "html.AriaReadonly"},
	{"aria-relevant", "", html.AriaRelevant, "html.AriaRelevant"},
	{"aria-required", "", html.AriaRequired, "html.AriaRequired"},
	{"aria-selected", "", html.AriaSelected, "html.AriaSelected"},
	{"aria-setsize", "", html.AriaSetSize, "html.AriaSetSize"},
	{"aria-valuemax", "", html.AriaValueMax, "html.AriaValueMax"},
	{"aria-valuemin", "", html.AriaValueMin, "html.AriaValueMin"},
	{"aria-valuenow", "", html.AriaValueNow, "html.AriaValueNow"},
	{"aria-valuetext", "", html.AriaValueText, "html.AriaValueText"},
	{"onabort", "", html.OnAbort, "html.OnAbort"},
	{"onbeforeunload", "", html.OnBeforeUnload, "html.OnBeforeUnload"},
	{"onblur", "", html.OnBlur, "html.OnBlur"},
	{"oncanplay", "", html.OnCanPlay, "html.OnCanPlay"},
	{"oncanplaythrough", "", html.OnCanPlayThrough, "html.OnCanPlayThrough"},
	{"onchange", "", html.OnChange, "html.OnChange"},
	{"onclick", "", html.OnClick, "html.OnClick"},
	{"oncontextmenu", "", html.OnContextMenu, "html.OnContextMenu"},
	{"oncopy", "", html.OnCopy, "html.OnCopy"},
	{"oncut", "", html.OnCut, "html.OnCut"},
	{"ondblclick", "", html.OnDblClick, "html.OnDblClick"},
	{"ondrag", "", html.OnDrag, "html.OnDrag"},
	{"ondragend", "", html.OnDragEnd, "html.OnDragEnd"},
	{"ondragenter", "", html.OnDragEnter, "html.OnDragEnter"},
	{"ondragleave", "", html.OnDragLeave, "html.OnDragLeave"},
	{"ondragover", "", html.OnDragOver, "html.OnDragOver"},
	{"ondragstart", "", html.OnDragStart, "html.OnDragStart"},
	{"ondrop", "", html.OnDrop, "html.OnDrop"},
	{"ondurationchange", "", html.OnDurationChange, "html.OnDurationChange"},
	{"onended", "", html.OnEnded, "html.OnEnded"},
	{"onerror", "", html.OnError, "html.OnError"},
	{"onfocus", "", html.OnFocus, "html.OnFocus"},
	{"onhashchange", "", html.OnHashChange, "html.OnHashChange"},
	{"oninput", "", html.OnInput, "html.OnInput"},
	{"oninvalid", "", html.OnInvalid, "html.OnInvalid"},
	{"onkeydown", "", html.OnKeyDown, "html.OnKeyDown"},
	{"onkeypress", "", html.OnKeyPress, "html.OnKeyPress"},
	{"onkeyup", "", html.OnKeyUp, "html.OnKeyUp"},
	{"onload", "", html.OnLoad, "html.OnLoad"},
	{"onloadeddata", "", html.OnLoadedData, "html.OnLoadedData"},
	{"onloadedmetadata", "", html.OnLoadedMetadata, "html.OnLoadedMetadata"},
	{"onmousedown", "", html.OnMouseDown, "html.OnMouseDown"},
	{"onmouseenter", "", html.OnMouseEnter, "html.OnMouseEnter"},
	{"onmouseleave", "", html.OnMouseLeave, "html.OnMouseLeave"},
	{"onmousemove", "", html.OnMouseMove, "html.OnMouseMove"},
	{"onmouseout", "", html.OnMouseOut, "html.OnMouseOut"},
	{"onmouseover", "", html.OnMouseOver, "html.OnMouseOver"},
	{"onmouseup", "", html.OnMouseUp, "html.OnMouseUp"},
	{"onpagehide", "", html.OnPageHide, "html.OnPageHide"},
	{"onpageshow", "", html.OnPageShow, "html.OnPageShow"},
	{"onpaste", "", html.OnPaste, "html.OnPaste"},
	{"onpause", "", html.OnPause, "html.OnPause"},
	{"onplay", "", html.OnPlay, "html.OnPlay"},
	{"onplaying", "", html.OnPlaying, "html.OnPlaying"},
	{"onpopstate", "", html.OnPopState, "html.OnPopState"},
	{"onprogress", "", html.OnProgress, "html.OnProgress"},
	{"onratechange", "", html.OnRateChange, "html.OnRateChange"},
	{"onreset", "", html.OnReset, "html.OnReset"},
	{"onresize", "", html.OnResize, "html.OnResize"},
	{"onscroll", "", html.OnScroll, "html.OnScroll"},
	{"onseeked", "", html.OnSeeked, "html.OnSeeked"},
	{"onseeking", "", html.OnSeeking, "html.OnSeeking"},
	{"onselect", "", html.OnSelect, "html.OnSelect"},
	{"onstalled", "", html.OnStalled, "html.OnStalled"},
	{"onsubmit", "", html.OnSubmit, "html.OnSubmit"},
	{"onsuspend", "", html.OnSuspend, "html.OnSuspend"},
	{"ontimeupdate", "", html.OnTimeUpdate, "html.OnTimeUpdate"},
	{"ontoggle", "", html.OnToggle, "html.OnToggle"},
	{"onunload", "", html.OnUnload, "html.OnUnload"},
	{"onvolumechange", "", html.OnVolumeChange, "html.OnVolumeChange"},
	{"onwaiting", "", html.OnWaiting, "html.OnWaiting"},
	{"onpointerdown", "", html.OnPointerDown, "html.OnPointerDown"},
	{"onpointerup", "", html.OnPointerUp, "html.OnPointerUp"},
	{"onpointermove", "", html.OnPointerMove, "html.OnPointerMove"},
	{"onpointerenter", "", html.OnPointerEnter, "html.OnPointerEnter"},
	{"onpointerleave", "", html.OnPointerLeave, "html.OnPointerLeave"},
	{"onpointerover", "", html.OnPointerOver, "html.OnPointerOver"},
	{"onpointerout", "", html.OnPointerOut, "html.OnPointerOut"},
	{"onpointercancel", "", html.OnPointerCancel, "html.OnPointerCancel"},
	{"ontouchstart", "", html.OnTouchStart, "html.OnTouchStart"},
	{"ontouchmove", "", html.OnTouchMove, "html.OnTouchMove"},
	{"ontouchend", "", html.OnTouchEnd, "html.OnTouchEnd"},
	{"ontouchcancel", "", html.OnTouchCancel, "html.OnTouchCancel"},
	{"onanimationstart", "", html.OnAnimationStart, "html.OnAnimationStart"},
	{"onanimationend", "", html.OnAnimationEnd, "html.OnAnimationEnd"},
	{"onanimationiteration", "", html.OnAnimationIteration, "html.OnAnimationIteration"},
	{"ontransitionend", "", html.OnTransitionEnd, "html.OnTransitionEnd"},
	{"onbeforeinput", "", html.OnBeforeInput, "html.OnBeforeInput"},
	{"onslotchange", "", html.OnSlotChange, "html.OnSlotChange"},
	{"onformdata", "", html.OnFormData, "html.OnFormData"},
	{"accesskey", "", html.AccessKey, "html.AccessKey"},
	{"autocapitalize", "", html.AutoCapitalize, "html.AutoCapitalize"},
	{"autocorrect", "", html.AutoCorrect, "html.AutoCorrect"},
	{"enterkeyhint", "", html.EnterKeyHint, "html.EnterKeyHint"},
	{"exportparts", "", html.ExportParts, "html.ExportParts"},
	{"inputmode", "", html.InputMode, "html.InputMode"},
	{"is", "", html.Is, "html.Is"},
	{"itemid", "", html.ItemId, "html.ItemId"},
	{"itemprop", "", html.ItemProp, "html.ItemProp"},
	{"itemref", "", html.ItemRef, "html.ItemRef"},
	{"itemtype", "", html.ItemType, "html.ItemType"},
	{"nonce", "", html.Nonce, "html.Nonce"},
	{"part", "", html.Part, "html.Part"},
	{"writingsuggestions", "", html.WritingSuggestions, "html.WritingSuggestions"},
}

var svgAttributes = []attrCtor{
	{"accumulate", "", svg.Accumulate, "svg.Accumulate"},
	{"additive", "", svg.Additive, "svg.Additive"},
	{"alignment-baseline", "", svg.AlignmentBaseline, "svg.AlignmentBaseline"},
	{"attributeName", "", svg.AttributeName, "svg.AttributeName"},
	{"attributeType", "", svg.AttributeType, "svg.AttributeType"},
	{"baseline-shift", "", svg.BaselineShift, "svg.BaselineShift"},
	{"begin", "", svg.Begin, "svg.Begin"},
	{"by", "", svg.By, "svg.By"},
	{"calcMode", "", svg.CalcMode, "svg.CalcMode"},
	{"class", "", svg.Class, "svg.Class"},
	{"clip", "", svg.Clip, "svg.Clip"},
	{"clip-path", "", svg.ClipPathAttr, "svg.ClipPathAttr"},
	{"clip-rule", "", svg.ClipRule, "svg.ClipRule"},
	{"color", "", svg.Color, "svg.Color"},
	{"color-interpolation", "", svg.ColorInterpolation, "svg.ColorInterpolation"},
	{"color-interpolation-filters", "", svg.ColorInterpolationFilters, "svg.ColorInterpolationFilters"},
	{"color-profile", "", svg.ColorProfile, "svg.ColorProfile"},
	{"color-rendering", "", svg.ColorRendering, "svg.ColorRendering"},
	{"cursor", "", svg.Cursor, "svg.Cursor"},
	{"cx", "", svg.Cx, "svg.Cx"},
	{"cy", "", svg.Cy, "svg.Cy"},
	{"d", "", svg.D, "svg.D"},
	{"direction", "", svg.Direction, "svg.Direction"},
	{"display", "", svg.Display, "svg.Display"},
	{"dominant-baseline", "", svg.DominantBaseline, "svg.DominantBaseline"},
	{"dur", "", svg.Dur, "svg.Dur"},
	{"dx", "", svg.Dx, "svg.Dx"},
	{"dy", "", svg.Dy, "svg.Dy"},
	{"enable-background", "", svg.EnableBackground, "svg.EnableBackground"},
	{"end", "", svg.End, "svg.End"},
	{"externalResourcesRequired", "", svg.ExternalResourcesRequired, "svg.ExternalResourcesRequired"},
	{"fill", "", svg.Fill, "svg.Fill"},
	{"fill-opacity", "", svg.FillOpacity, "svg.FillOpacity"},
	{"fill-rule", "", svg.FillRule, "svg.FillRule"},
	{"filter", "", svg.FilterAttr, "svg.FilterAttr"},
	{"filterUnits", "", svg.FilterUnits, "svg.FilterUnits"},
	{"flood-color", "", svg.FloodColor, "svg.FloodColor"},
	{"flood-opacity", "", svg.FloodOpacity, "svg.FloodOpacity"},
	{"font-family", "", svg.FontFamily, "svg.FontFamily"},
	{"font-size", "", svg.FontSize, "svg.FontSize"},
	{"font-size-adjust", "", svg.FontSizeAdjust, "svg.FontSizeAdjust"},
	{"font-stretch", "", svg.FontStretch, "svg.FontStretch"},
	{"font-style", "", svg.FontStyle, "svg.FontStyle"},
	{"font-variant", "", svg.FontVariant, "svg.FontVariant"},
	{"font-weight", "", svg.FontWeight, "svg.FontWeight"},
	{"from", "", svg.From, "svg.From"},
	{"fx", "", svg.Fx, "svg.Fx"},
	{"fy", "", svg.Fy, "svg.Fy"},
	{"glyph-orientation-horizontal", "", svg.GlyphOrientationHorizontal, "svg.GlyphOrientationHorizontal"},
	{"glyph-orientation-vertical", "", svg.GlyphOrientationVertical, "svg.GlyphOrientationVertical"},
	{"gradientTransform", "", svg.GradientTransform, "svg.GradientTransform"},
	{"gradientUnits", "", svg.GradientUnits, "svg.GradientUnits"},
	{"height", "", svg.Height, "svg.Height"},
	{"href", "", svg.Href, "svg.Href"},
	{"id", "", svg.Id, "svg.Id"},
	{"image-rendering", "", svg.ImageRendering, "svg.ImageRendering"},
	{"kerning", "", svg.Kerning, "svg.Kerning"},
	{"keyPoints", "", svg.KeyPoints, "svg.KeyPoints"},
	{"keySplines", "", svg.KeySplines, "svg.KeySplines"},
	{"keyTimes", "", svg.KeyTimes, "svg.KeyTimes"},
	{"lengthAdjust", "", svg.LengthAdjust, "svg.LengthAdjust"},
	{"letter-spacing", "", svg.LetterSpacing, "svg.LetterSpacing"},
	{"lighting-color", "", svg.LightingColor, "svg.LightingColor"},
	{"marker-end", "", svg.MarkerEnd, "svg.MarkerEnd"},
	{"marker-mid", "", svg.MarkerMid, "svg.MarkerMid"},
	{"marker-start", "", svg.MarkerStart, "svg.MarkerStart"},
	{"markerHeight", "", svg.MarkerHeight, "svg.MarkerHeight"},
	{"markerUnits", "", svg.MarkerUnits, "svg.MarkerUnits"},
	{"markerWidth", "", svg.MarkerWidth, "svg.MarkerWidth"},
	{"mask", "", svg.MaskAttr, "svg.MaskAttr"},
	{"onblur", "", svg.OnBlur, "svg.OnBlur"},
	{"onclick", "", svg.OnClick, "svg.OnClick"},
	{"onfocus", "", svg.OnFocus, "svg.OnFocus"},
	{"onload", "", svg.OnLoad, "svg.OnLoad"},
	{"onmousedown", "", svg.OnMouseDown, "svg.OnMouseDown"},
	{"onmousemove", "", svg.OnMouseMove, "svg.OnMouseMove"},
	{"onmouseout", "", svg.OnMouseOut, "svg.OnMouseOut"},
	{"onmouseover", "", svg.OnMouseOver, "svg.OnMouseOver"},
	{"onmouseup", "", svg.OnMouseUp, "svg.OnMouseUp"},
	{"onunload", "", svg.OnUnload, "svg.OnUnload"},
	{"opacity", "", svg.Opacity, "svg.Opacity"},
	{"orient", "", svg.Orient, "svg.Orient"},
	{"path", "", svg.PathAttr, "svg.PathAttr"},
	{"pathLength", "", svg.PathLength, "svg.PathLength"},
	{"patternContentUnits", "", svg.PatternContentUnits, "svg.PatternContentUnits"},
	{"patternTransform", "", svg.PatternTransform, "svg.PatternTransform"},
	{"patternUnits", "", svg.PatternUnits, "svg.PatternUnits"},
	{"pointer-events", "", svg.PointerEvents, "svg.PointerEvents"},
	{"points", "", svg.Points, "svg.Points"},
	{"preserveAspectRatio", "", svg.PreserveAspectRatio, "svg.PreserveAspectRatio"},
	{"primitiveUnits", "", svg.PrimitiveUnits, "svg.PrimitiveUnits"},
	{"r", "", svg.R, "svg.R"},
	{"refX", "", svg.RefX, "svg.RefX"},
	{"refY", "", svg.RefY, "svg.RefY"},
	{"repeatCount", "", svg.RepeatCount, "svg.RepeatCount"},
	{"repeatDur", "", svg.RepeatDur, "svg.RepeatDur"},
	{"requiredExtensions", "", svg.RequiredExtensions, "svg.RequiredExtensions"},
	{"requiredFeatures", "", svg.RequiredFeatures, "svg.RequiredFeatures"},
	{"rotate", "", svg.Rotate, "svg.Rotate"},
	{"rx", "", svg.Rx, "svg.Rx"},
	{"ry", "", svg.Ry, "svg.Ry"},
	{"shape-rendering", "", svg.ShapeRendering, "svg.ShapeRendering"},
	{"spreadMethod", "", svg.SpreadMethod, "svg.SpreadMethod"},
	{"stop-color", "", svg.StopColor, "svg.StopColor"},
	{"stop-opacity", "", svg.StopOpacity, "svg.StopOpacity"},
	{"stroke", "", svg.Stroke, "svg.Stroke"},
	{"stroke-dasharray", "", svg.StrokeDashArray, "svg.StrokeDashArray"},
	{"stroke-dashoffset", "", svg.StrokeDashOffset, "svg.StrokeDashOffset"},
	{"stroke-linecap", "", svg.StrokeLineCap, "svg.StrokeLineCap"},
	{"stroke-linejoin", "", svg.StrokeLineJoin, "svg.StrokeLineJoin"},
	{"stroke-miterlimit", "", svg.StrokeMiterLimit, "svg.StrokeMiterLimit"},
	{"stroke-opacity", "", svg.StrokeOpacity, "svg.StrokeOpacity"},
	{"stroke-width", "", svg.StrokeWidth, "svg.StrokeWidth"},
	{"style", "; ", svg.Style, "svg.Style"},
	{"systemLanguage", "", svg.SystemLanguage, "svg.SystemLanguage"},
	{"tabindex", "", svg.TabIndex, "svg.TabIndex"},
	{"text-anchor", "", svg.TextAnchor, "svg.TextAnchor"},
	{"text-decoration", "", svg.TextDecoration, "svg.TextDecoration"},
	{"text-rendering", "", svg.TextRendering, "svg.TextRendering"},
	{"textLength", "", svg.TextLength, "svg.TextLength"},
	{"to", "", svg.To, "svg.To"},
	{"type", "", svg.Type, "svg.Type"},
	{"unicode-bidi", "", svg.UnicodeBidi, "svg.UnicodeBidi"},
	{"values", "", svg.Values, "svg.Values"},
	{"visibility", "", svg.Visibility, "svg.Visibility"},
	{"width", "", svg.Width, "svg.Width"},
	{"word-spacing", "", svg.WordSpacing, "svg.WordSpacing"},
	{"writing-mode", "", svg.WritingMode, "svg.WritingMode"},
	{"x", "", svg.X, "svg.X"},
	{"x1", "", svg.X1, "svg.X1"},
	{"x2", "", svg.X2, "svg.X2"},
	{"xlink:actuate", "", svg.XlinkActuate, "svg.XlinkActuate"},
	{"xlink:arcrole", "", svg.XlinkArcrole, "svg.XlinkArcrole"},
	{"xlink:href", "", svg.XlinkHref, "svg.XlinkHref"},
	{"xlink:role", "", svg.XlinkRole, "svg.XlinkRole"},
	{"xlink:show", "", svg.XlinkShow, "svg.XlinkShow"},
	{"xlink:title", "", svg.XlinkTitle, "svg.XlinkTitle"},
	{"xml:base", "", svg.XmlBase, "svg.XmlBase"},
	{"xml:lang", "", svg.XmlLang, "svg.XmlLang"},
	{"xml:space", "", svg.XmlSpace, "svg.XmlSpace"},
	{"y", "", svg.Y, "svg.Y"},
	{"y1", "", svg.Y1, "svg.Y1"},
	{"y2", "", svg.Y2, "svg.Y2"},
}

var htmxAttributes = []attrCtor{
	{"hx-get", "", htmx.Get, "htmx.Get"},
	{"hx-post", "", htmx.Post, "htmx.Post"},
	{"hx-put", "", htmx.Put, "htmx.Put"},
	{"hx-delete", "", htmx.Delete, "htmx.Delete"},
	{"hx-patch", "", htmx.Patch, "htmx.Patch"},
	{"hx-target", "", htmx.Target, "htmx.Target"},
	{"hx-swap", "", htmx.Swap, "htmx.Swap"},
	{"hx-swap-oob", "", htmx.SwapOob, "htmx.SwapOob"},
	{"hx-trigger", " ", htmx.Trigger, "htmx.Trigger"},
	{"hx-include", "", htmx.Include, "htmx.Include"},
	{"hx-select", "", htmx.Select, "htmx.Select"},
	{"hx-params", " ", htmx.Params, "htmx.Params"},
	{"hx-push-url", "", htmx.PushURL, "htmx.PushURL"},
	{"hx-replace-url", "", htmx.ReplaceURL, "htmx.ReplaceURL"},
	{"hx-on:before-request", "", htmx.OnBeforeRequest, "htmx.OnBeforeRequest"},
	{"hx-on:send", "", htmx.OnSend, "htmx.OnSend"},
	{"hx-on:after-request", "", htmx.OnAfterRequest, "htmx.OnAfterRequest"},
	{"hx-on:before-swap", "", htmx.OnBeforeSwap, "htmx.OnBeforeSwap"},
	{"hx-on:after-swap", "", htmx.OnAfterSwap, "htmx.OnAfterSwap"},
	{"hx-on:response-error", "", htmx.OnResponseError, "htmx.OnResponseError"},
	{"hx-on:send-error", "", htmx.OnSendError, "htmx.OnSendError"},
	{"hx-confirm", "", htmx.Confirm, "htmx.Confirm"},
	{"hx-disable", "", htmx.Disable, "htmx.Disable"},
	{"hx-disabled-elt", "", htmx.DisabledElt, "htmx.DisabledElt"},
	{"hx-boost", "", htmx.Boost, "htmx.Boost"},
	{"hx-ext", "", htmx.Ext, "htmx.Ext"},
	{"hx-encoding", "", htmx.Encoding, "htmx.Encoding"},
	{"hx-history-elt", "", htmx.HistoryElt, "htmx.HistoryElt"},
	{"hx-indicator", "", htmx.Indicator, "htmx.Indicator"},
	{"hx-request", "", htmx.Request, "htmx.Request"},
	{"hx-vals", "", htmx.Vals, "htmx.Vals"},
	{"hx-vars", ", ", htmx.Vars, "htmx.Vars"},
	{"hx-headers", "", htmx.Headers, "htmx.Headers"},
	{"hx-inherit", " ", htmx.Inherit, "htmx.Inherit"},
	{"hx-disinherit", " ", htmx.Disinherit, "htmx.Disinherit"},
	{"hx-sync", "", htmx.Sync, "htmx.Sync"},
	{"hx-preserve", "", htmx.Preserve, "htmx.Preserve"},
	{"hx-prompt", "", htmx.Prompt, "htmx.Prompt"},
	{"hx-validate", "", htmx.Validate, "htmx.Validate"},
}

var boolAttributes = []boolCtor{
	{"async", html.Async, "html.Async"},
	{"autofocus", html.AutoFocus, "html.AutoFocus"},
	{"autoplay", html.AutoPlay, "html.AutoPlay"},
	{"checked", html.Checked, "html.Checked"},
	{"controls", html.Controls, "html.Controls"},
	{"defer", html.Defer, "html.Defer"},
	{"disabled", html.Disabled, "html.Disabled"},
	{"loop", html.Loop, "html.Loop"},
	{"multiple", html.Multiple, "html.Multiple"},
	{"muted", html.Muted, "html.Muted"},
	{"playsinline", html.PlaysInline, "html.PlaysInline"},
	{"readonly", html.ReadOnly, "html.ReadOnly"},
	{"required", html.Required, "html.Required"},
	{"selected", html.Selected, "html.Selected"},
	{"novalidate", html.NoValidate, "html.NoValidate"},
	{"formnovalidate", html.FormNoValidate, "html.FormNoValidate"},
	{"hidden", html.Hidden, "html.Hidden"},
	{"allowfullscreen", html.AllowFullScreen, "html.AllowFullScreen"},
	{"default", html.Default, "html.Default"},
	{"inert", html.Inert, "html.Inert"},
	{"ismap", html.IsMap, "html.IsMap"},
	{"itemscope", html.ItemScope, "html.ItemScope"},
	{"nomodule", html.NoModule, "html.NoModule"},
	{"open", html.Open, "html.Open"},
	{"reversed", html.Reversed, "html.Reversed"},
	{"spellcheck", html.Spellcheck, "html.Spellcheck"},
	{"translate", html.Translate, "html.Translate"},
}

var cssProperties = []attrCtor{
	{"display", "; ", css.Display, "css.Display"},
	{"position", "; ", css.Position, "css.Position"},
	{"top", "; ", css.Top, "css.Top"},
	{"right", "; ", css.Right, "css.Right"},
	{"bottom", "; ", css.Bottom, "css.Bottom"},
	{"left", "; ", css.Left, "css.Left"},
	{"z-index", "; ", css.ZIndex, "css.ZIndex"},
	{"float", "; ", css.Float, "css.Float"},
	{"clear", "; ", css.Clear, "css.Clear"},
	{"flex", "; ", css.Flex, "css.Flex"},
	{"flex-grow", "; ", css.FlexGrow, "css.FlexGrow"},
	{"flex-shrink", "; ", css.FlexShrink, "css.FlexShrink"},
	{"flex-basis", "; ", css.FlexBasis, "css.FlexBasis"},
	{"justify-content", "; ", css.JustifyContent, "css.JustifyContent"},
	{"align-items", "; ", css.AlignItems, "css.AlignItems"},
	{"align-content", "; ", css.AlignContent, "css.AlignContent"},
	{"align-self", "; ", css.AlignSelf, "css.AlignSelf"},
	{"gap", "; ", css.Gap, "css.Gap"},
	{"row-gap", "; ", css.RowGap, "css.RowGap"},
	{"column-gap", "; ", css.ColumnGap, "css.ColumnGap"},
	{"width", "; ", css.Width, "css.Width"},
	{"height", "; ", css.Height, "css.Height"},
	{"min-width", "; ", css.MinWidth, "css.MinWidth"},
	{"max-width", "; ", css.MaxWidth, "css.MaxWidth"},
	{"min-height", "; ", css.MinHeight, "css.MinHeight"},
	{"max-height", "; ", css.MaxHeight, "css.MaxHeight"},
	{"margin", "; ", css.Margin, "css.Margin"},
	{"margin-top", "; ", css.MarginTop, "css.MarginTop"},
	{"margin-right", "; ", css.MarginRight, "css.MarginRight"},
	{"margin-bottom", "; ", css.MarginBottom, "css.MarginBottom"},
	{"margin-left", "; ", css.MarginLeft, "css.MarginLeft"},
	{"padding", "; ", css.Padding, "css.Padding"},
	{"padding-top", "; ", css.PaddingTop, "css.PaddingTop"},
	{"padding-right", "; ", css.PaddingRight, "css.PaddingRight"},
	{"padding-bottom", "; ", css.PaddingBottom, "css.PaddingBottom"},
	{"padding-left", "; ", css.PaddingLeft, "css.PaddingLeft"},
	{"border", "; ", css.Border, "css.Border"},
	{"border-width", "; ", css.BorderWidth, "css.BorderWidth"},
	{"border-color", "; ", css.BorderColor, "css.BorderColor"},
	{"border-style", "; ", css.BorderStyle, "css.BorderStyle"},
	{"border-radius", "; ", css.BorderRadius, "css.BorderRadius"},
	{"border-top", "; ", css.BorderTop, "css.BorderTop"},
	{"border-bottom", "; ", css.BorderBottom, "css.BorderBottom"},
	{"border-left", "; ", css.BorderLeft, "css.BorderLeft"},
	{"border-right", "; ", css.BorderRight, "css.BorderRight"},
	{"background", "; ", css.Background, "css.Background"},
	{"background-color", "; ", css.BackgroundColor, "css.BackgroundColor"},
	{"background-image", "; ", css.BackgroundImage, "css.BackgroundImage"},
	{"background-size", "; ", css.BackgroundSize, "css.BackgroundSize"},
	{"background-position", "; ", css.BackgroundPosition, "css.BackgroundPosition"},
	{"background-repeat", "; ", css.BackgroundRepeat, "css.BackgroundRepeat"},
	{"color", "; ", css.Color, "css.Color"},
	{"font-size", "; ", css.FontSize, "css.FontSize"},
	{"font-weight", "; ", css.FontWeight, "css.FontWeight"},
	{"font-family", "; ", css.FontFamily, "css.FontFamily"},
	{"line-height", "; ", css.LineHeight, "css.LineHeight"},
	{"letter-spacing", "; ", css.LetterSpacing, "css.LetterSpacing"},
	{"text-align", "; ", css.TextAlign, "css.TextAlign"},
	{"text-transform", "; ", css.TextTransform, "css.TextTransform"},
	{"text-decoration", "; ", css.TextDecoration, "css.TextDecoration"},
	{"white-space", "; ", css.WhiteSpace, "css.WhiteSpace"},
	{"word-break", "; ", css.WordBreak, "css.WordBreak"},
	{"opacity", "; ", css.Opacity, "css.Opacity"},
	{"box-shadow", "; ", css.BoxShadow, "css.BoxShadow"},
	{"visibility", "; ", css.Visibility, "css.Visibility"},
	{"overflow", "; ", css.Overflow, "css.Overflow"},
	{"overflow-x", "; ", css.OverflowX, "css.OverflowX"},
	{"overflow-y", "; ", css.OverflowY, "css.OverflowY"},
	{"cursor", "; ", css.Cursor, "css.Cursor"},
	{"transition", "; ", css.Transition, "css.Transition"},
	{"transition-duration", "; ", css.TransitionDuration, "css.TransitionDuration"},
	{"transition-timing-function", "; ", css.TransitionTimingFunction, "css.TransitionTimingFunction"},
	{"transform", "; ", css.Transform, "css.Transform"},
	{"animation", "; ", css.Animation, "css.Animation"},
	{"user-select", "; ", css.UserSelect, "css.UserSelect"},
	{"pointer-events", "; ", css.PointerEvents, "css.PointerEvents"},
	{"isolation", "; ", css.Isolation, "css.Isolation"},
	{"object-fit", "; ", css.ObjectFit, "css.ObjectFit"},
	{"object-position", "; ", css.ObjectPosition, "css.ObjectPosition"},
	{"box-sizing", "; ", css.BoxSizing, "css.BoxSizing"},
	{"aspect-ratio", "; ", css.AspectRatio, "css.AspectRatio"},
	{"contain", "; ", css.Contain, "css.Contain"},
	{"content-visibility", "; ", css.ContentVisibility, "css.ContentVisibility"},
	{"resize", "; ", css.Resize, "css.Resize"},
	{"grid-template-columns", "; ", css.GridTemplateColumns, "css.GridTemplateColumns"},
	{"grid-template-rows", "; ", css.GridTemplateRows, "css.GridTemplateRows"},
	{"grid-column", "; ", css.GridColumn, "css.GridColumn"},
	{"grid-row", "; ", css.GridRow, "css.GridRow"},
	{"grid-area", "; ", css.GridArea, "css.GridArea"},
	{"grid-auto-flow", "; ", css.GridAutoFlow, "css.GridAutoFlow"},
	{"place-items", "; ", css.PlaceItems, "css.PlaceItems"},
	{"place-content", "; ", css.PlaceContent, "css.PlaceContent"},
	{"place-self", "; ", css.PlaceSelf, "css.PlaceSelf"},
	{"font-style", "; ", css.FontStyle, "css.FontStyle"},
	{"font-variant", "; ", css.FontVariant, "css.FontVariant"},
	{"font-stretch", "; ", css.FontStretch, "css.FontStretch"},
	{"direction", "; ", css.Direction, "css.Direction"},
	{"tab-size", "; ", css.TabSize, "css.TabSize"},
	{"list-style", "; ", css.ListStyle, "css.ListStyle"},
	{"list-style-type", "; ", css.ListStyleType, "css.ListStyleType"},
	{"list-style-position", "; ", css.ListStylePosition, "css.ListStylePosition"},
	{"list-style-image", "; ", css.ListStyleImage, "css.ListStyleImage"},
	{"border-collapse", "; ", css.BorderCollapse, "css.BorderCollapse"},
	{"border-spacing", "; ", css.BorderSpacing, "css.BorderSpacing"},
	{"table-layout", "; ", css.TableLayout, "css.TableLayout"},
	{"empty-cells", "; ", css.EmptyCells, "css.EmptyCells"},
	{"filter", "; ", css.Filter, "css.Filter"},
	{"backdrop-filter", "; ", css.BackdropFilter, "css.BackdropFilter"},
	{"mix-blend-mode", "; ", css.MixBlendMode, "css.MixBlendMode"},
	{"box-decoration-break", "; ", css.BoxDecorationBreak, "css.BoxDecorationBreak"},
	{"scroll-behavior", "; ", css.ScrollBehavior, "css.ScrollBehavior"},
	{"scroll-snap-type", "; ", css.ScrollSnapType, "css.ScrollSnapType"},
	{"scroll-snap-align", "; ", css.ScrollSnapAlign, "css.ScrollSnapAlign"},
	{"scroll-margin", "; ", css.ScrollMargin, "css.ScrollMargin"},
	{"scroll-padding", "; ", css.ScrollPadding, "css.ScrollPadding"},
	{"animation-name", "; ", css.AnimationName, "css.AnimationName"},
	{"animation-duration", "; ", css.AnimationDuration, "css.AnimationDuration"},
	{"animation-timing-function", "; ", css.AnimationTimingFunction, "css.AnimationTimingFunction"},
	{"animation-delay", "; ", css.AnimationDelay, "css.AnimationDelay"},
	{"animation-iteration-count", "; ", css.AnimationIterationCount, "css.AnimationIterationCount"},
	{"animation-direction", "; ", css.AnimationDirection, "css.AnimationDirection"},
	{"animation-fill-mode", "; ", css.AnimationFillMode, "css.AnimationFillMode"},
	{"animation-play-state", "; ", css.AnimationPlayState, "css.AnimationPlayState"},
	{"transition-property", "; ", css.TransitionProperty, "css.TransitionProperty"},
	{"transition-delay", "; ", css.TransitionDelay, "css.TransitionDelay"},
	{"touch-action", "; ", css.TouchAction, "css.TouchAction"},
	{"will-change", "; ", css.WillChange, "css.WillChange"},
	{"caret-color", "; ", css.CaretColor, "css.CaretColor"},
	{"scroll-snap-stop", "; ", css.ScrollSnapStop, "css.ScrollSnapStop"},
	{"speak", "; ", css.Speak, "css.Speak"},
	{"page-break-before", "; ", css.PageBreakBefore, "css.PageBreakBefore"},
	{"page-break-after", "; ", css.PageBreakAfter, "css.PageBreakAfter"},
	{"page-break-inside", "; ", css.PageBreakInside, "css.PageBreakInside"},
}
