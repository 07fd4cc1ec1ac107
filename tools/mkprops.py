#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "String values are always HTML-escaped, whatever bytes they hold",
  "A string (or a value that renders through its String method) used as a text, attribute, comment or processing-instruction value, whether given directly, read from the render data or cargo by key, returned by a producing function, or written imperatively, is written with exactly the five characters < > & \" ' replaced by &lt; &gt; &amp; &quot; &apos;, NUL bytes dropped and every other byte unchanged and in order. "
  "Raw byte slices are the only values written verbatim. "
  "So no such string can close an attribute, open or close a tag, or end a comment.",
  ["inputs"], "Every byte string within the length bound, in every value position and through every route by which a string reaches the output.",
  "Tests compare a handful of literal strings; injection safety is about every byte combination in every position and route.",
  ["value.go", "text.go", "attribute.go", "comment.go", "imperative.go"], "valueToBytes / htmlEscapeString applied at construction or at render time")

p("C02", "Output is the exact serialisation of the node tree",
  "Rendering a tree writes, in order, each element as <name attributes>contents</name>, a void element as <name attributes> with no contents and no closing tag, text and fragments as their values, a comment as <!--...-->, a processing instruction as <!name ...> and a newline, and a collection or dynamically collected group as its members; every opened element is closed in reverse order. "
  "Attributes are written inside their own element's start tag as name=\"value\" (or the bare name for a boolean attribute) in first-appearance order, wherever they stand among the contents or within nested collections, and never as content; nodes given as contents of a text, comment or fragment contribute only their values. "
  "Contents keep their order.",
  ["inputs", "programs"], "Every tree shape within the depth and width bounds, with every combination of node kinds and every value bytes.",
  "Tests render some tens of fixed trees; the composition of node kinds, positions and nesting is unbounded.",
  ["element.go", "attribute.go", "collection.go", "comment.go", "fragment.go", "pi.go", "text.go"], "Render methods of the node types; attributesAndContents splits contents into attributes and children")

p("C03", "An element renders each attribute name once: last wins, delimited values merge",
  "However many times an attribute is given for an element, directly, through nested collections or through conditions that hold, its name appears exactly once in the start tag at the place where the name was first declared, with the value of the last one given. "
  "For delimited attributes (such as class and style) the values of all of them are merged in the order given; values of attributes whose conditions hold rank after the unconditional ones, and names given only under conditions follow the others in the order first given.",
  ["inputs", "programs"], "Every sequence of attributes of the same kind per name within the bound: names, values, delimited or plain, boolean, direct, collected or conditional, plus every truth assignment of the conditions.",
  "Tests cover a few duplicate pairs; duplicates interact through position, delimiter, conditions and nesting.",
  ["element.go", "conditional.go", "imperative.go"], "addAttributes with the name-to-index map; renderAttributes merging evaluated conditional attributes")

p("C04", "Delimited values are separated by exactly one delimiter",
  "A delimited attribute writes its non-empty values in order with exactly one delimiter between neighbours, whichever of its values render as nothing at render time: there is never a leading or doubled delimiter and two non-empty values never run together. "
  "At most one delimiter may trail, and only when the last values are empty; dropped nil values leave no trace.",
  ["inputs", "programs"], "Every number of values within the bound, each empty or not, static, dynamic or concatenated, for every delimiter bytes.",
  "Whether a value is empty is known only at render time; tests try one or two patterns of emptiness.",
  ["attribute.go", "value.go", "element.go"], "delimitedAttribute.Render tracks whether the previous value wrote anything")

p("C05", "Conditional content and attributes appear exactly when all their conditions hold",
  "A node or attribute placed under conditions is written exactly when every condition enclosing it evaluates to true for that render, at any nesting depth, through nested collections, and independently of its siblings' conditions. "
  "Attributes under conditions belong to the nearest enclosing element; nothing under a false condition is evaluated into output.",
  ["inputs", "programs", "histories"], "Every nesting of conditions, collections, attributes and contents within the depth bound, every truth assignment, and repeated renders with different assignments.",
  "Tests nest at most two conditions; cross-talk between sibling conditions needs particular depths and truth assignments.",
  ["conditional.go", "element.go"], "conditions accumulated down the tree by attributesAndContents; evaluated per render",
  [("conditionalAttribute.conditions", "the conditions enclosing an attribute")])

p("C06", "When(key) follows presence and boolean value of the key; !key negates it",
  "When(key) renders its nodes exactly when the key is present in the render data with a value that is not the boolean false; when the value is a boolean that boolean decides. "
  "When(\"!key\") renders exactly when When(key) would not, for every data map including a nil one.",
  ["inputs"], "Every key bytes within the bound, every data map shape within the bound (absent, nil value, true, false, any other type).",
  "Tests use a couple of fixed keys and values; negation must be the exact complement for every key and value type.",
  ["conditional.go"], "When builds a condition over the data map")

p("C07", "Rendering is deterministic",
  "Rendering the same node with equal data writes the same bytes every time: the order of attributes, contents and serialised maps never depends on map iteration order or on anything other than the tree and the data. "
  "The order is the declaration order (for maps of headers: sorted by key).",
  ["schedules", "inputs", "histories"], "Every map iteration order the runtime may choose, at every map range executed while building and rendering, for every truth assignment.",
  "A test sees one random iteration order per run and passes by luck on small maps.",
  ["element.go", "conditional.go", "imperative.go", "htmx/attributes.go"], "attribute order kept in slices; map iteration only where order cannot show")

p("C08", "Nodes are immutable templates: building and rendering never disturb shared nodes",
  "Once built, a node renders the same output for the same data however often it is rendered, and building or rendering any other node from it, or reusing it (or an attribute, value or argument slice) in several places, changes neither it nor the others. "
  "Rendering writes no memory reachable from the node, so any number of goroutines may render one node concurrently with their own contexts without data races.",
  ["schedules", "histories", "inputs"], "Every sharing pattern within the bound (shared attribute, delimited attribute, collection, conditional, whole subtree), every interleaving of two renders by the frame condition, every render history within the bound.",
  "Races and aliasing through spare slice capacity need particular sharing patterns and schedules that tests do not produce.",
  ["element.go", "attribute.go", "imperative.go", "conditional.go", "css/units.go"], "values and attribute slices shared between nodes; append aliasing",
  [("values slices", "shared between an attribute and the elements built from it")])

p("C09", "A failed write stops output for good and its error is reported",
  "If the writer fails on any write, the rendering call returns that first error (and the context keeps it), nothing more is written afterwards, and what was written is exactly a prefix of the fault-free output; a context that already carries an error writes nothing. "
  "An error returned by an imperative function or by a user-defined node, or put into the context by a function, is reported the same way and output after it stops; of several errors the first is reported, and when nothing fails, none is.",
  ["crash_points", "fault_sequences", "programs"], "Every position of the failing write, transient or permanent failure, short writes, in every node kind and nesting within the bound, also inside iterations and imperative blocks.",
  "Fault position times node kind is a large space; tests fail at most the first write of some node kinds.",
  ["context/context.go", "value.go", "element.go", "collection.go", "conditional.go", "iterate.go", "imperative.go", "html/document.go", "template.go"], "Context.Error, meant to hold the first error",
  [("Context.Error", "first error met during rendering")])

p("C10", "Iteration renders each item in order with its own data, cargo and parent",
  "Iterating renders the nodes once per item, in order, with the item as cargo, the item itself as data when it is of type map[string]any and the enclosing data otherwise, and the enclosing context as parent; it never changes the enclosing context's data or cargo, at any nesting depth. "
  "It behaves alike whether items come from a function, a data key holding any slice type, or a yielding function; a missing key, a non-slice value or an empty slice renders nothing, and attribute nodes among the nodes are ignored.",
  ["inputs", "programs", "histories"], "Every item sequence within the bound mixing maps and non-maps of every element type, every nesting depth within the bound, the three sources.",
  "Scoping errors show only for particular mixes and orders of item kinds and nestings.",
  ["iterate.go", "context/context.go"], "a child context per iteration")

p("C11", "Names are accepted exactly when they are valid",
  "Creating an element, void element, attribute, boolean attribute or delimited attribute by name succeeds exactly when the name starts with an ASCII letter and continues with ASCII letters, digits, '.', '_', '-' or ':' only; otherwise the constructor returns nil, or panics when panicking on invalid names is enabled. "
  "An accepted name is written unchanged and is reported by the node's Name; an element whose name is exactly that of an HTML void element (lower case) is created void.",
  ["inputs", "configurations"], "Every name byte string within the length bound (including invalid UTF-8, newlines and NUL), both settings of the panic switch.",
  "Tests try a few names; anchoring and character-class slips admit particular bytes (for instance a trailing newline).",
  ["aitch.go", "element.go", "attribute.go"], "a regular expression checked by each named constructor")

p("C12", "Dynamic values are taken from the context of each render",
  "A value given as a function or as a data key is computed anew from the context it is rendered with, in value order: a key writes the data entry of exactly that name, the key \".\" writes the cargo, a missing entry or one of an unsupported type writes nothing, and a function's bytes are written verbatim. "
  "It makes no difference whether it stands in text, attribute, comment, fragment or concatenated value; concatenated values are written in order with nothing between them.",
  ["inputs", "histories"], "Every key and data map within the bound, every value type, every position, and sequences of renders with different data.",
  "Tests render a few keys once; a stale or cross-wired lookup needs several renders and keys.",
  ["value.go"], "newValue wraps keys and functions into per-render functions")

p("C13", "Values of every supported type render as their documented text",
  "Booleans render as true or false, every integer type as its exact decimal value over its whole range, floats as the shortest decimal text that reads back to the same value of that width, byte slices verbatim, strings and Stringers escaped, and a func() any as its result; nil and unsupported types render as nothing. "
  "The same rules hold whether the value is given directly or read from data or cargo.",
  ["inputs"], "Every value of every supported type: all 8-bit values and all bit patterns of wider types within the encoding, directly and through data, cargo and func() any.",
  "Tests use a few small numbers; truncation or sign errors show only on extreme values of particular widths.",
  ["value.go"], "the type switch in valueToBytes")

p("C14", "Imperative building is balanced and agrees with declarative building",
  "In an imperative block each End closes exactly the most recently started, still open, non-void element, EndAll closes all open ones innermost first, End or EndAll with nothing open writes nothing, and a void start opens nothing. "
  "A start tag written imperatively carries the same attributes, values and delimiters as the same element built declaratively from the same attributes when all delimited values are non-empty, and text written as string is escaped while raw data is verbatim.",
  ["histories", "inputs"], "Every sequence of start, end, end-all, string, raw and node calls within the length bound; every attribute list within the bound.",
  "The operation sequences are unbounded; tests run a few fixed ones.",
  ["imperative.go"], "a stack of opened names in the imperative context",
  [("openedStack", "names of elements started and not yet ended")])

p("C15", "Nil arguments are ignored everywhere and never panic",
  "A nil node, nil value or nil content among the arguments of any element, attribute, collection, conditional, iteration, document or imperative call is skipped: building and rendering never panic and the output is the same as without the nil. "
  "A nil collector renders as empty, a nil condition renders unconditionally; only the iteration constructors with a nil function panic, at construction, as documented.",
  ["inputs", "programs"], "Every position of nils in every constructor's argument list within the bound.",
  "Each constructor treats its list separately; tests pass nil to only some of them and some positions.",
  ["collection.go", "conditional.go", "iterate.go", "element.go", "value.go", "imperative.go", "html/document.go"], "nil checks in each constructor and render loop")

p("C16", "Get finds a typed value in data, then cargo, and never panics",
  "Get returns the data entry for the key when it exists with the requested type; otherwise the entry of a string-keyed map cargo, or the exported field of a struct cargo (or of a pointer to either) of that name and type; otherwise the zero value and false, and it never panics whatever the context, cargo and key. "
  "MustGet returns the same value and panics exactly when Get reports false.",
  ["inputs"], "Every key within the bound and every cargo kind: nil, map types incl. named string keys, structs with unexported and embedded fields, typed nil pointers, scalars.",
  "Reflection panics hide behind cargo shapes and key names that tests do not try.",
  ["context/context.go"], "reflection over the cargo")

p("C17", "Every named HTML and SVG element constructor builds its own element",
  "Each element constructor of the html and svg packages builds an element with exactly the tag name it is named after (documented renamings aside), void exactly when HTML says so, passing all its contents through unchanged and in order. "
  "Void elements drop contents but keep attributes.",
  ["programs", "inputs"], "Every exported element constructor, with symbolic contents and attribute values.",
  "A copy-and-paste slip in one of several hundred constructors is invisible unless that one is checked with its exact name and contents.",
  ["html/elements.go", "svg/elements.go"], "one small function per element around the generic constructor")

p("C18", "Every named attribute constructor writes its own attribute with all its values",
  "Each attribute constructor of the html, svg and htmx packages produces an attribute with exactly the name it stands for (including data-, aria-, on and hx- prefixed ones) whose value is the concatenation, or for list-like attributes the delimited sequence, of all given values, escaped; boolean attributes produce the bare name. "
  "Every argument is used exactly once and in order. The htmx keyword constants hold the htmx keywords they stand for.",
  ["programs", "inputs"], "Every exported attribute constructor, with symbolic values and every option count within the bound.",
  "A wrong constant or dropped argument in one of several hundred constructors shows only with that constructor.",
  ["html/attributes.go", "svg/attributes.go", "htmx/attributes.go", "htmx/constants.go"], "one small function per attribute around the generic constructors")

p("C19", "CSS properties and units write exactly their name, values and unit",
  "Each CSS property constructor yields a style attribute declaring exactly property:values for its own property name, several declarations on one element being joined by \"; \"; each unit function yields its value immediately followed by its own unit. "
  "Neither changes the argument slice it is given. The css keyword constants hold the CSS keywords they stand for.",
  ["programs", "inputs"], "Every exported CSS property and unit function with symbolic values and up to three values, also when passed a caller-owned slice with spare capacity.",
  "Tests check each function once with one literal; aliasing through spare capacity is never tried.",
  ["css/properties.go", "css/units.go", "css/constants.go"], "NewConcatValue in a delimited style attribute")

p("C20", "htmx header maps serialise each header once, in key order, HTML-safely",
  "Header maps given to the htmx header attributes are written as one brace-enclosed list holding every header exactly once, in ascending key order, as 'key': value separated by a comma and a space, a later map replacing the values of an earlier one, and preceded by js: for the JavaScript form. "
  "Values follow the rules of all values, and neither keys nor values can end the attribute; building the attribute does not change the maps it was given. "
  "Header maps mixed with other kinds of value are refused with a panic; variables are written as name: value separated by a comma and a space.",
  ["inputs", "schedules"], "Every key and value bytes within the bound, every number of maps and entries within the bound, every map iteration order.",
  "Order depends on map iteration, escaping on particular bytes, merging on particular overlaps.",
  ["htmx/attributes.go"], "HeadersMap.serialize over sorted keys")

p("C21", "GenerateCode emits Go code that rebuilds the parsed document",
  "For any input markup the generated code is one balanced composite expression whose string literals decode exactly to the names, attribute values, texts, comments and doctypes of the token stream (texts of only spaces, tabs and line ends, and doctypes given to the svg generator, are left out; names the package has constructors for are built in their own case), so evaluating it builds that document, void elements and improperly nested or unclosed tags included (an end tag closes the nearest open element of its name and what is open within it, one without such is ignored, and the end closes the rest); no input can break out of a literal. "
  "Read and write errors are reported, and nothing follows a failed write.",
  ["inputs", "fault_sequences"], "Every markup in the bounded template grammar: element nesting, void and unknown elements, attribute keys and values, text and comment bytes; every failing write.",
  "Escaping faults need particular bytes in particular token positions, nesting faults particular tag sequences; tests feed one document.",
  ["html/generator.go", "svg/generator.go"], "token loop writing code with an escape helper and an indent counter")

p("C22", "Template execution places each node at its marker with the given data and cargo",
  "A template built from text and named nodes writes its static text unchanged (but for comments and stray less-than signs, which html/template itself drops or escapes) with every {{name .}} marker in text, attribute values or attribute position replaced by what that node renders with the execution's data and cargo, in order and to the given writer, and reports the first rendering error; an unknown marker is a construction error. "
  "Nil nodes in the map are ignored, and one template may be executed any number of times with different data.",
  ["inputs", "histories"], "Every static text and marker sequence within the bound, data, cargo and node values symbolic, every failing write.",
  "Tests execute two or three fixed templates once.",
  ["template.go"], "functions installed in html/template that render straight into the writer")

p("C23", "A document is a doctype and one html element holding head and body",
  "A document renders as <!DOCTYPE html> and a newline, then one html element (with the lang attribute exactly when a language is given) holding a head element exactly when head contents are given, and always a body element, each with its own contents in order. "
  "Non-breaking-space helpers return exactly n entities in fresh memory and nothing for n of zero or less.",
  ["inputs", "programs"], "Every combination of language, head and body content lists within the bound with symbolic values; every count.",
  "Tests render a few documents; absent and empty parts combine.",
  ["html/document.go", "html/elements.go", "text.go"], "Document assembles doctype, Html, Head and Body")

p("C24", "Collected, imperative and iterated content sees the render's own context",
  "A function given for dynamic content (collector, condition, iteration source, value, imperative block) is called with the context of the render in progress, the innermost iteration's one inside an iteration; those that yield content are called exactly once per rendering of their node, in document order, and conditions exactly when all enclosing ones hold; nodes it returns are rendered at that place, attribute nodes and nils among them being ignored. "
  "Functions under a false condition are not called.",
  ["programs", "histories"], "Every placement of dynamic functions in trees within the bound, every truth assignment and item count.",
  "Which context and how often is invisible in fixed single-level tests.",
  ["collection.go", "conditional.go", "iterate.go", "imperative.go", "value.go"], "ctx threaded through Render")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
