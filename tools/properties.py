import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":mech}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The parser accepts exactly its HTML dialect, with the right error",
"Template::from_str succeeds exactly on the texts of the library's HTML dialect (balanced case-insensitively matched ASCII tag names, double-quoted or valueless attributes separated by whitespace, void tags without closing tag, optional whitespace inside tags, comments up to the first '-->', '<!doctype html>', and script/style/title/textarea contents taken verbatim up to their own closing tag). Every other text is rejected with the error variant that describes its first defect, carrying the names and identifier problem of the offending construct. Nothing is ever silently dropped, repaired or reinterpreted.",
["inputs"],"all input texts: generated documents, their mutations, token soups, and every short sequence of the dialect's tokens",
"The tests parse a few dozen hand-picked strings; acceptance and the error chosen depend on every combination of constructs, whitespace, letter case and nesting.",
["src/parse.rs","src/input.rs","src/text/identifier.rs"],"Iter::next dispatches on the input prefix; Input cursor operations; stack of open tags; raw text search")

p("C02","Rendering a parsed template reproduces its content in canonical form",
"Displaying a template parsed from a text yields the same sequence of texts, raw texts, comments, tags and attributes in the same order, with the spelling of names and all text, comment, raw and attribute-value characters unchanged. Only formatting inside tags is normalised: one space before each attribute, ' />' for self-closed tags, no slash on void tags, '<!doctype X>' and no whitespace in closing tags. Nothing else is added, lost, decoded or re-encoded.",
["inputs"],"all parsable texts, of all shapes and sizes",
"Tests compare a handful of small documents; loss, reordering or re-encoding can depend on any content, size or combination.",
["src/parse.rs","src/event.rs","src/template.rs","src/text/encoded.rs"],"parser events -> Display of Event, Attributes, Attribute, Encoded")

p("C03","Parsing the rendered output gives the same template again",
"For every template parsed from text, parsing its rendered output succeeds and gives a template equal to the first one, which renders to the identical text. A template and its re-parsed rendering behave alike under every transformation. (Elements named '!doctype' or '!--...' are a recorded exception, see the known findings.)",
["inputs","programs"],"all parsable texts, and transformations applied to both generations",
"Round-trip laws quantify over all documents; no test parses rendered output.",
["src/parse.rs","src/event.rs","src/template.rs"],"Display for Template / Template::from_str")

p("C04","No input or sequence of operations makes the library panic",
"Parsing any text with any options, and applying any sequence of transformations with any arguments to any template, ends with Ok or Err and never with a panic or overflow. This also holds for user-defined streams whose event sequences are not well formed, and after a stream has returned an error or its end.",
["inputs","programs","fault_sequences"],"arbitrary unicode texts and option values; random operation programs with valid and invalid arguments; user streams that drop, repeat or reorder events or keep being polled",
"The code contains expect/unreachable/index sites guarded by invariants; tests exercise only well-formed streams.",
["src/parse.rs","src/input.rs","src/location.rs","src/event.rs","src/modifier/mod.rs","src/modifier/apply.rs","src/modifier/repeat.rs","src/modifier/select/mod.rs"],"unwrap/expect/unreachable sites, State::step, Location arithmetic")

p("C05","Parse errors point at the exact source position of the construct",
"Every location in a parse error is the position where the construct it names starts: a 1-based line (lines end at line feeds), a 1-based column counted in characters, and a 0-based byte offset on a character boundary of the input. Tags, comments and doctypes are located at their '<', offending identifiers at their first character, attribute values at the character where the opening quote is or should be, and mismatched or missing closing tags also give the location of the opening tags, innermost first and then the others from the outermost inwards. The three coordinates always agree with each other.",
["inputs"],"all rejected texts, with multi-byte characters, line breaks of all kinds, and errors at any depth and distance",
"The existing tests assert locations for single-line ASCII snippets only.",
["src/location.rs","src/input.rs","src/parse.rs"],"Location advance over consumed text; locations stored with stack entries and errors")

p("C06","Parse limits are enforced exactly and never affect inputs within them",
"With a maximum input length set, a text longer than that many bytes is rejected with a length error and any other text is treated as if there were no limit; with a maximum stack depth set, an input is rejected with the stack limit error (carrying the tag, its location and the limit) exactly when, before any other defect, an element would be opened while that many elements are open, where void and self-closed elements never count. Removing a limit accepts everything the dialect allows. Option builder methods change only their own setting, the last call wins, and the default limits are unchanged by other settings.",
["inputs","configurations"],"all texts and all combinations of limits, especially at and one off the limit",
"Tests try one length and one depth; off-by-one and ordering mistakes need limits swept against inputs.",
["src/parse.rs","src/template.rs"],"Options, from_str length check, push onto the parser's stack")

p("C07","Reading a template file equals parsing its contents",
"Template::from_file gives the same template, or the same parse error, as Template::from_str on the file's text with the same options, whatever the file's size and wherever characters fall relative to read buffers. A missing or unreadable file, contents that are not valid UTF-8 and a file longer than the maximum input length (in bytes) are each rejected with the error variant for it, and every error names the path. With a length limit set, reading stops once the limit is exceeded, so endless input also ends in the length error.",
["inputs","configurations"],"all file contents and sizes (especially around buffer boundaries), limits and faults while opening, reading and decoding",
"The tests never open a file larger than a few bytes nor a faulty one.",
["src/template.rs"],"Template::from_file read loop, FileError")

p("C08","Text inserted through the API is always encoded, exactly once",
"Whenever text enters a template as content or attribute value through any text type or string (static, borrowed or owned), its '&', '<', '>' and '\"' appear in the output as '&amp;', '&lt;', '&gt;' and '&quot;' and all other characters appear unchanged, so it can never create or close markup. Markup in parsed templates, and texts that are already encoded inside values of the text types, are never encoded again, however often they are combined, cloned or transformed. Decoding the output therefore gives back exactly the inserted text.",
["inputs","programs"],"all strings and all routes by which text can enter a document",
"The encoding tests use one fixed string on one or two routes; safety must hold for every string and route.",
["src/text/encoded.rs","src/text/base.rs","src/text/deferred.rs","src/text/data.rs","src/text/value.rs","src/content.rs","src/modifier/attribute.rs"],"Encoded/Deferred text, IntoValue and IntoStream implementations")

p("C09","Identifiers are validated everywhere and compared ignoring ASCII case",
"A name is accepted as identifier exactly when it is a non-empty ASCII text without whitespace and without any of = \" / > < & , ; (the handling of single quotes is not specified); otherwise the error says whether it is empty, not ASCII, contains whitespace or a forbidden character, checked in this order and carrying the first such character. The same rule applies wherever a name enters: parsed tags and attributes, tag, id and class selectors, attribute, class and id arguments, and created elements. Identifiers are equal exactly when they differ at most in ASCII letter case and always display in their original spelling.",
["inputs"],"all strings, in particular every single character at every position, on every route taking a name",
"Tests check a few bad characters on one route; a hole in one route or one character suffices to break it.",
["src/text/identifier.rs","src/select.rs","src/template.rs","src/modifier/attribute.rs","src/input.rs"],"Identifier::from_str validation and PartialEq; IntoIdentifier")

p("C10","Selectors match exactly the elements they describe",
"A tag selector matches elements with that tag name, an id selector elements with an id attribute whose whole value is that id, a class selector elements with that class among the whitespace-separated names of a class attribute, and a combined selector (tag#id.class... text or class list) elements that satisfy all its parts in any order; all comparisons ignore ASCII case, and names never match by prefix, substring or across attributes of other names. Opening, void and self-closed tags match alike; texts, comments, doctypes and closing tags never match. The same selector given as text, typed value, reference, shared pointer or Ok result matches the same elements.",
["inputs"],"all elements (with repeated, valueless, oddly spaced attributes) against all selectors in all forms",
"Tests cover a few positive cases per selector; exactness needs both directions over arbitrary attributes.",
["src/select.rs","src/event.rs"],"Selector implementations, Static selector parser, Attributes::has_id/has_class")

p("C11","select transforms every outermost match, and nothing else",
"select applies the builder to every element matching the selector at any depth that is not inside another matched element, exactly once each and in document order, giving the builder exactly that element with its complete contents. Everything that is not part of a match is passed on unchanged, and each match is replaced in place by whatever its builder produced, which is not searched again by the same selection. With no match the output equals the input.",
["inputs","programs"],"all documents, selectors and builder results (removed, repeated, replaced, nested selections)",
"Tests use fixed documents of a few elements; nesting of matches in matches and position arithmetic need arbitrary trees.",
["src/modifier/select/select_any.rs","src/modifier/select/mod.rs","src/modifier/select/element.rs","src/transform.rs"],"Select state machine, depth tracking while an element is current")

p("C12","The _once selections transform only the first match",
"select_once, select_direct_once, subselect_once and subselect_direct_once apply the builder to the first element, in document order, that their unlimited counterparts would transform, and at most once per stream they are applied to. All later matching elements, including ones after or inside the first, are passed through unchanged. In repeated or nested use each application has its own first match.",
["inputs","programs"],"all documents and selectors; once-selections alone, chained, nested and inside repetitions",
"Tests use one or two matches at one level.",
["src/modifier/select/select_any.rs","src/modifier/select/select_direct.rs","src/modifier/select/subselect_any.rs","src/modifier/select/subselect_direct.rs"],"once flag / done state of the selection streams")

p("C13","Direct and sub selections respect the element structure",
"select_direct considers only elements at the top level of the stream it is applied to; subselect considers all elements inside the current element, subselect_direct only its direct children, and neither ever considers the current element itself. subselect_contents applies its builder exactly once to the current element's contents, and the element's own tags stay outside of it. Sub selections leave void elements untouched and open up self-closed ones, whose contents are empty.",
["inputs","programs"],"all trees and selectors, at every nesting depth",
"Direct-child detection is depth arithmetic over event streams; tests have at most three levels.",
["src/modifier/select/select_direct.rs","src/modifier/select/subselect_any.rs","src/modifier/select/subselect_direct.rs","src/modifier/select/select_contents.rs"],"depth counters, SelectContents stream")

p("C14","Content operations change exactly the contents of the element",
"remove_contents, prepend_contents, append_contents and replace_contents leave the element's tag and attributes alone and change its contents to nothing, to new content followed by the old, to the old followed by the new, or to the new content. Void elements are left unchanged, and a self-closed element becomes an opening and closing tag pair of the same name around the resulting contents, even when these are empty. Nested elements of the same name never confuse the extent of the contents.",
["inputs","programs"],"all elements, contents and inserted streams, alone and in chains",
"Tests check each operation on tiny elements once.",
["src/modifier/remove.rs","src/modifier/prepend.rs","src/modifier/append.rs","src/modifier/replace.rs","src/modifier/mod.rs","src/modifier/select/select_contents.rs"],"Expand, SelectContents, Combine")

p("C15","prepend, append, replace and remove act on the whole stream, once",
"On any stream, prepend puts the new content once before everything, append once after everything, replace leaves only the new content and remove leaves nothing; on a selected element they act at the place of that element, inside its parent. The existing and the inserted content are otherwise unchanged and in order. This holds for empty streams, for elements of every kind and for streams produced by other operations.",
["inputs","programs"],"all streams and contents",
"Tests check single small examples.",
["src/modifier/remove.rs","src/modifier/prepend.rs","src/modifier/append.rs","src/modifier/replace.rs","src/modifier/mod.rs"],"Combine, Replace, Remove streams")

p("C16","Attribute operations have exactly their documented effect",
"Adding appends an attribute even if the name exists; setting removes all attributes of that name and appends one; replacing the value if it exists does the same but only if the name exists; removing drops all of that name; adding to an attribute appends separator and value to the first attribute of that name, gives a valueless one just the value, and appends a new attribute if there is none. Names compare ignoring ASCII case; the removed and appended attributes aside, order, spelling and values of all others stay the same. Only the element itself is affected, never its contents, siblings or later elements, and its kind (opening, void, self-closed) stays as it is.",
["inputs","programs"],"all attribute lists (repeated names, mixed case, valueless), names, values and sequences of attribute operations",
"Tests use at most two attributes; order and repetition effects need arbitrary lists.",
["src/modifier/attribute.rs","src/event.rs","src/transform.rs"],"AddAttribute, SetAttribute, ReplaceAttribute, AddToAttribute, RemoveAttribute, Attributes")

p("C17","Class and id operations edit exactly the named class or id",
"add_class appends the name to the first class attribute after a space (giving a valueless one just the name, and creating the attribute if absent); remove_class removes every occurrence of the class, ignoring ASCII case, from every class attribute, leaving the other names of an affected attribute in order separated by single spaces, and dropping an attribute whose last name was removed; class attributes without the class stay untouched. set_id removes all id attributes and appends one with that value; remove_id removes all id attributes. After add_class, set_id, remove_class or remove_id the corresponding selector matches or does not match accordingly.",
["inputs","programs"],"all attribute lists and class values with arbitrary spacing, case and repetition",
"Tests use simple class lists.",
["src/modifier/attribute.rs","src/event.rs","src/transform.rs"],"RemoveClass, AddToAttribute with class, SetAttribute with id, Classes iterator")

p("C18","Repetition yields one transformed copy per item, in order",
"repeat replaces the stream by one copy per iterator item, each built from the unchanged original with its own item, in iteration order; repeat_contents does the same with the contents of an element inside its unchanged tags. No items give no copies (an element with empty contents for repeat_contents), and the _or_else variants then apply the alternative builder to the complete original stream instead, and only then. Each item is passed to the builder exactly once, and the iterator is not consumed beyond its first end.",
["inputs","programs","histories"],"all streams, item sequences (empty, long, iterators without size hint or that resume after their end) and builders, nested",
"Tests repeat two or three items with simple builders.",
["src/modifier/repeat.rs"],"Repeat state machine with buffered events, RepeatOrElse peeking the iterator")

p("C19","Conditional and boxing operations are transparent",
"apply, apply_as_boxed, apply_as_boxed_element, into_boxed, into_boxed_element and apply_as_template give the same result as chaining the builder's operations directly. apply_if runs its builder only if the condition holds and otherwise changes nothing; apply_if_else, apply_with_option and apply_with_result run exactly the branch for the given condition or value, once, with the contained value, and the other branch not at all.",
["inputs","programs"],"all documents and programs, with these wrappers at arbitrary positions",
"Tests check each wrapper once with a trivial builder.",
["src/transform.rs","src/modifier/apply.rs"],"Api::apply*, ApplyEither, TemplateApply")

p("C20","Operations compose in the order they are written",
"Applying a chain of operations in one transform gives the same template (or the same failure) as applying them one after the other in separate transforms, so each operation sees exactly the output of the ones before it. The result of any combination of nested builders equals what the operations mean individually on the document tree. Transforming with no operation gives an equal template.",
["inputs","programs"],"all documents and random programs over the complete API, nested and chained",
"Lazy streams of nested state machines interact; tests combine at most two operations.",
["src/transform.rs","src/template.rs","src/modifier/mod.rs","src/event.rs"],"Template::transform, the chain of modifier streams")

p("C21","A failing argument or stream fails the transform, only if it is reached",
"A transform that reaches an invalid selector, an invalid identifier, failed content or a stream error returns exactly that error and no template; an error that lies in a branch, repetition, selection or unused content that is never reached has no effect. An invalid selector counts as reached as soon as its selection is part of the executed chain, even if the stream is empty; an invalid name when its operation is applied to some element; content when it is inserted (which never happens in void elements). No valid program fails.",
["programs","fault_sequences"],"all programs with one invalid argument planted at every position, and user streams failing at every event",
"Tests plant one failure per operation at the top level; propagation through each layer of nested lazy streams is untested.",
["src/modifier/mod.rs","src/event.rs","src/content.rs","src/select.rs","src/transform.rs","src/modifier/apply.rs","src/modifier/repeat.rs"],"Fallible, State::step, StreamError conversions")

p("C22","Transform output is well-formed markup",
"Every template produced by transforming parsed templates renders to a text that parses again, with the same elements, attributes and nesting, provided that operations put nothing but plain text into script, style, title or textarea elements. Rendering that parsed result gives the identical text, so no operation ever unbalances tags, breaks quoting or merges markup. (Names with single quotes and elements named '!doctype' or '!--...' are recorded exceptions, see the known findings.)",
["inputs","programs"],"all documents and random programs over the complete API",
"No test parses output again.",
["src/event.rs","src/template.rs","src/modifier/mod.rs","src/modifier/select/mod.rs"],"events produced by all modifiers, Display")

p("C23","Templates are immutable values: transforming is pure and repeatable",
"Transforming a template, inserting it into others or rendering it never changes it, nor any template or value used as argument, and templates stay usable and unchanged after failed transforms, and after a panic of user code in the middle of one. Doing the same transform again, on the template or on a clone, also concurrently interleaved with other transforms of shared parts, gives an equal result. Clones and templates derived from one another are independent.",
["programs","histories"],"all histories of transforms, insertions, clones, failures and interleaved use over a pool of shared templates",
"Templates share reference-counted storage; tests use each template once.",
["src/template.rs","src/event.rs","src/text/encoded.rs","src/modifier/repeat.rs"],"Rc shared event vectors, shared attribute and text storage")

p("C24","Inserted content appears exactly as given",
"Content of every supported kind (templates by value, reference or shared pointer, text values and data by value or reference, static strings, all integer types, user-defined streams and Ok results of these) appears at its place completely, in order and exactly once per insertion. Integers appear in their plain decimal form over their whole range. All kinds can be used in every operation that takes content or, for values, in every attribute operation, with the same outcome as an equal text or template.",
["inputs","programs"],"all content kinds and values in all content-taking and value-taking operations",
"Tests insert static strings nearly everywhere.",
["src/content.rs","src/text/value.rs","src/text/data.rs","src/template.rs"],"IntoStream and IntoValue implementations")

p("C25","Equality means equal content, independent of how it was made",
"Two text values or data values are equal exactly when their content is equal, no matter whether it was static, borrowed, owned, parsed, converted or cloned; identifiers are equal exactly when they differ at most in ASCII letter case; and templates are equal exactly when they have the same sequence of texts, raw texts, comments, doctypes, tags and attributes with equal content (names compared ignoring ASCII case), no matter whether they were parsed, created, cloned or transformed. Equality is reflexive, symmetric and transitive, and clones are equal to their originals. Values converted between the text types keep their content.",
["inputs"],"all pairs of values from all construction routes, equal or differing in one place",
"Tests compare values made the same way.",
["src/text/encoded.rs","src/text/deferred.rs","src/text/base.rs","src/text/data.rs","src/text/value.rs","src/event.rs","src/template.rs"],"PartialEq implementations")

p("C26","Created elements are exactly the requested element",
"Template::with_element gives a template of one element with the given name, without attributes or contents, self-closed or void according to its name ignoring case; invalid names are rejected with the identifier error. Template::with_transformed_element gives the same as transforming that template with the builder, with failures of the builder reported. Created elements behave in all operations like the same element parsed from text.",
["inputs","programs"],"all valid and invalid names (all void elements in all spellings) and builder programs",
"Tests create one or two elements.",
["src/template.rs"],"Template::with_element, with_transformed_element")

p("C27","Error messages name the right things in the right roles",
"The displayed message of an error, together with the messages along its cause chain, names the data the error carries (offending tags, attribute, character, class position, path, limit, and location as line, column and byte offset) in their right roles, for example which tag was open and which one was found instead. The cause chain of an error leads to the error that caused it, down to identifier, parse and I/O errors. Errors with different data differ somewhere along these messages (of several missing closing tags, only the innermost has its location shown).",
["inputs","fault_sequences"],"all errors reachable through parsing, files, selectors, identifiers and transforms, with arbitrary names",
"No test looks at a message or a cause.",
["src/parse.rs","src/event.rs","src/select.rs","src/template.rs","src/text/identifier.rs","src/location.rs"],"Display and Error implementations")

p("C28","Documents and results of any size and depth are handled",
"Documents with very deep nesting, very many siblings, attributes or classes, or very long texts are parsed, rendered, selected in, transformed and dropped with the same results as small ones, on a normal thread stack. Repetitions may have very many items, and chains of operations may run over very large documents. Sizes never change the meaning of an operation.",
["inputs"],"documents and repetitions whose dimensions range over several orders of magnitude, well beyond 100000",
"Tests use tiny documents only; recursion per node, fixed-size counters or buffers would go unnoticed.",
["src/parse.rs","src/template.rs","src/event.rs","src/modifier/repeat.rs","src/modifier/select/mod.rs","src/modifier/select/element.rs"],"iterative parser, streams with shared state, counters for depth")

p("C29","The types allow element operations exactly where there is one element",
"Operations that need a single element (attributes, contents, sub selections) compile exactly on streams that are known to consist of one element: those given to selection builders, and what attribute, contents and sub-selection operations and applications preserving the element return. After an operation that may give anything else (remove, replace, prepend, append, select, repeat, apply_as_boxed, apply_as_template) they are rejected at compile time, while stream operations are available everywhere. A builder cannot let its stream escape from the transform it belongs to.",
["programs"],"all chains of API operations, typed or ill-typed",
"A test that compiles cannot show that a wrong program does not; the crate has no compile-fail tests.",
["src/transform.rs","src/event.rs","src/builder.rs","src/modifier/mod.rs","src/modifier/apply.rs"],"ElementStream bounds and impls, Api lifetime parameter")
p("C30","User code runs only within the transform, and not after a failure",
"Building a chain of operations runs nothing but the builders of the apply operations (except apply_as_template): builders of selections and repetitions are called, items of iterators taken, and content streams read only while the transform itself runs, after the builder given to it has returned. Once an inserted content stream has returned an error, or an operation of some element's builder fails, the transform ends without calling another builder, taking another item or reading another stream. A content stream is never read again after its end. (A user stream that itself ignores errors is outside of this.)",
["programs","fault_sequences"],"all programs whose builders, iterators and content streams note their calls, with failures at every place",
"Tests use closures and streams without side effects, and look at results only.",
["src/modifier/mod.rs","src/modifier/repeat.rs","src/modifier/apply.rs","src/modifier/select/mod.rs","src/modifier/select/element.rs","src/transform.rs","src/template.rs"],"State::step, Fallible, Repeat and Select state machines, Template::transform")
p("C31","Rendering writes the same complete text to every writer",
"Displaying a template writes exactly its text, whatever pieces the writer is given it in and whatever the options of the format string (width, precision, fill, flags) are. When the writer fails, rendering stops at once and reports the failure, with a beginning of the text written and nothing after the failing piece. Rendering a template several times, also within one format string, gives the same text each time. Displaying events, text values, names and errors (including their causes) reports failures of the writer in the same way.",
["inputs","fault_sequences"],"all templates and error messages, all writers failing at any of their calls or after any number of bytes, all format options",
"Tests render into strings without options only; a string never fails.",
["src/template.rs","src/event.rs","src/text/encoded.rs","src/text/deferred.rs","src/text/base.rs","src/parse.rs","src/select.rs","src/location.rs"],"Display implementations")

p("C32","User-defined selectors decide alone, asked once per element in order",
"A selection with a user-defined selector transforms exactly the elements for whose opening, void or self-closed tag the selector answers yes, with the same scope rules as built-in selectors. It is asked about every element that could be selected exactly once and in document order, with the element's complete tag, and about no element inside a selected one, below the level of a direct selection, outside the current element of a sub selection, or after the match of a _once selection, so that selectors may keep state. When it answers yes to something else (a text, comment or doctype), the transform fails with an assertion error. Selectors given as reference, shared pointer or Ok result behave the same.",
["inputs","programs"],"all documents, selections and patterns of answers, with predicates on the tag or on the position",
"Tests use the built-in selectors only, which have no state and never match anything but elements.",
["src/select.rs","src/modifier/select/mod.rs","src/modifier/select/element.rs","src/modifier/select/subselect_any.rs","src/modifier/select/subselect_direct.rs","src/transform.rs"],"Selector trait and its impls, Select and SelectOnce")
p("C33","Using the library leaves nothing behind",
"Memory that the library allocates is freed when the templates, values, errors and streams it belongs to are dropped, whatever was done before: doing the same work again and again (parsing, reading files, transforms that succeed, fail, are dropped half way or are left by a panic of user code, creating elements, values and names, rendering, comparing) does not let memory in use grow with the number of times, and neither does work on ever different data. Files are closed when they have been read, also after errors.",
["inputs","programs","histories"],"all documents, programs, failures and histories of templates sharing contents",
"Tests look at results only; memory and handles left behind show in none of them.",
["src/template.rs","src/event.rs","src/parse.rs","src/transform.rs","src/modifier/mod.rs","src/modifier/repeat.rs","src/text/base.rs","src/text/identifier.rs","src/select.rs"],"ownership (Rc, tendrils, boxed streams), file reading")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
