import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ops=lambda *n:["src/op/%s.rs"%x for x in n]
nodes=lambda *n:["src/nodes/%s.rs"%x for x in n]
p("C01","Every text is accepted: no panic, crash or endless loop",
 "For every text, tokenizing, parsing to events, building the document tree and printing that tree back all return normally: no panic, no arithmetic overflow or out-of-bounds slice, no crash and no non-termination, whatever characters, escapes, unclosed constructs or line endings the text contains. Nesting of the depth that real documents use (at least 100 nested collapsibles or 60 nested list levels) is handled on an ordinary 2 MiB thread stack, and so are documents and trees of tens of thousands of blocks, items or parts side by side.",
 ["inputs"],"all UTF-8 texts (arbitrary code points, lengths, unclosed and nested constructs)",
 "Unit tests run a few hundred fixed short texts and the fuzz target is not run by the suite; panics here come from index arithmetic, unwraps, slicing at non-character boundaries or loops without progress on unusual token combinations.",
 ["src/lexer/mod.rs","src/lib.rs"]+ops("parser","document","collapsible","highlight","to_yamd")+nodes("yamd"),
 [("progress assertions of the block loops","src/op/document.rs, src/op/highlight.rs"),("backtracking to a saved position on failure","src/op/parser.rs"),("to_yamd expects a well-formed stream","src/op/to_yamd.rs")],
 ["return of deserialize, parse, Lexer, Display"])
p("C02","Tokens partition the text and lose only escape backslashes",
 "For every text the token stream is in source order, tokens do not overlap and are never empty, their ranges lie on character boundaries, and the only bytes outside all tokens are the backslashes that escape the character after them (plus a lone backslash at the very end). After its last token the token stream stays exhausted, and every way of consuming it (one by one, skipping, counting, in parts, by its size hint) agrees on the same tokens.",
 ["inputs"],"all UTF-8 texts",
 "Lexer tests compare token lists for a handful of short, mostly ASCII texts; conservation has to hold for every interleaving of runs, escapes, multi-byte characters and line endings.",
 ["src/lexer/mod.rs","src/lexer/token.rs"],
 [("literal start/flush bookkeeping","src/lexer/mod.rs emit_literal_if_started"),("one-token delay queue for Terminator merging","src/lexer/mod.rs eol/advance")],
 ["Lexer iterator items: range"])
p("C03","Every character gets the documented token kind",
 "For every text, the kinds, extents and escape marks of the tokens follow the documented rules: longest runs of the repeatable markers, single brackets, parentheses, underscore and pipe, the two collapsible markers, exactly one line break per end-of-line, two adjacent ones merging into a terminator, leading space runs as space and everything else as literal text. A character after a backslash is always literal and starts a literal token that is marked as escaped.",
 ["inputs"],"all UTF-8 texts",
 "The kinds depend on neighbouring characters and on pending literal text, so every pair and triple of character classes matters; tests list a few of them.",
 ["src/lexer/mod.rs","src/lexer/token.rs"],
 [("dispatch on the current character with one character look-ahead","src/lexer/mod.rs parse"),("Eol+Eol merge","src/lexer/mod.rs eol")],
 ["Lexer iterator items: kind, range, escaped"])
p("C04","Token positions name the true byte, row and column",
 "For every text, each token's position gives the byte offset where the token starts, the number of line breaks before it as row, and the number of characters between the last line break and it as column, where a backslash that escapes a character counts for nothing and an escaped line break does not start a new line. This holds on any line, column and text size and for both line-ending styles.",
 ["inputs"],"all UTF-8 texts, including long lines, many lines, multi-byte characters",
 "Columns steer every block decision (markers count only at column zero); tests check positions on a few short lines, not for mixtures of escapes, multi-byte characters and CRLF or for large rows and columns.",
 ["src/lexer/mod.rs","src/lexer/token.rs"],
 [("position counter advanced per character, reset at line breaks","src/lexer/mod.rs next_char, eol")],
 ["Lexer iterator items: position"])
p("C05","The event stream is always balanced and grammatical",
 "For every text the event stream is an optional metadata node followed by exactly one document node; every start has its matching end in stack order, and each node contains only the children the format allows (for example title and destination exactly once in an anchor or image, two or more images in a gallery, one paragraph and at most one nested list in a list item, only text and the permitted styles inside bold). Adjacent text inside a paragraph, heading or bold node is delivered as one value.",
 ["inputs"],"all UTF-8 texts",
 "Streams are assembled with inserts, truncation and backtracking; a forgotten truncate or misplaced insert shows only for inputs that fail half-way inside particular nestings, of which tests sample few.",
 ["src/op/mod.rs"]+ops("parser","document","paragraph","bold","heading","images","list","collapsible","highlight","code","embed"),
 [("snapshot/truncate backtracking","src/op/*.rs"),("insert of late Start events at a saved index","src/op/images.rs, list.rs, paragraph.rs, heading.rs, bold.rs")],
 ["parse() result"])
p("C06","Events carry every piece of source text once and in order",
 "For every text, concatenating the contents of all events in order gives exactly the token texts of the source (the text without escaping backslashes), with the sole exception of the single line break directly before the marker that closes a collapsible. No piece is lost, repeated, or delivered out of order, also after failed attempts at a construct.",
 ["inputs"],"all UTF-8 texts",
 "Losing or duplicating a slice needs a specific failed or nested construct; tests compare streams of a few dozen texts.",
 ops("parser","document","paragraph","heading","bold","list","images","code","embed","collapsible","highlight","metadata"),
 [("every consumed token range becomes the content of one event","src/op/*.rs via Parser::span"),("cursor restored whenever events are truncated","src/op/*.rs")],
 ["parse() contents resolved against the source"])
p("C07","Event text is borrowed whenever it is contiguous in the source",
 "For every text, each event's content resolves to the token text it stands for, is a range of the source on character boundaries whenever that text is contiguous in the source, and is an owned string only when an escaping backslash has to be removed from its middle. Ranges handed out never contain an escaping backslash as text.",
 ["inputs"],"all UTF-8 texts",
 "Whether content is borrowed depends on where escapes fall relative to node boundaries; tests show a few cases only.",
 ["src/op/mod.rs","src/op/parser.rs"],
 [("escaped flag of tokens and contiguity test","src/op/parser.rs span, src/op/mod.rs from_tokens")],
 ["Content variants in parse() result"])
p("C08","Both APIs agree and malformed event streams are rejected",
 "For every text, the tree obtained directly equals the tree built from the event stream, through both the panicking and the fallible conversion, and it is the tree the events denote. The fallible conversion returns an error, and never panics, for every event stream whose starts and ends are unbalanced or do not match.",
 ["inputs","programs"],"all UTF-8 texts; all event streams derived from them by dropping, repeating, swapping, truncating or retagging events",
 "Tests feed hand-written streams of a few events; agreement and rejection must hold for every stream.",
 ["src/lib.rs","src/op/to_yamd.rs"],
 [("frame stack with one frame per open node","src/op/to_yamd.rs"),("error on mismatch","src/op/to_yamd.rs try_to_yamd")],
 ["deserialize, parse, to_yamd, try_to_yamd results"])
p("C09","Texts are cut into the blocks the format defines",
 "For every text, the sequence and nesting of blocks (heading with its level, paragraph, image, gallery, code with language and verbatim body, list, highlight, thematic break, embed with kind and arguments, collapsible) is the one the documented grammar gives: block markers count only at the start of a line, blank lines separate blocks, and anything that does not complete a construct is paragraph text. Image addresses and descriptions, code and embed payloads are taken over exactly.",
 ["inputs"],"all UTF-8 texts",
 "Block recognition depends on columns, exact run lengths, what follows a closing marker and the enclosing construct; tests cover each block in isolation plus a few documents.",
 ops("document","heading","images","image","code","embed","thematic_break","paragraph","title","destination","modifier","parser"),
 [("ordered attempts per block","src/op/document.rs"),("stop conditions for enclosing constructs","src/op/parser.rs")],
 ["deserialize() block structure"])
p("C10","Inline markup is recognised exactly where it is closed",
 "Within every paragraph, list item, highlight paragraph and heading the inline structure is the documented one: a style, code span or link exists exactly when its opening marker has the right length and its closing marker follows before the enclosing construct ends, its text is the text between the markers (links: balanced parentheses, or up to the last one), bold may contain only italic and strikethrough, headings only links. Everything else remains text, unchanged and in order.",
 ["inputs"],"all UTF-8 texts, in every enclosing construct",
 "Unclosed, overlapping and nested markers interact with the ends of lists, highlights, collapsibles and blank lines; tests try few combinations.",
 ops("paragraph","bold","italic","strikethrough","emphasis","code_span","anchor","title","destination","heading","parser"),
 [("attempt order and eat_until under stop conditions","src/op/paragraph.rs, src/op/parser.rs")],
 ["inline nodes in deserialize() result"])
p("C11","Lists nest by indentation and never mix kinds on a level",
 "For every text, list structure follows the documented rules: an item is a marker at the start of a line, indented by exactly its level and followed by exactly one space; levels start at zero and grow only by one, may drop to any open level, and the two kinds never mix within one list; a line that is not an acceptable item stays text of the current item. Every node's recorded level equals its real nesting depth, and a list ends at a blank line or the end of its enclosing construct.",
 ["inputs"],"all UTF-8 texts, all depths and mixtures of both kinds",
 "Which boundary ends an item depends on the whole chain of enclosing lists; tests cover depth two or three with one kind.",
 ops("list","parser","to_yamd","paragraph"),
 [("list boundary stop condition","src/op/parser.rs at_list_boundary"),("recursive item/list parsing","src/op/list.rs"),("level from nesting depth","src/op/to_yamd.rs count_list_depth")],
 ["lists in deserialize() result"])
p("C12","Collapsibles and highlights open, nest and close as documented",
 "For every text, a collapsible or highlight exists exactly when its opening line is well formed at the start of a line and its closing marker follows at the start of a line; titles and icons are the rest of their lines, nested collapsibles pair with their own closers, code inside is opaque to them, and their bodies hold exactly the blocks (collapsible) or paragraphs (highlight) between. An opener that is never closed is ordinary text and does not change how the text after it is read.",
 ["inputs"],"all UTF-8 texts, all nestings of both containers",
 "Failure is discovered only at the end of the text after arbitrary nested parsing and then undone; tests cover few such histories.",
 ops("collapsible","highlight","modifier","document","code","parser"),
 [("stop conditions for closers","src/op/parser.rs"),("undo on failure, opener demoted to text","src/op/collapsible.rs")],
 ["containers in deserialize() result"])
p("C13","Front matter is taken only at the start and verbatim",
 "A document has metadata exactly when its very first line starts with a run of exactly three dashes and another such run follows at the start of a line; the metadata is the text between them with escapes resolved and surrounding line breaks removed, whatever markup, blank lines or other dash runs it contains. Otherwise there is no metadata and the dashes are ordinary text; the body is what follows, read as if the front matter were not there.",
 ["inputs"],"all UTF-8 texts",
 "Tests use one or two small front matters; the rule must hold for any content, dash run lengths, escapes and line endings.",
 ops("metadata","to_yamd")+nodes("yamd"),
 [("metadata attempt before the document","src/op/mod.rs parse, src/op/metadata.rs")],
 ["metadata and body of deserialize() result"])
p("C14","Printing any parsed document and reparsing gives the same document",
 "For every text, printing the parsed document and parsing the printed text yields an equal document. In particular no text content of a parsed document is ever turned into markup, split, merged or dropped by saving and loading it, and saving it again produces the same text.",
 ["inputs"],"all UTF-8 texts",
 "The property tests of the suite generate restricted trees with one or two blocks; escapes, blank lines, containers and list items interact far beyond those.",
 nodes("yamd","paragraph","heading","bold","anchor","image","list","list_item","highlight","collapsible","code","embed","escape")+["src/lib.rs"],
 [("context-dependent escaping in every Display implementation","src/nodes/*.rs")],
 ["deserialize and Display"])
p("C15","Printing any well-formed tree and parsing it gives the tree back",
 "Every tree built through the node API within the documented limits (no empty inline bodies or adjacent texts, at least two images in a gallery, no text ending in a line break in list items and highlights, list levels equal to nesting depth) prints to a text that parses back to an equal tree, whatever characters its texts, titles, addresses, code and metadata contain.",
 ["inputs","programs"],"all trees within the documented round-trip limits, with arbitrary strings in every field",
 "The suite's property tests place restricted strings in single-block trees; field values that look like markup matter in every position and container.",
 nodes("yamd","paragraph","heading","bold","anchor","image","images","list","list_item","highlight","collapsible","code","code_span","embed","emphasis","italic","strikethrough","escape"),
 [("context-dependent escaping in every Display implementation","src/nodes/*.rs")],
 ["Display and deserialize"])
p("C16","A backslash makes any character plain text in every context",
 "Putting a backslash before every character of any string makes it plain text everywhere the format accepts text: in paragraphs, headings, list items, styles, links, images, code, embeds, titles, icons and metadata the parsed field contains exactly the original string, and the surrounding construct is recognised as usual. Backslashes never appear in parsed text unless escaped themselves. In any text whatever, an escaped character (line breaks apart) leads to the same document as a letter at its place would, with that character for the letter.",
 ["inputs"],"all strings times all text positions of the format",
 "Context-independent escaping is promised for every character and every construct; tests show a few pairs.",
 ["src/lexer/mod.rs","src/op/mod.rs","src/op/parser.rs"],
 [("escape handling in the lexer","src/lexer/mod.rs parse"),("materialised content","src/op/mod.rs from_tokens")],
 ["deserialize() result"])
p("C17","CRLF and LF texts give the same document",
 "Replacing every line break of a text by the two-character form (or mixing both forms) gives the same document up to the same replacement inside text that spans lines: same blocks, lists, containers and inline structure, the same titles, languages and metadata, and no stray carriage return at the end of any line-bounded or trimmed field.",
 ["inputs"],"all texts without escaped line breaks, all choices of line-ending style per line",
 "Tests use LF almost everywhere; each construct has its own handling of line ends.",
 ["src/lexer/mod.rs"]+ops("code","collapsible","highlight","embed","image","metadata","to_yamd")+nodes("code","yamd"),
 [("both forms lexed as one end-of-line token","src/lexer/mod.rs parse"),("trimming of line ends","src/op/to_yamd.rs")],
 ["deserialize() of both variants"])
p("C18","JSON serialization of documents and events is lossless and stable",
 "With serialization enabled, every document and every event stream converts to JSON and back to an equal value, and the JSON has the published shape: struct fields by name, each node or event wrapped in an object with its type and value. Field order, escapes and a binary self-describing format make no difference. JSON with a missing, renamed, mistyped or out-of-range field is refused or means what it says; it is never read as a different value.",
 ["inputs"],"all documents and event streams of all texts, and trees built through the API",
 "No test of the suite serializes documents with arbitrary content; one wrong attribute on one node type silently breaks stored documents.",
 ["src/op/mod.rs"]+nodes("yamd","paragraph","heading","bold","list","list_item","highlight","collapsible","code","embed","image","images","anchor"),
 [("derived Serialize/Deserialize with tag/content attributes","src/nodes/*.rs, src/op/mod.rs")],
 ["serde_json values"])
p("C19","Results depend on the text alone, on any thread and in any order",
 "Parsing and printing are pure: repeating a call, calling it after any history of other calls, in a fresh process, or from many threads at once gives identical results, never changes a previously returned value, and is free of undefined behaviour and data races. All returned text is valid UTF-8.",
 ["schedules","histories","inputs"],"all histories of calls, all thread schedules, all texts",
 "Each test makes one call on one thread; hidden state, caches or unsynchronised shortcuts show only over histories and schedules and under sanitizers.",
 ["src/lib.rs","src/lexer/mod.rs","src/op/parser.rs","src/op/to_yamd.rs"],
 [("no global or thread-local state, no unsafe code","src/**")],
 ["results of deserialize, parse, Display across calls, threads, processes"])
p("C20","Parsing and printing work grows polynomially, linearly for real documents",
 "Work (executed code edges plus allocated bytes) grows linearly with the number of blocks for documents made of complete blocks, and for arbitrary texts, including never-closed and deeply nested constructs, it stays within a small polynomial: doubling an input never multiplies the work without bound. There is no input family with exponential cost.",
 ["inputs"],"documents of n complete blocks, and families of hostile texts of growing size n",
 "Tests have no notion of cost; backtracking in nested containers becomes exponential or quadratic by one misplaced retry without failing any test.",
 ops("parser","document","collapsible","highlight","images","paragraph","destination","title","list","to_yamd")+["src/lexer/mod.rs"]+nodes("yamd"),
 [("failed collapsible openers are demoted to text so they are not retried","src/op/collapsible.rs flip_to_literal"),("scans end at stop conditions","src/op/parser.rs eat_until")],
 ["edge counter and allocation counter around each call"])
p("C21","Memory use is linear in the size of the text",
 "The peak of memory allocated while tokenizing, parsing, building and printing any text is bounded by a constant times its length plus a constant, and everything allocated is released when the results are dropped. Tokenizing alone needs only constant memory beyond the tokens it hands out.",
 ["inputs"],"all texts, sizes up to a megabyte, hostile families included",
 "Tests use tiny texts; copies kept per attempt or per nesting level show only on large or deeply nested ones.",
 ["src/lexer/mod.rs"]+ops("parser","to_yamd","collapsible")+nodes("yamd","collapsible","list"),
 [("ops truncated on backtracking","src/op/*.rs"),("lexer queue of bounded length","src/lexer/mod.rs")],
 ["counting allocator around each call"])
p("C22","Plain documented syntax parses to what it says and prints back unchanged",
 "A document written in the documented syntax with plain words, blocks separated by one blank line, parses to exactly the tree it denotes, and printing that tree reproduces the text byte for byte. This holds for every combination and nesting of blocks and inline nodes.",
 ["inputs","programs"],"all documents generated from the documented forms with plain words",
 "The suite checks this for one hand-written document per node plus two larger ones.",
 ["src/lib.rs"]+nodes("yamd","paragraph","heading","bold","list","highlight","collapsible","code","embed","images","anchor")+ops("document","list","highlight","collapsible"),
 [("Display writes the canonical form","src/nodes/*.rs"),("parser accepts it","src/op/*.rs")],
 ["deserialize and Display"])
p("C23","No word of the source is lost, repeated or moved in the document",
 "For every text, reading all text fields of the document in document order (metadata, titles, icons, languages, inline texts, link and image texts and addresses, code, embed kind and arguments) gives every letter and digit of the source exactly once and in source order. The same holds for the printed document.",
 ["inputs"],"all UTF-8 texts",
 "Tests compare trees of selected texts; loss or duplication happens in rare combinations, for example when an unfinished construct is undone or a field is overwritten.",
 ops("to_yamd","parser","highlight","collapsible","embed","code","list")+nodes("yamd"),
 [("every value event is stored in exactly one field","src/op/to_yamd.rs")],
 ["text fields of deserialize() result, Display"])
p("C24","token-stat reports the true token counts of a file",
 "For every readable UTF-8 file, the token statistics command prints the total number of tokens and, in descending order, the exact number of tokens of each kind that occurs, and nothing for kinds that do not occur. It leaves the file unchanged. What is missing, a directory or not UTF-8 is refused with a failing exit status and no counts.",
 ["inputs"],"all UTF-8 files",
 "The command line tool has no tests.",
 ["utils/src/commands/token_stat.rs","utils/src/main.rs","src/lexer/mod.rs"],
 [("fold of the token stream into counters","utils/src/commands/token_stat.rs")],
 ["stdout and exit status of the command"])
p("C25","random generates texts of the requested size for every setting",
 "For every requested length and maximum literal length, the random text command succeeds and prints a UTF-8 text of at least the requested number of bytes that exceeds it by less than one token, built from markers of every kind and literals within the given maximum. Its output is always accepted by the parser.",
 ["inputs","configurations"],"all argument values (lengths 0 to tens of thousands, all literal limits)",
 "The command line tool has no tests.",
 ["utils/src/commands/random.rs","utils/src/main.rs"],
 [("loop until the length is reached","utils/src/commands/random.rs")],
 ["stdout and exit status of the command"])
p("C26","A block means the same wherever it stands",
 "Putting an unrelated paragraph before or after a text, plain or with markup it leaves open, or enclosing a text that contains no collapsible markers in a collapsible, does not change how the text itself is read: its blocks appear unchanged in the result. Complete blocks printed one after the other, in any order and number, are read back as that same sequence.",
 ["inputs","histories"],"all texts (not ending or starting in a line break or dangling escape, without front matter), all sequences of complete blocks",
 "Tests parse blocks in isolation or in one fixed document; leaking parser state between blocks or containers shows only in combinations.",
 ops("document","parser","collapsible","list","highlight","code","embed"),
 [("stop conditions are scoped to their construct","src/op/parser.rs with_eof"),("cursor and events restored on failure","src/op/*.rs")],
 ["deserialize() results of the variants"])
p("C27","Printing any tree is total, compositional and stable",
 "Every tree that can be built from the public node types, also far outside the documented limits (any heading and list level, empty bodies and fields, single-image galleries, line breaks anywhere), prints without panic and always to the same text. A block or inline node prints the same through its enum as on its own and as a one-block document (up to one escaping backslash before a paragraph), bold text and code spans without content print nothing, no letter or digit of any field is lost, added or moved, and the print parses to a document that saving and loading no longer changes.",
 ["inputs"],"all trees of the public node types, including ill-formed ones",
 "Display tests print small well-formed nodes; empty, oversized and ill-formed nodes and the agreement between the ways to print a node are not exercised.",
 nodes("yamd","paragraph","bold","heading","list","list_item","highlight","images","code","embed","escape"),
 [("Display of the node enums delegates to the node","src/nodes/yamd.rs, src/nodes/paragraph.rs, src/nodes/bold.rs, src/nodes/heading.rs"),("escaping of texts that look like markup","src/nodes/escape.rs")],
 ["Display of every node type, deserialize"])
p("C28","Content of events resolves to exactly the tokens it is built from",
 "For every sequence of tokens of a text, adjacent or not and in any order, content built from it resolves to the concatenation of the token texts: as a range exactly when the tokens are adjacent and as an owned string otherwise. Borrowed and owned access, emptiness and the conversions used to build events agree, owned content does not depend on the source, and an event holds exactly the kind, node and content it was built with.",
 ["inputs"],"all texts, all sub-sequences of their tokens and rearrangements of them",
 "Tests build content from two or three hand-written tokens; gaps depend on escapes at every position of the sequence.",
 ["src/op/mod.rs"],
 [("adjacency test of neighbouring tokens","src/op/mod.rs Content::from_tokens"),("span from first to last token","src/op/mod.rs From<&[Token]>")],
 ["Content::from_tokens, as_str, to_string, is_empty, Op::new_*"])
p("C29","Documents, events and tokens have value semantics",
 "Two documents are equal exactly when every field of every node is equal, and equality is symmetric. A clone equals its original and changing it never changes the original; debug output tells different documents apart; building a document through constructors and conversions gives the same document as building it from its fields (code loses exactly its trailing, metadata exactly its surrounding line breaks). Events and tokens are equal exactly when kind, node, content, range and position are, and equal token kinds hash and print alike.",
 ["inputs"],"all documents, single changes of any part of them, all pairs of events or tokens of a text",
 "Every other test relies on equality; a comparison that ignores a field makes tests pass silently.",
 ["src/op/mod.rs","src/lexer/token.rs"]+nodes("yamd","paragraph","bold","heading","list","list_item","highlight","images","image","code","embed","anchor","collapsible"),
 [("derived or written PartialEq, Clone, Hash","src/nodes/*.rs, src/op/mod.rs, src/lexer/token.rs"),("constructors and From conversions","src/nodes/*.rs")],
 ["==, !=, clone, Debug, Hash, constructors"])
p("C30","A loaded document can be edited, saved and loaded again",
 "After loading any text and changing the document through the node API within the documented limits (replacing or extending any text field with any string, adding, removing, moving, copying or wrapping blocks, changing levels, list kinds, titles and icons), saving it and loading the saved text gives exactly the edited document, over any sequence of such load, edit and save rounds.",
 ["histories","inputs"],"all texts and sequences of edits with arbitrary strings",
 "Round-trip tests use fixed trees; an edit puts arbitrary strings next to whatever the loaded document contains.",
 nodes("yamd","paragraph","bold","heading","list","highlight","collapsible","images","code","embed","escape")+ops("document","list","highlight","collapsible","parser"),
 [("escaping depends on field, position and neighbours","src/nodes/escape.rs, src/nodes/paragraph.rs"),("parser reads back what Display wrote","src/op/*.rs")],
 ["deserialize, Display, equality"])
p("C31","Results are the same in every build of the crate",
 "Tokens, events, documents, printed texts and conversion errors of every text are the same whether the crate is built optimised or not, with or without debug assertions and overflow checks, with or without its serialization feature, and on 32-bit or big-endian machines. No result depends on code that only some builds contain, and no build panics where another one succeeds.",
 ["inputs","configurations"],"all texts, all build profiles and feature sets, several target machines",
 "The suite runs in one profile with one feature set on one machine; code inside assertions, wrapping arithmetic, conditional compilation and width-dependent casts behave differently elsewhere.",
 ["Cargo.toml","src/lib.rs","src/lexer/mod.rs"]+ops("mod","parser","document","list","to_yamd"),
 [("debug assertions in the document loop and conditional derives","src/op/document.rs, src/nodes/*.rs"),("counters and casts","src/lexer/mod.rs, src/op/list.rs, src/op/to_yamd.rs")],
 ["Lexer, parse, to_yamd, try_to_yamd, deserialize, Display in differently built programs"])
p("C32","Printing honours any writer and ignores formatting options",
 "Documents, blocks, inline nodes, list types, token kinds and the conversion error print the same text under every formatting option (width, fill, alignment, precision, sign, alternate form) as without. Printing into a writer delivers the text in order; when the writer fails at any point, printing stops at once and reports the error, does not panic, and what was written until then is a prefix of the text.",
 ["inputs","fault_sequences"],"all documents and trees, all formatting options, all points at which a writer fails",
 "The suite prints with to_string only: no options, and a writer that never fails.",
 nodes("yamd","paragraph","bold","heading","list","list_item","highlight","images","image","code","embed","anchor","collapsible","italic","code_span")+["src/lexer/token.rs"],
 [("errors of the formatter are propagated","src/nodes/*.rs Display"),("write! with own strings instead of delegation to padded output","src/nodes/*.rs, src/lexer/token.rs")],
 ["write! into a failing fmt::Write, format! with options"])
p("C33","Streams of events can be built and edited by hand",
 "Every stream that follows the grammar of events builds exactly the tree it describes, whoever made it: whether contents are owned or borrowed from any place of any source, texts of single-text nodes come in one value or in pieces, and whatever delimiters and separators carry (only a heading takes its level from its opening). Rearranging, repeating or removing complete blocks in the events of a text, wrapping them in a collapsible, taking off the metadata or moving them to a larger source changes the tree in just that way and nothing else.",
 ["inputs","histories"],"all trees written as events, all texts whose events are rearranged block-wise",
 "Tests convert the events parse() makes, or one or two hand-written events; programs that filter or generate events depend on everything the conversion assumes about them.",
 ops("to_yamd","mod"),
 [("frames collect values and children of their node","src/op/to_yamd.rs try_to_yamd"),("content resolves against the source or owns its text","src/op/mod.rs Content")],
 ["Op::new_*, Content, to_yamd, try_to_yamd"])
p("C34","Only the markers of the format mean anything: all other characters are alike",
 "Apart from line breaks, spaces, the backslash and the marker characters of the format, no character has a meaning: putting other such characters, of any script, width or kind (also digits, punctuation, control characters, other blanks), in the place of those of a text gives tokens of the same kinds at the same places, the same events, and the same document and print up to just these characters. This holds for every field: texts, titles, icons, languages, addresses, embed kinds and arguments, metadata.",
 ["inputs"],"all texts times all one-to-one choices of other plain characters",
 "Tests use a few ASCII letters; code that treats some character, script, case or byte width in its own way is seen only when exactly that character stands at exactly that place.",
 ["src/lexer/mod.rs"]+ops("parser","mod"),
 [("all characters without a meaning are literal","src/lexer/mod.rs parse"),("ranges are byte ranges of the source","src/op/mod.rs Content")],
 ["Lexer tokens, parse() events, deserialize() and its print"])
p("C35","Plain words mean nothing: their length and spelling do not change the structure",
 "Putting another word, of any length and spelling, in the place of any words of a text (maximal runs of characters without a meaning) leaves the sequence of tokens, the events and the structure of the document as they are, and the fields and the print say the new words where they said the old ones. No word, language name, embed kind, address, title or number is a keyword, and none is too short or too long.",
 ["inputs"],"all texts times all words at any choice of places",
 "Tests use a few words; keywords, limits and look-back distances in the code show only with the word or length they depend on.",
 ["src/lexer/mod.rs"]+ops("parser","mod","to_yamd"),
 [("runs of literal characters are one token","src/lexer/mod.rs parse"),("no node looks into its texts","src/op/to_yamd.rs")],
 ["Lexer tokens, parse() events, deserialize() and its print"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
