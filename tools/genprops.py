#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Entity resolvers are asked exactly once per reference, in document order",
"While a document is parsed or a text is expanded, the caller's entity resolver is asked exactly once for each named reference standing where references are recognised (character data, quoted attribute values, RCDATA sections, included sections; for parameter references, the keywords of a marked section), in document order and with exactly the name written; it is never asked about anything else (comments, declarations, processing instructions, unquoted values, CDATA and ignored content, valid numeric character references). "
"Each answer becomes data verbatim in the place of its reference: it is never rescanned for markup or references, trimmed, cached or reused for another occurrence, and the text around it and the order of all resulting events stay as written.",
["histories","inputs","configurations"],
"every document, every parser configuration, and every history of answers of a resolver whose answers change from call to call (including answers that look like markup, references, section ends, whitespace or nothing)",
"The tests use a handful of stateless lookups (one or two references per document); none records the call history, changes answers between calls, or puts references in every construct at once.",
["src/entities.rs","src/parser/mod.rs","src/parser/events.rs","src/parser/raw.rs","src/marked_sections.rs"],
[("reference scanner","src/entities.rs expand_entities_with"),("per-construct decision to expand or keep","src/parser/events.rs text/attribute/marked_section_body"),("backtracking that must not re-run resolvers","src/parser/events.rs content_item, prolog")],
["the calls the resolver closure receives","the events of the parsed fragment","the result of the expansion functions"])

p("C02","A refused reference fails the operation at once; nothing is lost silently",
"If the resolver does not know a reference (or no resolver was configured), the whole parse or expansion fails with an error that names that reference and the line where it stands; no resolver is asked anything further in that operation, and no partial or shortened result is ever returned instead. "
"An operation that fails leaves nothing behind: the same parser then handles any later document exactly as if the refusal had not happened.",
["fault_sequences","histories","inputs"],
"every position of the refused reference within the call history of every document and configuration, including references in attributes, nested included sections and section keywords, and every later use of the same parser",
"The tests refuse one reference in plain text in two examples; where the refusal lands inside an alternative the parser may back out of (attributes, included sections, prolog), recovery after it, and the absence of further calls are never exercised.",
["src/entities.rs","src/parser/mod.rs","src/parser/events.rs","src/parser/error.rs","src/error.rs"],
[("refusal turned into a non-recoverable failure","src/parser/events.rs prevent_recovery, src/parser/mod.rs into_nom_failure"),("error located at the reference","src/entities.rs EntityError.position, src/parser/error.rs describe_to")],
["the returned error and its description","the resolver's call history","later results of the same parser"])

p("C03","A panic in a caller's callback unwinds out unchanged and harms nothing else",
"If code supplied by the caller (entity resolver, error handler, logger, output sink, deserialization visitor or seed) panics at any of its calls, that very panic reaches the caller of the operation: the process is not aborted, the operation does not hang, retry or turn the panic into a normal result, and no callback of that operation is called again. "
"Parsers, fragments, events, errors, iterators and transforms the caller still holds are unchanged and give the same results afterwards, and operations running in other threads are unaffected.",
["crash_points","schedules"],
"every callback invocation of every operation as the crash point, alone and while other operations are in progress",
"No test panics inside a callback.",
["src/parser/mod.rs","src/parser/events.rs","src/entities.rs","src/de/mod.rs","src/text.rs","src/fragment.rs","src/parser/error.rs"],
[("no unwinding barrier, no state kept across operations","whole crate"),("callbacks take the parser by shared reference","src/parser/mod.rs ParserConfig.parse_rcdata")],
["the payload caught around the operation","results of the surviving objects"])

p("C04","Concurrent, nested and repeated operations do not influence each other",
"Any parse, expansion, normalization, edit, rendering, error description or deserialization gives exactly the result, and makes exactly the resolver calls, that it gives when run alone: whichever other operations are in progress in other threads (also over the same document or fragment), whichever operations its own callbacks start on the same parser or on other objects while it is in progress, and whatever was done before in the process, including operations that failed. "
"No operation waits for another one to finish.",
["schedules","histories","programs"],
"every interleaving, at callback granularity, of several operations over shared and private documents, every nesting of operations inside callbacks, and every preceding history",
"All tests run one operation at a time to completion on objects of their own.",
["src/parser/mod.rs","src/parser/events.rs","src/entities.rs","src/de/mod.rs","src/transforms/transform.rs","src/transforms/normalize_end_tags.rs","src/fragment.rs","src/text.rs"],
[("no shared mutable state","whole crate"),("parser configuration only read during a parse","src/parser/mod.rs ParserConfig")],
["results and resolver call histories of each operation"])

p("C05","Logging and the choice of error handler never change a result",
"Whether logging is off, at any level, or switched while an operation is in progress, and whatever the logger does with the records, every operation gives the same result. "
"Parsing with any error handler accepts exactly the same documents, yields the same events and makes the same resolver calls; the handler only decides how a failure is described.",
["configurations","schedules","inputs"],
"every document (valid, torn or damaged), parser configuration, deserialization target and error handler, and every sequence of log level changes at the points where the library logs",
"Tests run with one log setting and almost always one error handler; none compares outcomes across them.",
["src/de/mod.rs","src/parser/mod.rs","src/parser/events.rs","src/parser/raw.rs","src/parser/util.rs","src/parser/error.rs"],
[("trace!/debug! records","src/de/mod.rs"),("generic nom error parameter","src/parser/mod.rs parse_with_detailed_errors"),("error vs. failure decisions independent of the error type","src/parser/raw.rs, src/parser/events.rs")],
["results under each observer"])

p("C06","A failing output sink is reported; what it took is an exact prefix",
"When a fragment, an event, escaped text or an error description is written to a sink that fails at any of its writes, the operation returns an error, writes nothing more to that sink, and the sink has received an exact prefix of the complete rendering. "
"The rendered object is unchanged: writing it again to a working sink gives the complete rendering, the same as if no failure had happened.",
["fault_sequences","crash_points"],
"every fragment, event, text and error, and every write as the one that fails (fully or after part of it was taken), including repeated failures and retries",
"Tests only render to infallible strings.",
["src/lib.rs","src/fragment.rs","src/text.rs","src/parser/error.rs"],
[("error propagation from each write","src/lib.rs Display for SgmlEvent, src/fragment.rs Display, src/text.rs Display for Escape, src/parser/error.rs describe_to")],
["the sink's write log","the returned fmt::Error"])

p("C07","A document cut short is rejected or yields an exact prefix, never other data",
"If only an initial part of a valid document arrives, parsing it either fails or yields exactly the leading events of the complete document, where at most the last run of character data differs by being cut short (a reference cut in the middle may be read as a shorter one). "
"A cut inside a start tag, end tag, comment, processing instruction, declaration, quoted value or marked section (beyond its first delimiter characters, which on their own are text) is always an error; character data whose cut falls outside references is delivered exactly as far as it arrived.",
["crash_points","inputs"],
"every valid document, parser configuration and cut point",
"Tests contain about a dozen fixed unterminated constructs; they cannot cover each cut point of combined and nested constructs.",
["src/parser/raw.rs","src/parser/events.rs","src/parser/util.rs","src/parser/mod.rs"],
[("terminators required, failing without recovery","src/parser/util.rs take_until_terminated, cut() in src/parser/raw.rs"),("whole input must be consumed","src/parser/events.rs document_entity all_consuming")],
["the result of parsing the cut document"])

p("C08","Damaged documents are handled safely and fully accounted for",
"Whatever bit flips, lost, duplicated, swapped or spliced blocks a document (or the list of its events) suffered, parsing, normalizing, rendering, deserializing and describing errors all return (no panic, abort or endless loop) within work bounded by the document's size, and errors point inside the document. "
"If the damaged document is accepted, its events form complete start tags (open, attributes, close) and account in order for every character of the document: apart from comments, ignored sections and insignificant whitespace nothing is lost, and nothing is invented or repeated.",
["fault_sequences","inputs"],
"every sequence of storage or transfer faults applied to every document, under every parser configuration",
"Tests use fixed, almost always valid inputs; no test mutates a document or checks that accepted events account for the input.",
["src/parser/raw.rs","src/parser/events.rs","src/parser/util.rs","src/parser/error.rs","src/de/mod.rs","src/transforms/normalize_end_tags.rs","src/lib.rs"],
[("all_consuming document parser","src/parser/events.rs"),("failures instead of recovery inside delimited constructs","src/parser/raw.rs"),("character-boundary-safe error location","src/parser/error.rs LocatedLine"),("event validation at the cursor","src/de/mod.rs normalize_at_cursor")],
["events, errors and their positions","number of error-handler callbacks and CPU time"])

p("C09","A consumer's own error ends deserialization at once and is returned intact",
"If the consumer (a visitor, seed or key reader) fails at any of its callbacks with an error of its own, deserialization stops there: no further callback of that deserialization is made, and exactly that error, unaltered, is the result. "
"A deserialization whose consumer does not fail never reports an error the consumer raised in another one.",
["fault_sequences","crash_points"],
"every document tree, every way of consuming it, and every consumer callback as the failing one",
"Tests only deserialize with derived consumers that succeed, plus a few that fail on missing data.",
["src/de/mod.rs"],
[("error propagation through map, sequence and enum access","src/de/mod.rs MapAccess, SeqAccess, EnumAccess, do_map")],
["the returned error","the consumer's callback log"])

p("C10","Each value a consumer reads comes only from its own part of the document",
"However a consumer proceeds through a tag-valid document (reading an entry as text, number, flag, structure, sequence, enum or anything; ignoring it; or leaving a structure early), every value it is given is drawn only from the attribute or element that the entry names, complete and unaltered. "
"Each attribute and child element of a structure being read through is offered once, in document order (contiguous same-named elements consumed together by a sequence), and reading, ignoring or abandoning one entry never shifts, loses or repeats what is offered next.",
["programs","histories","inputs"],
"every element tree (attributes, text, nesting, repeated names) and every sequence of consumer decisions, including skips and early stops at each level",
"Tests deserialize about fifteen fixed types that read everything; consumers that skip, stop early or mix kinds of reading are not sampled.",
["src/de/mod.rs","src/de/buffer.rs"],
[("element stack and cursor","src/de/mod.rs SgmlDeserializer"),("text accumulation","src/de/buffer.rs, consume_text"),("skipping to the matching end","src/de/mod.rs pop_elt")],
["every callback argument the consumer receives"],
state=[("event cursor and element stack","position of the deserializer in the document","src/de/mod.rs SgmlDeserializer.events, .stack"),("pending map key","name of the element the next sequence or enum belongs to","src/de/mod.rs SgmlDeserializer.map_key")])

p("C11","Recorded edits apply exactly once, whatever the order they arrived in",
"Applying a set of recorded edits yields the original events in order without the removed ones, plus every inserted event exactly once: placed before the original event at its index (at the end if the index is at or past the end, lower indices first), and in the order of recording among insertions at the same index. "
"How editors interleave, duplicate removals, or abandon and resume recording, and whether edits are recorded into one transform or a copy taken midway, changes nothing else: the outcome depends only on which edits were recorded and on the recording order of insertions at the same index.",
["histories","schedules","fault_sequences"],
"every event list and every interleaving of recorded insertions and (repeated, out-of-range) removals, with copies taken at any moment",
"Tests apply five fixed edit lists.",
["src/transforms/transform.rs"],
[("stable sort of insertions, deduplicated removals","src/transforms/transform.rs apply")],
["the resulting fragment"],
state=[("recorded insertions and deletions","edits not yet applied","src/transforms/transform.rs Transform")])

p("C12","Paused, copied and resumed iteration yields each item exactly once",
"The iterators the library hands out (escaped text; the events of one parsed item) yield the same sequence of items however the caller pulls them: item by item, in bulk, through a copy taken midway, alternating between copies, or after a pause. "
"At every moment the remaining-length bounds they announce hold for what is actually still to come (exactly, where an exact length is announced), a copy continues from the point where it was taken, displaying one shows what remains without consuming it, and after the end nothing more is ever yielded.",
["schedules","histories","inputs"],
"every text or item and every schedule of pulls, copies, bulk reads and displays",
"Tests compare a few complete traversals and three length hints taken at the start.",
["src/text.rs","src/parser/events.rs"],
[("escape state machine","src/text.rs Escape::next, size_hint"),("three-part event iterator","src/parser/events.rs EventIter")],
["items, length hints and renderings at each point"],
state=[("escape_buffer","pending characters of an escape sequence","src/text.rs Escape"),("start, middle, end, middle_next","events not yet yielded","src/parser/events.rs EventIter")])

p("C13","What was stored reloads as the same document, or is recognisably incomplete",
"A document rendered completely to storage reloads, with character references enabled and whitespace kept, as the same declarations, tags, attributes and character data it was rendered from (declarations preceding content; blanks before the content are insignificant, adjacent runs of text become one), and so does any further store and reload. "
"If storing was interrupted at any point, reloading what reached storage either fails or yields exactly a leading part of the document (with at most the last run of character data cut short, a reference cut in its middle possibly being read as a shorter one, and the first delimiter characters of a cut tag being text), never anything else; every event that reached storage completely is delivered if the reload succeeds.",
["crash_points","fault_sequences","histories"],
"every document, and every crash point of one or more store operations",
"Tests render a few events to fixed strings and never read a rendering back, let alone a partial one.",
["src/lib.rs","src/fragment.rs","src/text.rs","src/entities.rs","src/parser/raw.rs","src/parser/events.rs"],
[("escaping on output","src/lib.rs Display for SgmlEvent, src/text.rs"),("reference expansion on input","src/entities.rs")],
["events before storing and after reloading"])

p("C14","Nesting and length of a document never exhaust the stack",
"Parsing, normalizing, editing, rendering, escaping, expanding and skipping over parts of a document work within a small fixed amount of stack however long the document is and however deeply its elements, marked sections and declarations nest, and so does describing an error. "
"They end with a normal result or error, never with a stack overflow.",
["inputs","configurations"],
"every document shape (nesting depth, number of siblings, attributes, references, comments, declarations; length of text) and every available stack size from a small fixed minimum on",
"Tests never nest more than about ten levels and always have a full-sized stack.",
["src/parser/raw.rs","src/parser/events.rs","src/parser/util.rs","src/de/mod.rs","src/transforms/normalize_end_tags.rs","src/transforms/transform.rs","src/fragment.rs","src/entities.rs","src/text.rs"],
[("loops instead of recursion","src/parser/raw.rs marked_section_body_ignore, src/de/mod.rs pop_elt, src/transforms/normalize_end_tags.rs")],
["process survival on threads with small stacks"])

p("C15","Lost end tags of text elements are restored; other damage is never hidden",
"If any of the end tags of text-only elements are lost from a properly nested event stream (elements named differently from the element directly enclosing them, with only blank text between the lost end tag and the next tag), end tag insertion restores the original stream exactly, up to blank text at the place where the tag was lost. "
"For any other stream of complete tags it reports an empty tag or an end tag that closes nothing, or returns a properly nested stream in which every original event remains in order and only end tags were added (self-closing tags becoming a start and an end tag); a properly nested stream without self-closing tags comes back unchanged. Even for events torn out of their tags every event stays, in order, and only end tags are added.",
["fault_sequences","inputs"],
"every event stream and every loss, duplication and reordering of its events",
"Tests normalize eight fixed documents.",
["src/transforms/normalize_end_tags.rs","src/transforms/transform.rs"],
[("reverse scan pairing end tags with start tags","src/transforms/normalize_end_tags.rs")],
["the resulting fragment or error"])

p("C16","Operations give back what they take",
"Once the value an operation returned and the builders, parsers and consumers handed to it are dropped, the library holds no more memory than before, however the operation ended - with a value, with an error, with a refusal of a resolver, sink or consumer, or by a panic of a callback - so that repeating it any number of times, on the same document or on ever different ones, does not make the process grow. "
"While it runs, what it holds at once stays in proportion to the size of its input, the answers it received and the edits it was given, and what it requests in total does too: no input of some kilobytes makes it take gigabytes.",
["fault_sequences","inputs","histories"],
"every document, chain of operations, callback failure, and number of repetitions",
"Tests run each operation once and never look at memory.",
["src/parser/events.rs","src/entities.rs","src/parser/error.rs","src/transforms/transform.rs","src/de/buffer.rs"],
[("owned values only, no global state","src/parser/mod.rs Parser"),("buffering of contents","src/de/buffer.rs"),("insertions gathered before they are applied","src/transforms/transform.rs")],
["memory held before, during and after the operation"])

p("C17","No value comes from an element whose tags do not pair up",
"When an element of an event list is read and all of it is consumed or skipped - as text, number or flag, as a structure or variant read through or left early, as anything, or ignored - a value is returned only if every start tag within the element has its own end tag (or is self-closing), of exactly the same name and properly nested; if an end tag was renamed, lost, repeated, moved, exchanged with another or cut off, however deep inside and also in parts the consumer skipped, an error is returned instead. "
"An element whose tags do pair up can always be skipped and read as text.",
["fault_sequences","inputs","programs"],
"every event list, damage to its tags, and consumer",
"Tests deserialize documents whose tags pair up.",
["src/de/mod.rs"],
[("stack of open elements, compared at each end tag","src/de/mod.rs SgmlDeserializer::pop_elt")],
["value or error"])

p("C18","Deserialization never leaves out a marked section it cannot read",
"When a fragment still contains marked sections kept unmodified, no consumer is given a value put together from the rest: wherever character data in the place of the section would have had an effect on what the consumer is given (in an element read as text, number, flag, option, newtype, anything, enum or sequence, in a structure's own text, at any depth), an error is returned instead. "
"In parts the consumer skips, leaves or reads no text from, such a section changes nothing that it is given, and neither do processing instructions and declarations anywhere within the content: the values are those of the fragment without them, or an error is returned.",
["fault_sequences","inputs","programs"],
"every event list, every place at which an earlier stage left such events, and every consumer",
"Tests deserialize one unsupported event, in one place, in one way.",
["src/de/mod.rs"],
[("unsupported events rejected when the cursor reaches them","src/de/mod.rs SgmlDeserializer::normalize_at_cursor"),("look-ahead that decides how an element is read","src/de/mod.rs SgmlDeserializer::peek_content_type")],
["what the consumer is given","value or error"])

N="A pure function of the input: no schedule, fault, history or callback decides it."
def n(id,title,statement,over,text,why,files,mech,observe): p(id,title,statement,over,text,why,files,mech,observe)
n("N01","Documents are read by the documented SGML grammar",
"A document is accepted exactly when it follows the supported SGML grammar, and each construct yields the event that describes it.",
["inputs"],"every string","Tests sample a few dozen strings.",["src/parser/raw.rs","src/parser/events.rs"],[("combinators","src/parser/raw.rs")],["events"])
n("N02","Name normalization applies to all tag and attribute names and nothing else",
"With lower- or upper-case normalization, every tag and attribute name is converted by the Unicode rules, and no other text is.",
["inputs","configurations"],"every document","Tests use ASCII names in two documents.",["src/parser/mod.rs","src/parser/events.rs"],[("normalize","src/parser/mod.rs NameNormalization")],["events"])
n("N03","Whitespace trimming removes exactly the whitespace surrounding character data",
"With trimming on, each run of character data loses exactly its leading and trailing space, tab, carriage return and line feed characters, blank runs yield no event, and attribute values are untouched; with trimming off nothing is removed.",
["inputs","configurations"],"every document","Tests sample a few runs.",["src/parser/mod.rs","src/text.rs"],[("trim","src/parser/mod.rs ParserConfig::trim")],["events"])
n("N04","The status of a marked section is its highest-priority keyword",
"Among the keywords of a marked section IGNORE wins over CDATA, CDATA over RCDATA and RCDATA over INCLUDE and TEMP, regardless of case, order and repetition; an unknown keyword is an error.",
["inputs"],"every keyword list","Tests sample four lists.",["src/marked_sections.rs"],[("from_keywords","src/marked_sections.rs")],["section status"])
n("N05","Equivalent notations deserialize to equal values",
"An entry deserializes to the same value whether written as an attribute or as a child element, a flag in any of its documented notations, and a fieldless enum as text, attribute or tag name.",
["inputs","programs"],"every type and value","Tests compare one type.",["src/de/mod.rs"],[("deserializer","src/de/mod.rs")],["values"])
n("N06","Error descriptions show the line, column and text where the error occurred",
"The description of a parse error gives the right line number, shows that line (shortened around the column when long) and puts the marker below the right character.",
["inputs"],"every document and error position","Tests check fixed lines.",["src/parser/error.rs"],[("LocatedLine","src/parser/error.rs")],["description"])
n("N07","Ignoring declarations or instructions removes exactly those events",
"Parsing with markup declarations or processing instructions ignored gives the events of the plain parse without those of that kind.",
["inputs","configurations"],"every document","Tests check one document.",["src/parser/events.rs"],[("EventIter::cond","src/parser/events.rs")],["events"])
n("N08","Unmodified text is borrowed from the source, not copied",
"Event contents and deserialized strings that need no change refer to the source text itself.",
["inputs"],"every document","Tests check one string.",["src/parser/events.rs","src/de/mod.rs"],[("Cow","src/lib.rs")],["addresses of strings"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
