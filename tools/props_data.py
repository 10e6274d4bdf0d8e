TRUST = "Trusts rustc's MIR and trait resolution, the fact dumper and the rule engine; dependencies are judged by their callee names only."
prop("X01", "Safe API: no input can cause undefined behaviour",
  "No script text, edit sequence or render request can make the library read or write outside an object, use freed memory, race or build an invalid string: everything outside the opt-in libass comparison bridge is expressed in checked operations only. There is no unchecked indexing, unchecked UTF-8 conversion, raw-pointer access or mutable global anywhere in the three crates.",
  ["inputs", "histories", "configurations"], "every input and call sequence, in every feature set (the libass FFI bridge excepted)",
  "An unchecked access misbehaves only for the inputs that leave its bounds; a passing test says nothing about the others, and undefined behaviour can pass a test silently.",
  ["crates/ass-core/lib.rs", "crates/ass-editor/lib.rs", "crates/ass-renderer/src/lib.rs"],
  [("lint deny(unsafe_code) and safe code throughout", "crate roots"), ("FFI confined to debug::libass", "crates/ass-renderer/src/debug/libass")],
  "effect analysis over type-checked bodies: unsafe-region inventory of every body in three feature sets",
  "Complete for workspace source in the three analysed feature sets: every unsafe region rustc sees is enumerated. Macro expansions of std and dependencies are trusted.", level="other")
prop("X02", "Parsed scripts are unchanging views that threads can share",
  "What parsing and analysis return is an unchanging view of the given text: its text values are borrowed from the source rather than copied, nothing in it can change through a shared reference, and nothing is leaked so as to outlive it. Parsed scripts, analyses, renderers and whatever else is meant for several threads can be moved to and shared with other threads in every feature set.",
  ["schedules", "configurations", "inputs"], "every script, every thread that shares it and every feature set",
  "A type stops being shareable, or starts copying or caching, without any test failing unless a test moves exactly that type to a thread in that feature set.",
  ["crates/ass-core/parser/script/container.rs", "crates/ass-core/parser/ast/mod.rs", "crates/ass-core/analysis/mod.rs", "crates/ass-editor/core/thread_safety/sync_document.rs", "crates/ass-editor/sessions/manager.rs"],
  [("borrowed syntax tree", "crates/ass-core/parser/ast"), ("locks around shared editors", "crates/ass-editor/core/thread_safety, crates/ass-editor/sessions")],
  "type walk over all fields; rustc's own auto-trait verdicts per type and feature set; leak inventory",
  "Send and Sync are rustc's verdict. That a borrowed value is a slice of the source and not a constant follows from its lifetime except for constants. The editor's lock wrappers around a document are a known finding. " + TRUST)
prop("X03", "Library code touches the outside world only via caller-named paths",
  "Parsing, analysing, editing, converting or exporting a script reads no environment variable, starts no process and opens no network connection. A file is opened only by an operation whose caller named that path, and only that path: never one taken from the script's content or built in.",
  ["inputs", "histories", "configurations"], "every script and every sequence of core and editor operations",
  "An ambient access can hide behind any rarely taken branch; tests run in one environment and do not observe it.",
  ["crates/ass-core/lib.rs", "crates/ass-editor/lib.rs", "crates/ass-editor/utils/formats/file_io.rs"],
  [("file I/O only in from_file/save_to_file/import/export wrappers", "crates/ass-editor")],
  "effect analysis over the call graph plus value slices of path operands",
  "Every external call site of both crates is classified by callee name; path operands are sliced interprocedurally. " + TRUST)
prop("C01", "Core results depend on the arguments alone",
  "Parsing, tokenizing, analysing, linting, serialising or incrementally updating the same script gives the same result every time, in every process and on every thread. Nothing depends on clocks, randomness, hash-map iteration order, memory addresses, the environment or earlier calls on unrelated scripts.",
  ["inputs", "histories", "schedules"], "every input, every earlier call history and every thread or process",
  "Nondeterminism shows only in another process (hash seeds), at another time or after another history; a test compares a result with one expectation in one run.",
  ["crates/ass-core/lib.rs", "crates/ass-core/plugin/registry.rs", "crates/ass-core/utils/hashers.rs"],
  [("ordered containers or sorting wherever order is observable", "crates/ass-core")],
  "effect analysis over the call graph: nondeterminism sources and ambient state, hash-order dataflow",
  "Over-approximates calls (dyn and unresolved trait calls expand to every implementation); sources are recognised by callee name, statics by type. " + TRUST)
prop("R01", "A frame is a function of script, time, size and installed fonts",
  "Rendering the same script at the same time and size gives the same pixels, event selection and bitmap list in every process and on every thread. Nothing rendered depends on clocks, randomness, hash-map iteration order, memory addresses, environment variables (other than to find fonts) or files other than fonts.",
  ["inputs", "histories", "schedules"], "every script, time and size; every process, thread and earlier history",
  "Two runs in one test process share hash seeds, allocator state and environment, so a dependence on any of them is invisible there.",
  ["crates/ass-renderer/src/renderer/mod.rs", "crates/ass-renderer/src/renderer/event_selector.rs", "crates/ass-renderer/src/pipeline/build/run.rs"],
  [("ordered emission, content-keyed caches", "crates/ass-renderer/src/renderer"), ("process-wide font database", "crates/ass-renderer/src/pipeline/font_loader.rs")],
  "effect analysis over the call graph: nondeterminism sources and ambient state, hash-order dataflow",
  "Over-approximates calls through dyn backends and pipelines; memo tables and mode cells are accepted here and decided by R03 and R04. " + TRUST)
prop("R02", "What one render leaves behind never shows in the next one",
  "A renderer that has drawn other scripts, times or sizes draws a frame exactly as a fresh renderer would. Every piece of per-script or per-frame state the renderer, its pipeline and its backend carry from call to call is overwritten before a render reads it, unless it is a lookup table whose entries are determined by their key or is reused only after comparing what it was built from with the current arguments.",
  ["histories", "inputs"], "every sequence of renders of any scripts, times and sizes on one renderer",
  "A stale field shows only for a particular pair of consecutive scripts (one sets it, the next relies on the default); tests use a fresh renderer for almost every case.",
  ["crates/ass-renderer/src/renderer/mod.rs", "crates/ass-renderer/src/pipeline/build/run.rs", "crates/ass-renderer/src/pipeline/build/mod.rs", "crates/ass-renderer/src/backends/software/mod.rs"],
  [("state reset at the start of preparation", "crates/ass-renderer/src/pipeline/build/run.rs"), ("scratch pixmaps refilled before use", "crates/ass-renderer/src/backends/software")],
  "interprocedural field-state dataflow: exposed reads versus must-writes per frame operation",
  "Field-sensitive summaries over MIR with dyn dispatch expanded; memo tables must pass the key-completeness analysis of R03, conditional reuse must be guarded by a comparison of stored state with arguments (what the comparison covers is not proved complete here). " + TRUST)
prop("R03", "A render cache never answers for different inputs",
  "Every value a renderer cache hands out is the value that would be computed afresh: whatever a cached shape, outline, coverage mask, blur tile or image is computed from is part of its key, in full precision, or fixed for the cache's lifetime. No key component is rounded, truncated, case-folded or shortened.",
  ["inputs", "histories"], "every pair of requests that ever meet in one cache",
  "A missing key component matters only when two requests agree on everything else; tests render one script at a time and start from cold caches.",
  ["crates/ass-renderer/src/backends/software/cache/mod.rs", "crates/ass-renderer/src/backends/software/text/blur.rs", "crates/ass-renderer/src/pipeline/shaping/shape.rs", "crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs"],
  [("content keys with exact float bits", "crates/ass-renderer/src/backends/software"), ("per-thread shape cache", "crates/ass-renderer/src/pipeline/shaping/shape.rs")],
  "value-dependence slicing: inputs of each cached value versus inputs of its key, restated through callers",
  "Over-approximating value slices (explicit flow plus branch conditions on constants); an input that decides whether the entry is stored at all is accepted as settled by that test. One genuine defect is listed as known finding. " + TRUST)
prop("R04", "A bitmap-list render leaves no mode behind",
  "Producing a frame as a list of bitmaps, whether it succeeds or fails, leaves nothing behind that changes how later frames on that thread are drawn: the mode it switches on is off again on every way out, and canvases swapped for it are swapped back. What mode-aware drawing code would blend into the frame it hands to the list instead, without dropping any of it.",
  ["histories", "crash", "inputs"], "every sequence of frame and bitmap-list renders on one thread, with a failure at any layer",
  "A mode left on needs a failing layer in a bitmap render followed by an ordinary frame on the same thread; no test does that.",
  ["crates/ass-renderer/src/backends/software/mod.rs", "crates/ass-renderer/src/backends/software/cache/mod.rs", "crates/ass-renderer/src/backends/software/cache/blur_tile.rs"],
  [("thread-local sink of bitmaps", "crates/ass-renderer/src/backends/software/cache/mod.rs"), ("install and take around each layer", "crates/ass-renderer/src/backends/software/mod.rs")],
  "interprocedural typestate of thread-local mode cells and swapped fields over every exit; must-pass of the hand-over",
  "Unwinding is not tracked: a panic inside a layer is outside the property. That both modes give the same pixels is not decided. " + TRUST)
prop("C02", "No text, position or range makes the core panic",
  "Whatever text, position, range or chunk it is given, the core parses, tokenizes, analyses, lints or updates it, or returns an error: it never panics. Every piece cut from a text starts and ends on character boundaries inside it, every index is below the length, no subtraction goes below zero, no sum or product exceeds its type, and no absent value is unwrapped.",
  ["inputs", "histories"], "every text (multi-byte, truncated, unbalanced, hostile numbers), every position and range argument",
  "A slice off a character boundary or an unguarded subtraction fails only for the rare text that reaches it; the tests' scripts are mostly ASCII and well formed.",
  ["crates/ass-core/parser/mod.rs", "crates/ass-core/tokenizer/ass_tokenizer.rs", "crates/ass-core/analysis/events/tags/parser.rs", "crates/ass-core/utils/time.rs", "crates/ass-core/parser/incremental/section_bounds.rs"],
  [("no unwrap, checked arithmetic, boundary-rounded positions", "crates/ass-core"), ("parsers recover instead of failing", "crates/ass-core/parser")],
  "abstract interpretation of MIR: difference bounds, text lengths, character boundaries and option states",
  "A site whose operands depend on conditions outside the domain, on private fields, or on several loop variables at once is counted as undecided and raises no alarm; explicit panic! calls and machine-size sums are outside. " + TRUST)
prop("C05", "Style columns mean the same to every reader and writer",
  "Wherever a style line is read - full parse, single-line parse, streaming, editing, rendering - each value lands in the attribute its column names, found by case-insensitive name in the section's Format line or in the standard order. Whatever writes or copies styles, or lists the standard columns, uses the same names and order, so no attribute is ever swapped with or dropped in favour of another.",
  ["inputs", "programs"], "every style line, every Format line and every path a style takes through the three crates",
  "Twenty-three columns times a dozen readers, writers and copies: a swapped or misnamed pair shows only when exactly those two columns differ from each other on that path.",
  ["crates/ass-core/parser/sections/styles/parse_internal.rs", "crates/ass-core/parser/sections/styles/parse_line.rs", "crates/ass-core/parser/ast/style/conversion.rs", "crates/ass-editor/core/builders/style_build.rs", "crates/ass-renderer/src/pipeline/build/style.rs"],
  [("column lookup by Format line", "crates/ass-core/parser/sections/styles"), ("owned copies and resolved styles", "crates/ass-core/analysis/styles, crates/ass-renderer/src/pipeline/build/style.rs")],
  "value-dependence slices of every style field written, tests guarding every field read in writers, constant column lists",
  "Fields whose source the slice cannot name (setters, computed values) are counted as undecided, not alarmed on. " + TRUST)
prop("C06", "Event columns and kinds mean the same to every reader and writer",
  "Wherever an event line is read, each value lands in the attribute its column names, found by case-insensitive name in the section's Format line or in the standard order, and its keyword (Dialogue, Comment, Picture, Sound, Movie, Command) gives its kind; a margin of its own takes the place of its style's margin of the same side. Whatever writes, copies or edits events, or lists the standard columns, uses the same names, keywords and order.",
  ["inputs", "programs"], "every event line, every Format line and every path an event takes through the three crates",
  "A swapped pair of columns or keywords shows only when exactly those differ on that path; tests mostly leave margins, name and effect at their defaults.",
  ["crates/ass-core/parser/sections/events/event_data.rs", "crates/ass-core/parser/sections/events/static_parser.rs", "crates/ass-core/parser/ast/event/serialization.rs", "crates/ass-editor/core/builders/event_build.rs", "crates/ass-editor/commands/event_commands/helpers.rs"],
  [("column lookup by Format line", "crates/ass-core/parser/sections/events"), ("positional readers of the editor", "crates/ass-editor/commands/event_commands/helpers.rs")],
  "value-dependence slices of every event field written, tests guarding every field read in writers, constant column lists",
  "Fields whose source the slice cannot name are counted as undecided, not alarmed on; how a line is split at commas is not decided. " + TRUST)
prop("C07", "Serialising a script writes everything it holds",
  "Turning a script, a section, an event, a style or an owned copy of a section back into text writes every section in order, every item of each section and every value of each item, under the header and format line that reading the text back expects. Nothing is filtered, shortened, reordered or left out because of its content, and an owned copy carries the same content as what it was made from.",
  ["inputs", "programs"], "every script, and every way of turning one or a part of one into text",
  "A dropped section, item or value shows only for scripts that have that item with a value that matters; tests serialise one or two small scripts and look for substrings.",
  ["crates/ass-core/parser/script/serialize.rs", "crates/ass-core/parser/script/delta.rs", "crates/ass-core/parser/ast/event/serialization.rs", "crates/ass-core/parser/ast/style/conversion.rs", "crates/ass-core/parser/ast/section/section_enum.rs"],
  [("section writers", "crates/ass-core/parser/script/serialize.rs"), ("owned copies in deltas", "crates/ass-core/parser/script/delta.rs")],
  "value-dependence slices: every held value reaches the text; no dropping adaptors; writes controlled only by structure; constant headers per section kind",
  "Whether the text parses back to an equal script is decided as far as order, headers, columns and completeness; escaping and number formatting are not. " + TRUST)
prop("C08", "Every part knows the same section headers",
  "Full parsing, streaming, incremental re-parsing and the editor recognise the same section headers - including all three spellings of the styles section - and take each for the same kind of section. No part treats a section that another part understands as unknown, as another kind, or as a continuation of the section before it.",
  ["inputs", "programs"], "every script and every part of the system that looks for section headers",
  "A header only one part knows makes two parts disagree about the same file; tests exercise each part with the common headers only.",
  ["crates/ass-core/parser/main/section.rs", "crates/ass-core/parser/streaming/state/section_kind.rs", "crates/ass-core/parser/incremental/section_bounds.rs", "crates/ass-core/parser/script/incremental.rs", "crates/ass-editor/core/document/delta_sections.rs"],
  [("header dispatch", "crates/ass-core/parser/main/section.rs"), ("header lists of the incremental paths", "crates/ass-core/parser/incremental/section_bounds.rs")],
  "control-dependence labels of string tests versus section kinds chosen or built; constant header lists and tables",
  "Searches for a single header spelled out in place are not decided. " + TRUST)
prop("C09", "A delta is exactly the difference in content",
  "The difference computed between two scripts lists a section as changed, added or removed exactly when its content differs or it exists on one side only; sections that merely moved within the file are not reported. Every value of every kind of section takes part in the comparison, in full, and what is reported as new comes from the new script and what is reported as gone from the old one.",
  ["inputs", "programs"], "every pair of scripts",
  "A comparison that leaves one value out, compares lengths only or takes the wrong side shows only for a pair that differs in just that; tests compare a handful of pairs.",
  ["crates/ass-core/parser/script/delta_eq.rs", "crates/ass-core/parser/script/delta.rs", "crates/ass-core/parser/ast/section/section_enum.rs", "crates/ass-core/parser/ast/style/mod.rs"],
  [("content equality without spans", "crates/ass-core/parser/script/delta.rs")],
  "equality-coverage analysis: every content field compared with its counterpart; polarity of each result; origin of each reported section",
  "Matching of repeated sections is checked for using content and kind, not for minimality. " + TRUST)
prop("C11", "While tracking is on, every change to a script is recorded",
  "With change tracking enabled, every operation that changes a script through the script - updating a line, adding, changing or removing sections, styles, events or header fields, batches - records that change, in order, and an operation that changes nothing or fails records nothing. A record tells what was there and what is there now, and records stay until the caller clears them or switches tracking.",
  ["histories", "inputs"], "every script and every sequence of changes made while tracking is on",
  "An operation that forgets its record on one branch is noticed only by someone who compares the list with that very change; tests track two or three kinds of change.",
  ["crates/ass-core/parser/script/mutate.rs", "crates/ass-core/parser/script/update.rs", "crates/ass-core/parser/script/batch.rs", "crates/ass-core/parser/script/types.rs"],
  [("record calls next to each change", "crates/ass-core/parser/script/mutate.rs"), ("the tracker", "crates/ass-core/parser/script/types.rs")],
  "interprocedural typestate of writes to a script's sections versus change records; slices of recorded data; effects on the record list",
  "Deltas applied by re-parsing replace the script and are out of scope. That a record describes the change is decided by where its values come from. " + TRUST)
prop("C12", "Every built-in rule, tag handler and processor takes part, once",
  "Every built-in lint rule, override-tag handler and section processor is available under its own distinct name, exactly once, and whatever registers the built-ins registers all of them. A registry stores an item under its own name and refuses a second item of that name; the linter runs every rule its configuration enables, keeps all issues up to a configured limit (none when the limit is zero), and each issue carries the name of the rule that found it.",
  ["programs", "configurations", "inputs"], "every built-in item, every registration path and every lint configuration",
  "A rule or handler missing from a list, or shadowed by another of its name, makes no test fail unless a test looks for that one; lint limits and switches multiply.",
  ["crates/ass-core/plugin/registry.rs", "crates/ass-core/plugin/tags/mod.rs", "crates/ass-core/analysis/linting/rules/builtin.rs", "crates/ass-core/analysis/linting/runner.rs", "crates/ass-editor/extensions/registry_integration/builtins.rs"],
  [("factories of built-ins", "crates/ass-core/plugin/tags"), ("registration of built-ins", "crates/ass-editor/extensions/registry_integration/builtins.rs")],
  "enumeration of trait implementations versus the lists that create them; flow of created items to registration on every path; control of the linter's loop",
  "Names that are not constants are counted as undecided. What a rule looks for is not decided. " + TRUST)
prop("E01", "Any edit can be undone exactly and redone exactly",
  "Every operation that changes a document's text and succeeds - direct edits, fluent calls, commands, batches, deltas, incremental edits - can be undone to give back exactly the text before it and redone to give exactly the text after it. No way of editing bypasses the undo history, and no failure loses it.",
  ["inputs", "histories"], "every document and every sequence of edits, undos and redos",
  "An edit that bypasses the history, or is recorded with the wrong range or old text, shows only when that very edit is undone; tests undo a handful of simple edits.",
  ["crates/ass-editor/core/document/editing.rs", "crates/ass-editor/core/document/undo_redo.rs", "crates/ass-editor/core/history/manager.rs", "crates/ass-editor/core/document/incremental_edit.rs"],
  [("operation records with inverse data", "crates/ass-editor/core/history"), ("begin/keep/revert of a compound change", "crates/ass-editor/core/document/editing_raw.rs")],
  "interprocedural typestate of text writes versus history records; value slices of recorded data and of undo/redo edits",
  "Arithmetic inside recorded positions is compared by the values it is computed from, not symbolically. " + TRUST)
prop("E02", "A failed edit leaves the document as it was",
  "When an editing operation returns an error, the document's text is what it was before the call, however far the operation had got. Compound operations - replace-all, indenting, deltas, commands, undo and redo - are all or nothing.",
  ["inputs", "histories", "crash"], "every document and every operation that can fail, at every point it can fail",
  "Half-done edits need a failure in the middle of a compound operation, which tests rarely provoke.",
  ["crates/ass-editor/core/document/editing_raw.rs", "crates/ass-editor/core/document/delta_apply.rs", "crates/ass-editor/core/document/undo_redo.rs", "crates/ass-editor/core/fluent/selection.rs"],
  [("checks before the write", "crates/ass-editor/core/document/editing_raw.rs"), ("text put back on failure", "crates/ass-editor/core/document")],
  "interprocedural typestate: no path writes the text and then returns an error unless the earlier text was written back",
  "Text put back must be an unmodified earlier read of the whole text. " + TRUST)
prop("E03", "Every text change is announced, with what changed",
  "Each operation that changes a document's text and succeeds, undo and redo included, sends the document's listener an event. The event gives the place, the removed text and the inserted text of the change.",
  ["inputs", "histories"], "every document with a listener and every operation that edits it",
  "A listener that misses one kind of edit goes out of step with the document for good; tests listen to one or two kinds of edit.",
  ["crates/ass-editor/core/document/editing.rs", "crates/ass-editor/core/document/mod.rs", "crates/ass-editor/core/document/undo_redo.rs"],
  [("events sent by every editing path", "crates/ass-editor/core/document")],
  "interprocedural typestate of text writes versus announcements; value slices of event data",
  "Whether an event for a compound operation describes every part of it is not decided, only that events sent describe the edit made around them. " + TRUST)
prop("E04", "The undo history is last-in first-out, bounded and consistent",
  "Undo takes back the latest edit not yet undone and redo the latest undo; each moves its entry to the other list. A new edit drops what could be redone. The history never exceeds its entry and memory limits, drops the oldest entries first, and its memory count matches its entries.",
  ["histories", "inputs"], "every sequence of edits, undos and redos under every history configuration",
  "Order, limits and accounting go wrong only in longer mixed histories or at the limits; tests use short ones under the default limits.",
  ["crates/ass-editor/core/history/stack_impl.rs", "crates/ass-editor/core/history/manager.rs", "crates/ass-editor/core/document/undo_redo.rs"],
  [("push, pop and trim of the two stacks", "crates/ass-editor/core/history/stack_impl.rs"), ("undo and redo move entries between them", "crates/ass-editor/core/document/undo_redo.rs")],
  "classification of all stack operations by end; must-pass analysis of limit tests and redo clearing; typestate of entries taken off a stack",
  "The size stored in an entry is taken as its size; the memory count is checked for direction at each push and pop, not summed. " + TRUST)
prop("E05", "A position outside the document is refused, never a panic",
  "Editing, reading, searching or completing at a position past the end, inside a character, with a reversed range or a line that does not exist returns an error or an empty answer. It never panics and never cuts a character.",
  ["inputs"], "every document, position, range and line number",
  "Positions come from the user's editor and go stale with every edit; tests pass positions that fit the text, mostly ASCII.",
  ["crates/ass-editor/core/document/editing_raw.rs", "crates/ass-editor/core/document/text_access.rs", "crates/ass-editor/core/fluent/position.rs", "crates/ass-editor/core/fluent/selection.rs", "crates/ass-editor/core/position/builder.rs", "crates/ass-editor/utils/search/basic.rs"],
  [("bounds and boundary checks before text access", "crates/ass-editor/core/document")],
  "value slices of the arguments of every panicking text access; dominance of conditions that compare them with the text's length, order and character boundaries",
  "A comparison on every path counts as the check; its direction is decided only where it is a plain comparison. Values computed from a checked position are trusted. " + TRUST)

prop("E06", "Editor results depend only on the documents and the arguments",
  "The same calls in the same order with the same arguments give the same answers, documents, events and output in every process. Time, random hashing, environment and process state influence only statistics, time stamps, identifiers and limits on age that the caller sets. Where several handlers, formats or results qualify, which one is used and how they are ordered never depends on a hash table's order.",
  ["histories", "configurations"], "every sequence of calls, every process and every hash seed",
  "Hash seeds and clocks differ between processes; a test sees one seed per run, mostly with one entry per table, and never a slow run.",
  ["crates/ass-editor/formats/registry.rs", "crates/ass-editor/sessions/lifecycle.rs", "crates/ass-editor/extensions/manager_access.rs", "crates/ass-editor/utils/indexing/linear.rs", "crates/ass-editor/utils/search/basic.rs"],
  [("lookups and lists over hash tables", "crates/ass-editor/extensions"), ("clock readings", "crates/ass-editor/sessions")],
  "call-graph effect analysis, interprocedural taint of clock and counter readings, order-sensitivity analysis of every hash iteration",
  "A clock reading may decide a branch when it is compared with an age or duration taken from the configuration or the arguments. Sorting is taken to make the order independent of the hash seed even when keys tie. " + TRUST)
prop("E07", "No document, argument or sequence of calls makes the editor panic",
  "Whatever the document contains and whatever positions, ranges, times, names and patterns it is called with, every editor operation - edits, commands, queries, completion, highlighting, folding, search, undo, SRT/WebVTT/ASS import and export - returns a result or an error and never panics. Every piece cut from a text starts and ends on character boundaries inside it, every index is below the length, no subtraction goes below zero, no 32-bit sum or product exceeds its type, and no absent value is unwrapped.",
  ["inputs", "histories"], "every document (multi-byte, truncated, malformed lines, hostile numbers) and every argument",
  "The failing case needs a multi-byte character at one spot, a reversed range, a number near the limit of its type or an empty list; tests use short, well formed ASCII documents.",
  ["crates/ass-editor/core/document/editing.rs", "crates/ass-editor/commands/event_commands/timing.rs", "crates/ass-editor/commands/tag_commands/wrap.rs", "crates/ass-editor/extensions/builtin/auto_complete/context.rs", "crates/ass-editor/formats/webvtt/time.rs"],
  [("positions rounded to characters, checked ranges", "crates/ass-editor/core"), ("time arithmetic that saturates", "crates/ass-editor/commands, crates/ass-editor/formats")],
  "abstract interpretation of MIR: difference bounds, text lengths, character boundaries and option states",
  "A site whose operands depend on conditions outside the domain, on private fields or on several loop variables at once is counted as undecided and raises no alarm; explicit panic! calls, machine-size sums and counters that would need more than 2^31 iterations are outside. " + TRUST)

prop("R05", "No script text, tag or time makes the renderer's reading of a script panic",
  "Whatever the text of an event, its override tags, their numbers, drawings and times contain, and whatever time a frame is asked for, selecting the events, segmenting the text, reading and animating the tags, wrapping, positioning and laying out never panics. Every piece cut from a text starts and ends on character boundaries inside it, every index is below the length, no unsigned subtraction goes below zero, no 32-bit time or region arithmetic exceeds its type, and no absent value is unwrapped.",
  ["inputs"], "every event text, override block, tag argument, drawing and time stamp",
  "The failing script needs a multi-byte character right after a tag, times in an unusual order, or a number near the limit of its type; tests render well formed tags.",
  ["crates/ass-renderer/src/pipeline/text_segmenter/split.rs", "crates/ass-renderer/src/pipeline/tag_processor/parse.rs", "crates/ass-renderer/src/pipeline/build/text/colors.rs", "crates/ass-renderer/src/animation/controller.rs", "crates/ass-renderer/src/renderer/event_selector.rs"],
  [("tags cut from text by position", "crates/ass-renderer/src/pipeline/text_segmenter"), ("event-relative times", "crates/ass-renderer/src/pipeline/build"), ("regions", "crates/ass-renderer/src/utils/regions.rs")],
  "abstract interpretation of MIR: difference bounds, text lengths, character boundaries and option states",
  "Rasterising backends, frame buffers, texture atlases and the debug tools are outside: their sizes come from the host, not from the script. A site whose operands depend on conditions outside the domain or on values held in lists is counted as undecided. " + TRUST)

prop("R06", "A frame is reused only while nothing it was made from has changed",
  "A frame operation hands out a frame it (or its caller) rendered earlier only when no active event is animated (\\t, \\move, \\fad, \\fade, \\k, \\K, \\kf, \\ko), when everything of the script that rendering reads (styles, script info, fonts, every rendered attribute of the active events), the size and the set of active events equal those the frame was made from, and, for a frame the caller supplies, when no event that was showing in it has ended. A redraw that starts from earlier pixels leaves nothing of them standing where something has moved or ended.",
  ["histories", "inputs"], "every sequence of frame requests on one renderer, every script, edit between requests and time",
  "A stale frame needs two requests around a particular edit, or an animated event of one particular tag; tests render a frame or two of one script.",
  ["crates/ass-renderer/src/renderer/mod.rs", "crates/ass-renderer/src/renderer/frame_key.rs", "crates/ass-renderer/src/backends/software/mod.rs"],
  [("reuse of the last frame", "crates/ass-renderer/src/renderer/mod.rs"), ("key of the stored frame", "crates/ass-renderer/src/renderer/frame_key.rs"), ("drawing over the previous frame", "crates/ass-renderer/src/backends/software/mod.rs")],
  "abstract evaluation of the branch conditions before each reuse under the assumption of a moving tag; read-set inclusion of the frame key; must-pass of a clear",
  "Conditions outside the evaluated boolean forms (loops that scan characters) are counted as undecided. Hosts' own backends are outside. " + TRUST)

def na(id, title, statement, over, text, why, files, reason):
    prop(id, title, statement, over, text, why, files, [("implementation", files[0])], na=reason)
na("C20", "Incremental re-parsing equals parsing the new text",
  "Re-parsing after an edit of any range gives the same script as parsing the edited text from scratch.", ["inputs", "histories"], "every script and every edit",
  "Tests sample a few edits.", ["crates/ass-core/parser/script/incremental.rs", "crates/ass-core/parser/incremental/mod.rs"],
  "Equality of two different algorithms on all inputs depends on the text and on offsets computed at run time; no dataflow or type argument bounds them. Header knowledge and content of deltas are decided by C08 and C09.")
na("C21", "Vectorised and scalar scanning agree",
  "Tokenizing and hex decoding give the same result with and without vector instructions, at every alignment and length.", ["inputs", "configurations"], "every text, alignment and feature set",
  "Tests compare a few short texts.", ["crates/ass-core/tokenizer/mod.rs"],
  "Functional equivalence of two implementations of byte scanning is a question about values; static analysis of this family can only compare their structure, which differs by design.")
na("C22", "Times and colours survive being written and read",
  "Formatting a time or colour and parsing the result gives back the same value, for all values.", ["inputs"], "every time and colour",
  "Tests sample values.", ["crates/ass-core/utils/mod.rs"],
  "An arithmetic identity over runtime integers (division, modulo, padding); needs evaluation or a solver, not dataflow.")
na("R20", "Frames match the reference renderer's pixels",
  "Each frame equals what the reference renderer draws, within the stated tolerance.", ["inputs"], "every script and time",
  "Tests compare a few frames.", ["crates/ass-renderer/src/backends/software/mod.rs"],
  "Pixel values are results of rasterisation arithmetic and of an external library; nothing about them is decidable from the source.")
na("R21", "Incremental rendering equals full rendering",
  "Rendering only the changed regions gives the same frame as rendering everything.", ["inputs", "histories"], "every sequence of frames",
  "Tests compare a few frames.", ["crates/ass-renderer/src/renderer/mod.rs"],
  "Whether a dirty rectangle covers every changed pixel depends on glyph extents and transforms computed at run time.")
na("X20", "Parsing and rendering stay within their time and memory targets",
  "Parsing, incremental updates and rendering meet the documented time and memory targets.", ["inputs"], "every script of the stated sizes",
  "Benchmarks measure a few scripts on one machine.", ["crates/ass-core/lib.rs"],
  "Quantities of time and allocation are properties of executions, not of the source.")
