API = "crates/public_api/src/"
NOT_APPLICABLE = []
NOTES = "No hooks in /repo: the monitors observe through the public API and the store handle the public API already exposes for tests."

P("P01", "Undo and redo restore exactly the earlier document",
  "Undoing every edit of a history, one step at a time, brings back exactly each earlier document (text, blocks, formatting, tables, lists, frames, properties and every view of them), down to the state in which editing began. Redoing brings back exactly each later one, and this stays so for any walk of undo and redo steps up and down the history.",
  ["histories", "inputs"], "every sequence of edits of every kind, at every cursor position and selection, over every document, followed by every walk of undo and redo steps",
  "The tests undo one or a few hand-picked edits of one kind on small documents and mostly compare the plain text only.",
  ["crates/common/src/undo_redo.rs", "crates/document_editing/src/use_cases", "crates/document_formatting/src/use_cases", "crates/document_io/src/use_cases", API + "inner.rs", API + "cursor.rs"],
  [("snapshot before each edit, restored by undo", "crates/document_editing/src/use_cases/*_uc.rs"), ("undo stacks and command merging", "crates/common/src/undo_redo.rs"), ("rope and block-offset index kept with the entities", "crates/common/src/database/rope_helpers.rs")],
  "history monitor: full-state recorder and comparer over random edit histories",
  "Random histories with full-state comparison at each step; reach is sampling, not exhaustive.",
  observe=["TextDocument::undo", "TextDocument::redo", "the whole entity store and every public view after each step"])

P("P02", "The undo history is one line: new edits discard redo, flags tell the truth",
  "The history behaves as a single timeline: undo moves back by exactly one edit (or one run of consecutive typing or deleting), redo moves forward again, and a new edit after an undo makes the undone edits unreachable. What the document answers about whether undo and redo are possible is always what undo and redo then do, every change of those answers is announced to subscribers, and clearing the history or importing a document leaves nothing to undo.",
  ["histories"], "every interleaving of edits, undo, redo, edit groups, history clearing and imports",
  "The tests check the flags after two or three fixed steps; branching histories and their announcements are not sampled.",
  ["crates/common/src/undo_redo.rs", API + "document.rs", API + "inner.rs"],
  [("redo stack cleared by a new command", "crates/common/src/undo_redo.rs"), ("undo/redo availability events", API + "inner.rs")],
  "online timeline-model monitor over interleaved edit/undo/redo histories", "Random interleavings against a timeline model.",
  observe=["TextDocument::can_undo/can_redo/undo/redo/clear_undo_redo", "UndoRedoChanged events"])

P("P03", "A group of edits is undone and redone as one",
  "All edits made between the start and the end of an edit group, however the groups nest and whether or not some edits in between fail, are undone by a single undo, which restores the document as it was before the group, and redone by a single redo. An edit that itself consists of several steps, such as typing over a selection, is one such group, and one that fails leaves the document as it was.",
  ["histories", "fault_sequences"], "every nesting of groups, every sequence of succeeding and failing edits inside them, over every document",
  "The tests group two or three text insertions; groups with failing edits, structure edits and nesting are not sampled.",
  ["crates/common/src/undo_redo.rs", API + "cursor.rs"],
  [("composite commands", "crates/common/src/undo_redo.rs"), ("begin_edit_block / end_edit_block", API + "cursor.rs")],
  "state-comparison monitor around randomly nested edit groups with failing edits", "Random nested groups; full-state comparison.",
  observe=["begin_edit_block/end_edit_block", "undo/redo"])

P("P05", "The document stays structurally sound after every operation",
  "After any operation, successful or not, the document is one consistent tree: every block, frame, table, cell and list is reachable exactly once, every reference leads to something that exists, tables are complete grids, formatting covers exactly the text it belongs to, and the stored text, positions and counters agree with the blocks. No operation leaves orphans behind.",
  ["histories", "inputs"], "every sequence of operations of every kind over every document",
  "The tests look at the piece of the document they edited; nothing walks the whole store, and multi-step structure edits are hardly sampled.",
  ["crates/common/src/database", "crates/common/src/direct_access", "crates/document_editing/src/use_cases", "crates/document_io/src/use_cases"],
  [("rope and block-offset index maintenance", "crates/common/src/database/rope_helpers.rs"), ("cascading removal of entities", "crates/common/src/direct_access"), ("table and frame bookkeeping", "crates/document_editing/src/use_cases")],
  "invariant monitor over the whole store after every operation of random histories", "Random histories; whole-store invariant checked at every state.",
  observe=["the whole entity store after each call"],
  state=[("rope", "all text, blocks separated by newlines", "crates/common/src/database/rope_store.rs"), ("block offsets", "byte start of each block", "crates/common/src/database/block_offset_index.rs")])

P("P04", "Text edits behave like edits of a string",
  "The document's text behaves as one string in which blocks are separated by line breaks: typing, pasting plain text, splitting, joining, deleting characters or a selection, and typing over a selection change exactly the characters they are asked to change and nothing else, and leave the cursor where the edit ends. Every read of the text (whole, by block, by range, deleted text, lengths and counts) agrees with that string, in characters, for any Unicode text. Formatting and list edits never change the text.",
  ["inputs", "histories"], "every sequence of text edits at every position and selection, over every Unicode text",
  "The tests apply a few edits to short, mostly ASCII texts.",
  ["crates/document_editing/src/use_cases", "crates/common/src/database/rope_helpers.rs", API + "cursor.rs", API + "document.rs"],
  [("splices of the rope and its block-offset index", "crates/common/src/database/rope_helpers.rs"), ("text edits", "crates/document_editing/src/use_cases/*_uc.rs")],
  "online comparison of every reader with a string model over random edit histories", "Random histories; exact string model.",
  observe=["TextCursor edit methods", "to_plain_text, text_at, character_count, block texts"])

P("P06", "All ways of reading the document agree",
  "Every public view of the document tells the same story at any moment: the flow snapshot, the live flow, block, frame, table, cell and list handles and their snapshots, lookups of blocks and elements by position or range, text ranges, list markers, statistics and the plain text all give the same blocks, in the same reading order, at the same positions, with the same texts, formats and numbering, also inside tables and nested frames. Fragments cover their block without gaps, start words where the text does, and are told apart by their identifiers.",
  ["histories", "inputs"], "every document reachable by imports and edits, every position and range",
  "The tests read each view on its own, on small documents, right after building them.",
  [API + "flow.rs", API + "text_frame.rs", API + "text_block.rs", API + "text_table.rs", API + "text_list.rs", API + "document.rs", "crates/document_inspection/src/use_cases", "crates/document_io/src/use_cases/export_plain_text_uc.rs"],
  [("flow snapshot positions computed while walking", API + "text_frame.rs"), ("stored or rope-derived block positions", "crates/common/src/database/rope_helpers.rs"), ("list marker numbering", API + "text_list.rs")],
  "cross-view consistency monitor over states of random histories", "Random states and positions; every pair of views compared.",
  observe=["TextDocument::snapshot_flow, flow, blocks, block_at, blocks_in_range, find_element_at_position, stats", "TextBlock, TextFrame, TextTable, TextList handles"])

P("P07", "No call panics or hangs, and a refused call changes nothing",
  "No public call panics or hangs, whatever its arguments: positions, lengths and counts beyond the document, identifiers of nothing or of something else, handles of things removed since, empty, control, combining and very long texts, broken markup and invalid expressions. A call that answers with an error has changed nothing (content, history, flags, cursors) and announced nothing, and whatever a successful call did leaves a sound document. Handles of removed blocks, tables, cells and lists give neutral answers.",
  ["inputs", "fault_sequences"], "every public call with every argument in every document",
  "The tests try a few out-of-range arguments on a few calls.",
  [API + "cursor.rs", API + "document.rs", API + "text_block.rs", API + "text_table.rs", API + "text_list.rs", "crates/document_editing/src/use_cases", "crates/document_formatting/src/use_cases", "crates/document_inspection/src/use_cases"],
  [("argument clamping and checks", API + "cursor.rs"), ("transactions rolled back on errors", "crates/common/src/database/transactions.rs")],
  "crash, hang and no-change monitor around hostile calls to the whole public API", "Random hostile calls; full-state comparison after each refusal.",
  observe=["every public method of the document, its cursors and handles", "the whole entity store, views, flags and events before and after"])

P("P08", "Cursors follow the text around them",
  "When the text is edited through one cursor, every other cursor stays with the text it was at: ends before the edit do not move, ends behind it shift by exactly the change in length, and ends inside removed text come to the place of the removal. Whatever happens to the document, including undo, redo, imports and table changes, no cursor is left outside it, and every cursor can still be used.",
  ["histories"], "any number of cursors with any selections, every sequence of edits through any of them",
  "The tests watch one other cursor across one insertion or deletion.",
  [API + "cursor.rs", API + "inner.rs", API + "document.rs"],
  [("shared cursor data adjusted after each edit", API + "inner.rs")],
  "online monitor of all cursors against the adjustment rule over random edits", "Random multi-cursor histories.",
  observe=["TextCursor::position/anchor of every cursor after each edit"])

P("P09", "Cursor movement and selection follow the text's structure",
  "Moving a cursor by characters, words, lines of blocks, and to the start or end of the block or document, and selecting a word, block or the document, puts position and anchor exactly where the text says: on the next or previous user-perceived character, word boundary or block boundary, never inside a character cluster or outside the document. A move reports truthfully whether the cursor moved, and all questions a cursor answers about its place (at start or end, block and column, selected text) agree with its position and the text.",
  ["inputs"], "every movement, with and without keeping the anchor, from every position of every document",
  "The tests move over short ASCII samples.",
  [API + "cursor.rs"], [("movement by grapheme cluster, word and block", API + "cursor.rs")],
  "comparison of every movement and query with a reference Unicode segmenter over random documents", "Random documents and moves; independent reference.",
  observe=["TextCursor::move_position, set_position, select, at_*, position_in_block, block_number, selected_text"])

P("P10", "Formats apply to exactly the selection and stay with their text",
  "Setting or merging a character format over a selection gives exactly the selected characters the given attributes and changes no other attribute, no other character and no text. Setting a block format affects exactly the blocks of the selection, or the block of the cursor when nothing is selected; setting a frame format changes the given attributes of that frame and nothing else. Text that is kept by later edits, splits and joins keeps its formats, text that is typed takes the format around it, and all ways of reading formats agree.",
  ["inputs", "histories"], "every selection, every combination of attributes, every later sequence of edits",
  "The tests format one word and read one attribute back.",
  ["crates/document_formatting/src/use_cases", "crates/common/src/format_runs.rs", "crates/document_editing/src/use_cases", API + "cursor.rs"],
  [("format runs per block, spliced by edits", "crates/common/src/format_runs.rs")],
  "per-character format model compared after each operation of random histories", "Random histories; per-character model.",
  observe=["TextBlock::fragments", "character_format_at", "block formats"])

P("P12", "Searching finds exactly the occurrences, replacing changes exactly those",
  "find_all reports, in order, the places where the text contains the query under the given options, dropping those that overlap an earlier one; find gives the first occurrence at or after a position, or the last one before it when searching backwards. Positions and lengths count characters of the document. Replacing one or all substitutes exactly the reported matches that lie within one block, reports how many, and leaves all other text and all formats as they were.",
  ["inputs"], "every document, query, option combination and start position",
  "The tests search short ASCII texts for a word.",
  ["crates/document_search/src/use_cases", API + "document.rs", API + "convert.rs"],
  [("one text in reading order, scanned per option", "crates/document_search/src/use_cases/search_helpers.rs"), ("replacement from the last match to the first", "crates/document_search/src/use_cases/replace_text_uc.rs")],
  "comparison of every search and replacement with a naive scan over random documents", "Random documents and queries; naive reference.",
  observe=["TextDocument::find, find_all, replace_text"])

P("P24", "Table structure edits keep every other cell intact",
  "Inserting or removing rows and columns, merging and splitting cells, formatting tables and cells, and removing tables change exactly what they name: every other cell keeps its place relative to its neighbours, its span, its blocks, its text and its formats; new cells are empty; spans grow or shrink with the rows and columns they cover; merging keeps the top-left content; and nothing outside the table changes. A call that cannot be done is refused and changes nothing.",
  ["histories", "inputs"], "every table shape with any merged cells, every sequence of structure edits with valid and invalid arguments",
  "The tests do one structure edit on a small regular table and look at its size.",
  ["crates/document_editing/src/use_cases", API + "cursor.rs", API + "text_table.rs"],
  [("cells renumbered, removed or extended per edit", "crates/document_editing/src/use_cases/*table*_uc.rs")],
  "grid-model monitor comparing the whole table and its surroundings after each call of random histories", "Random histories; grid model.",
  observe=["TextCursor table methods", "flow snapshot of the table and everything around it"])

P("P25", "List membership, numbering and formats are exact",
  "Making, inserting, joining, leaving and formatting lists changes the membership and formats of exactly the named blocks and lists, wherever in the document they are. Every way of asking about lists agrees at any moment: which list a block belongs to, how many items a list has, which is its nth, what its marker is (in the style, prefix and suffix of the list, numbered in reading order) and where the cursor's list is. Splitting an item makes the next item of the same list, and a call naming a block, list or item that does not exist is refused and changes nothing.",
  ["histories", "inputs"], "every sequence of list calls with existing and missing blocks, lists and items, at every cursor and selection, in every document",
  "The tests make one small list at the top level and look at one or two of its items; quotes, cells, long lists and interleaved lists are not sampled.",
  ["crates/document_editing/src/use_cases", "crates/document_formatting/src/use_cases/set_list_format_uc.rs", API + "cursor.rs", API + "text_list.rs", API + "text_block.rs"],
  [("list membership kept on blocks", "crates/document_editing/src/use_cases/*list*_uc.rs"), ("numbering and markers", API + "text_block.rs")],
  "list-model monitor comparing every list reader after each call of random histories", "Random histories; exact list model.",
  observe=["TextCursor list methods", "TextBlock::list, list_item_index, TextList, list_info of snapshots"])

P("P34", "Cell selections cover exactly the cells between their ends",
  "A cursor always knows the table and cell it is in. A selection within one cell is a text selection; one between two cells of a table is a cell selection of the smallest rectangle that contains both and cuts through no merged cell; one that reaches into or over a table from outside takes its cells as a whole, and extending a selection from outside into a table moves its end to the far side of it. An explicit cell selection is exactly what was asked for until it is cleared or the cursor moves. The listed cells are exactly those of the range.",
  ["inputs"], "every table shape with merged cells, every pair of cursor ends",
  "The tests select two cells of a regular table.",
  [API + "cursor.rs"], [("selection kind and rectangle computed from the cells at both ends", API + "cursor.rs")],
  "comparison of selection queries with a model computed from the flow snapshot", "Random tables and selections.",
  observe=["TextCursor::selection_kind, selected_cell_range, selected_cells, current_table, current_table_cell"])

P("P15", "HTML import and export carry the document faithfully",
  "Importing HTML gives the document that the markup describes: its paragraphs, headings, nested lists, quotes, code blocks and tables in order, with their texts unescaped, their inline formats, links and block styles, and nothing lost or added. Exporting HTML gives well-formed markup in which all text and attribute values are escaped and which describes exactly the document's blocks, tables, merged cells, lists, quotes, links and formats. Importing an export again, of the document or of a fragment of it, gives the same content as far as HTML can express it.",
  ["inputs", "histories"], "every document and every well-formed HTML text of the supported elements",
  "The tests look for a few substrings in the export of small documents and import a handful of snippets.",
  ["crates/document_io/src/use_cases/import_html_uc.rs", "crates/document_io/src/use_cases/export_html_uc.rs", "crates/common/src/parser_tools", API + "fragment.rs"],
  [("HTML tree walk into blocks, tables and spans", "crates/common/src/parser_tools/content_parser.rs"), ("frame tree walk into markup", "crates/document_io/src/use_cases/export_html_uc.rs"), ("grouping of items into lists", "crates/common/src/parser_tools/list_grouper.rs")],
  "import against a generated structure; export read by a strict parser and compared with the document; round trip", "Random structures and edited documents.",
  observe=["TextDocument::set_html, to_html, snapshot_flow"])

P("P16", "Markdown import and export carry the document faithfully",
  "Importing Markdown gives the document that the text describes: paragraphs, headings, nested ordered and unordered lists, quotes, code blocks, tables, inline formats and links, in order and with nothing lost or added. Exporting a document or a fragment of it as Markdown and importing the result gives the same content as far as Markdown can express it, list nesting included, whatever punctuation its text contains: no text is taken for markup.",
  ["inputs", "histories"], "every document that Markdown can express and every text of its blocks",
  "The tests look for a few substrings in the export of small documents and import a handful of snippets.",
  ["crates/document_io/src/use_cases/import_markdown_uc.rs", "crates/document_io/src/use_cases/export_markdown_uc.rs", "crates/common/src/parser_tools", API + "fragment.rs"],
  [("Markdown events into blocks, tables and spans", "crates/common/src/parser_tools/content_parser.rs"), ("escaping, list indentation, quotes", "crates/document_io/src/use_cases/export_markdown_uc.rs")],
  "import against a generated structure; round trip of the document", "Random structures full of Markdown punctuation.",
  observe=["TextDocument::set_markdown, to_markdown, snapshot_flow"])

P("P18", "Every event reaches every listener exactly once and in order",
  "Everything the document announces is delivered exactly once to each subscriber that is registered at that time and exactly once to poll_events, in the order of the edits, whatever the mix of subscribers, polls and threads. Callbacks run outside the document's lock: they may read the document, edit it, subscribe or unsubscribe without blocking. After a subscription is dropped its callback is not called again. Subscribing gives no earlier events; polling twice gives nothing twice.",
  ["histories", "schedules"], "every sequence of edits, every moment of subscribing, dropping and polling, every interleaving of editing threads",
  "The tests subscribe once, edit once and look for one event.",
  [API + "inner.rs", API + "events.rs", API + "document.rs"],
  [("two read cursors over one queue of pending events", API + "inner.rs"), ("callbacks called after the lock is released", API + "inner.rs")],
  "event-log monitor: each subscriber's log compared with the polled stream of its lifetime, single- and multi-threaded, with hostile callbacks", "Random histories and real thread schedules.",
  observe=["TextDocument::on_change, poll_events, Subscription"])

P("P19", "The events tell a listener everything that changed",
  "A listener that knows the document and then only follows the events stays in step: text positions with removed and added counts, inserted and removed flow elements, the block count, the modified flag and the availability of undo describe each change exactly, and every block, table or frame whose text or look changed lies within a region that some event names. This holds for edits, undo and redo alike.",
  ["histories"], "every edit, undo and redo in every document",
  "The tests look for an event of a kind after one edit and rarely at its numbers.",
  [API + "cursor.rs", API + "document.rs", API + "inner.rs"],
  [("ContentsChanged queued by each edit", API + "cursor.rs"), ("comparison of the document before and after undo and redo", API + "document.rs"), ("diff of the main frame's order", API + "inner.rs")],
  "replay of the polled events on a mirror that is compared with the document after each call", "Random histories; mirror and coverage monitor.",
  observe=["TextDocument::poll_events against snapshot_flow, flow, to_plain_text, block_count, is_modified, can_undo"])

P("P11", "An edit changes only what it names",
  "Typing, deleting, splitting and joining blocks, formatting and list commands change exactly the characters, blocks and formats at the place they name. Every other block keeps its identity, text, formats, list and place in its cell, quote or frame, and every table its shape; the blocks that the edit touches hold precisely their old text with the named part removed and the new part put in, each kept character with the format it had. Deletions never reach across the border of a cell, and a refused or empty edit changes nothing at all.",
  ["histories", "inputs"], "every document, every place and selection, every editing command",
  "The tests compare the plain text of a two-paragraph document after one edit.",
  ["crates/document_editing/src/use_cases", API + "cursor.rs"],
  [("edits expressed on block, frame, rope and format runs side by side", "crates/document_editing/src/use_cases/delete_text_uc.rs"), ("splitting and joining of format runs", "crates/common/src/format_runs.rs")],
  "flow snapshots before and after each edit compared entry by entry with a model of the edit", "Random histories; whole-document comparison.",
  observe=["flow snapshot of the whole document before and after each TextCursor call"])

P("P17", "Copied content arrives complete wherever it is pasted",
  "Copying changes nothing and takes exactly the selected text with its character formats, the block formats and lists of wholly selected paragraphs, and the tables that a selection reaches. Pasting puts exactly that in place of the selection, in order, within the same cell, quote or frame, leaves the text before and behind it with its own format, changes nothing elsewhere, and leaves the cursor behind it. Pasting cells into cells replaces the contents of those cells and no others. A fragment made from HTML, Markdown or a whole document holds what importing the same would, and its own HTML describes it.",
  ["inputs", "histories"], "every selection, every fragment and every place of pasting",
  "The tests copy a word and look for it in the plain text.",
  ["crates/document_editing/src/use_cases/insert_fragment_uc.rs", "crates/document_inspection/src/use_cases/extract_fragment_uc.rs", API + "fragment.rs"],
  [("selection cut into fragment blocks and tables", "crates/document_inspection/src/use_cases/extract_fragment_uc.rs"), ("merging of first and last fragment block with the text around", "crates/document_editing/src/use_cases/insert_fragment_uc.rs")],
  "copy compared with the flow snapshot of the source; paste with a model of head, copy and tail", "Random documents, selections and targets.",
  observe=["TextCursor::selection, insert_fragment, DocumentFragment against the flow snapshots of both documents"])

P("P20", "Threads that share a document see whole edits in one order",
  "A document and its cursors may be used from any number of threads at once. Every edit, undo, import or read takes effect as a whole at one moment between its call and its return, and all threads agree on one order: no read shows half of an edit, none misses an edit that had returned before, edits made through cursors of other threads move a cursor but never misplace or lose what is typed at it, what is asked through a cursor is answered for the place where it stands at that moment, and afterwards the history undoes all that was done. Nothing deadlocks or panics.",
  ["schedules", "histories"], "every interleaving of editing, undoing, importing and reading threads with own or shared cursors",
  "The tests start two threads that insert a few letters and look at the length of the result.",
  [API + "cursor.rs", API + "document.rs", API + "inner.rs", "crates/common/src/long_operation.rs"],
  [("one lock per document, taken by each public call", API + "inner.rs"), ("cursors moved under the document's lock by each edit", API + "inner.rs"), ("the lock held by long operations at work", "crates/common/src/long_operation.rs")],
  "event logs of real threads (call, return, result) checked offline for linearizability against a model of the text", "Real schedules on 8 cores with jitter from listeners; moving a cursor is several steps and not part of the guarantee.",
  observe=["TextCursor edits, TextDocument::undo, redo, set_*, to_plain_text, text_at, snapshot_flow from several threads"])

P("P28", "Groups of edits and several histories never get mixed up",
  "The undo manager keeps any number of histories apart. In each, commands are undone in exactly the reverse and redone in exactly the original order, each once, with consecutive mergeable commands and nested groups as single steps; a cancelled group leaves no trace, a step that fails to undo or redo remains as it was, and clearing forgets all that was done up to then, also in a group still open. While a group is open its history can be neither undone nor redone. What it answers and announces is what happens. Edit blocks of a document behave likewise.",
  ["histories", "fault_sequences"], "every sequence of commands, groups, cancellations, undo and redo steps with failures, clearings, and stacks made and deleted",
  "The tests add two or three commands to one stack and undo them; groups with failures, clearing or undoing inside, and several stacks at once are not sampled.",
  ["crates/common/src/undo_redo.rs", API + "cursor.rs", API + "document.rs"],
  [("stacks, composites and merging", "crates/common/src/undo_redo.rs"), ("edit blocks", API + "cursor.rs")],
  "online comparison of the manager with a model after each call; commands that record and check their own order", "Random call histories.",
  observe=["UndoRedoManager calls, UndoRedoEvent notifications, effects of probe commands", "begin_edit_block/end_edit_block, undo, redo, clear_undo_redo, set_plain_text"])

P("P22", "A long operation happens wholly or not at all, and ends exactly once",
  "An import or export that runs in the background either completes, and then its whole effect is there, or fails or is cancelled, and then the document, its history and the disk are exactly as before, whenever and from wherever it is cancelled and whether it is waited for, polled or dropped. It reports progress between 0 and 100 percent and then its end exactly once, and that report, the handle's answers and the document always agree. Nobody but a cancellation or an error stops it, and the document remains usable. The manager of operations answers truthfully for any number of them.",
  ["histories", "schedules", "fault_sequences"], "every document, import and export, every moment of cancelling, polling, waiting or dropping, every set of operations in parallel",
  "The tests import a short text and wait for it; one cancels at once and accepts either outcome.",
  [API + "operation.rs", API + "document.rs", API + "inner.rs", "crates/common/src/long_operation.rs", "crates/document_io/src/use_cases"],
  [("worker threads, cancel flags and final status", "crates/common/src/long_operation.rs"), ("rollback of a cancelled import", "crates/document_io/src/use_cases/import_html_uc.rs"), ("polling handle", API + "operation.rs"), ("bridge from the event hub to document events", API + "document.rs")],
  "all-or-nothing and exactly-once monitor over real background threads with cancellations at random moments; step-by-step comparison of the manager with a model", "Random moments on real schedules; failing disks are represented by a missing directory.",
  observe=["Operation::wait, wait_timeout, try_result, is_done, progress, cancel", "LongOperationProgress and LongOperationFinished events", "the entity store before and after", "LongOperationManager answers and events"])

P("P14", "Plain text goes in and out unchanged",
  "Importing plain text gives a document whose blocks are exactly the lines of the text, with every kind of line end understood, any Unicode content kept, and nothing left of the earlier content, its formats, lists, tables or history; clearing gives the empty document. Exporting it gives the same text back with uniform line ends, and what any document exports imports into the same text again. A fragment made of plain text holds and delivers exactly that text.",
  ["inputs", "histories"], "every text, imported into every document; every document exported",
  "The tests import a few short texts into new documents.",
  ["crates/document_io/src/use_cases/import_plain_text_uc.rs", "crates/document_io/src/use_cases/export_plain_text_uc.rs", API + "document.rs", API + "fragment.rs"],
  [("line splitting and replacement of the whole document", "crates/document_io/src/use_cases/import_plain_text_uc.rs"), ("cached plain text", API + "inner.rs")],
  "comparison of every reader with the lines of random hostile texts imported over random documents", "Random texts and documents; exact comparison.",
  observe=["TextDocument::set_plain_text, clear, to_plain_text, blocks, stats", "DocumentFragment::from_plain_text"])

P("P23", "Syntax highlighting follows every edit and touches nothing",
  "With a syntax highlighter attached, every reader of the text shows at every moment each character in its own format overlaid with exactly what the highlighter's rules give for the present texts of all blocks in order, including states carried from block to block, overlapping spans and spans beyond the end, in fragments that know their word starts. This holds after every edit, undo, redo and import, and after the highlighter is replaced or its rules change; without a highlighter nothing of it remains. The stored document, exports, search, cursors and history never depend on the highlighter.",
  ["histories", "inputs"], "every history of edits of every kind, every set of highlighting rules, every moment of attaching, changing or removing them",
  "The tests highlight a few fixed lines and edit them once or twice; edits that touch several blocks or cells are not sampled.",
  [API + "highlight.rs", API + "inner.rs", API + "text_block.rs", API + "cursor.rs"],
  [("incremental highlighting with a state per block", API + "highlight.rs"), ("merging of spans into fragments", API + "highlight.rs")],
  "twin-document monitor: incremental highlighting compared with a from-scratch run of the rules after each call", "Random histories and rules; exact comparison per character.",
  observe=["TextDocument::set_syntax_highlighter, rehighlight, rehighlight_block", "fragments of block handles and snapshots", "calls made to the highlighter"])

P("P26", "Properties, resources and the modified flag are kept exactly",
  "Title, text direction, default wrap mode and resources are what was set last on the present line of history, whatever is edited, imported, undone or redone in between; a resource is returned byte for byte, and a name stands for the latest resource of that name. Changing them leaves the content alone. The modified flag is set once the content has changed since it was last cleared, by an edit as by an undo or redo, and stays clear while only queries, cursor movements and refused calls happen. Documents never affect one another.",
  ["histories"], "every interleaving of property changes, resources, edits, undo, redo, imports and clearings of the flag",
  "The tests set each property once and read it back.",
  [API + "document.rs", API + "inner.rs", "crates/common/src/undo_redo.rs", "crates/direct_access/src"],
  [("properties and resources as undoable commands", API + "document.rs"), ("cache of resources by name", API + "document.rs"), ("modified flag", API + "inner.rs")],
  "online comparison with a timeline model of the properties after each call", "Random histories against a model.",
  observe=["TextDocument::title, text_direction, default_wrap_mode, resource, is_modified", "the entity store of two documents"])

P("P30", "LaTeX and DOCX exports carry the document faithfully",
  "A LaTeX export holds every paragraph, heading, list item, quote, code block and table of the document in reading order, each once, with its text, inline formats, links and block styles; all special characters are escaped, environments are balanced, tables keep their grid under merged cells, and the preamble brings the packages that are used. A DOCX export is a readable file that holds every paragraph and table in reading order with its text, inline formats and headings, and tables keep their grid under merged cells. Exporting changes nothing.",
  ["inputs", "histories"], "every document, with any text in any place",
  "The tests look for a few substrings in the LaTeX of small documents and check that the DOCX file exists.",
  ["crates/document_io/src/use_cases/export_latex_uc.rs", "crates/document_io/src/use_cases/export_docx_uc.rs", API + "document.rs"],
  [("walk over frames, lists and tables", "crates/document_io/src/use_cases/export_latex_uc.rs"), ("escaping", "crates/document_io/src/use_cases/export_latex_uc.rs"), ("DOCX runs and merged cells", "crates/document_io/src/use_cases/export_docx_uc.rs")],
  "read-back monitor: exports parsed by independent readers and compared with the flow snapshot", "Random documents; exact comparison of what the formats carry.",
  observe=["TextDocument::to_latex, to_docx", "the exported text and file"])
