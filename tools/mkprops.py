#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Open and save loses nothing that was not edited",
 "Opening a zip-packed document and saving it (to its own path, another path, a stream or bytes, once or repeatedly) keeps every package member the library does not manage byte-identical under the same name, and keeps every element, attribute, text and their order in content, styles and meta data and every manifest entry; only the generator, the modification date, the editing-cycle counter and empty container elements may be added or changed. The same holds for all parts an edit does not address when other parts of the document are edited before saving.",
 ["inputs", "histories"],
 "For every well-formed package (any document type, any extra members, foreign XML elements and attributes, mixed content, XML comments) and every sequence of open/save routes and edits.",
 "The tests open a handful of fixture files and look at a few members; none compares complete member bytes or complete XML trees before and after, nor chains of saves.",
 ["ezodf/filemanager.py", "ezodf/bytestreammanager.py", "ezodf/document.py", "ezodf/content.py", "ezodf/styles.py", "ezodf/meta.py", "ezodf/manifest.py", "ezodf/body.py"],
 [("copy of unmanaged zip members", "filemanager.FileManager._copy_zip_to"), ("managed parts parsed and re-serialised", "filemanager.FileManager.get_xml_element / FileObject.tobytes")],
 ["members of the written zip", "parsed content.xml/styles.xml/meta.xml/manifest.xml"])

prop("C02", "Every package written is a valid ODF container",
 "Whatever the document type, creation route (new, from a template, opened) and save history, a written package has as its first member an uncompressed 'mimetype' without extra field whose content is exactly the mimetype of the document, contains each member once with a valid checksum, and has well-formed content, styles, meta and manifest parts with the ODF root elements. Its manifest has exactly one root entry carrying the document mimetype and one text/xml entry for each managed XML part, and names no file that is not in the package unless the source manifest already did. The package check of the library accepts such a package for its own mimetype, and refuses it when a required part, the manifest entry of one, or the leading uncompressed mimetype member is missing, when the root entry has another mimetype, or when the file is cut.",
 ["inputs", "histories", "configurations"],
 "All supported document types and doctype-table entries, all creation and output routes, repeated saves with edits in between, source packages with unusual member order, compression, missing optional parts or missing manifest entries.",
 "Tests validate single saves of a few types; they do not quantify over source packages that lack parts or over repeated saves.",
 ["ezodf/filemanager.py", "ezodf/manifest.py", "ezodf/document.py", "ezodf/const.py", "ezodf/bytestreammanager.py"],
 [("mimetype written first and stored", "filemanager.FileManager._tozip"), ("registration adds manifest entries", "filemanager.FileManager.register, manifest.Manifest.add")],
 ["raw zip structure of tobytes()/saved files"])

prop("C03", "Edits survive save and reload",
 "After any sequence of edits through the public API to a text, spreadsheet, drawing or presentation document, saving (to path, stream or bytes) and opening the result again yields a document with the same observable content: same body structure and plain texts, same sheets with names, dimensions, cell values, types, formulas, styles and spans, same pages and same meta data. The bytes export, the stream export and the saved file of the same state have the same content, and further saves of the still open document always reflect all edits made so far.",
 ["histories", "inputs"],
 "All edit histories of text content, tables, pages and meta data with arbitrary XML-legal Unicode values, interleaved with saves.",
 "Existing integration tests check one fixed document each; equality of complete observable state over arbitrary histories cannot be sampled by hand.",
 ["ezodf/document.py", "ezodf/filemanager.py", "ezodf/table.py", "ezodf/cells.py", "ezodf/text.py", "ezodf/meta.py", "ezodf/xmlns.py"],
 [("single in-memory XML tree serialised on save", "document.PackagedDocument, xmlns.XMLMixin.tobytes")],
 ["opendoc(...) on the written file"])

prop("C04", "A failing save never destroys a document",
 "If writing fails at any point during a save (an I/O error on any write, rename, remove or close, a full disk, or a part that cannot be serialised or whose serialisation is interrupted), afterwards the complete previous file content still exists under its name or its backup name, or the complete new content exists; the target file is never left truncated or partly written, and no temporary file is left behind unless it is the only complete copy. After the fault is gone the same in-memory document can be saved successfully and completely.",
 ["fault_sequences", "crash_points"],
 "Every single fault position in the sequence of file-system operations of a save, with and without backup, for packaged documents opened by path, bytes or stream and for flat XML documents, followed by a retry.",
 "No test injects a fault; the safety of the replace protocol depends on the order of operations at each crash point.",
 ["ezodf/filemanager.py", "ezodf/bytestreammanager.py", "ezodf/document.py"],
 [("write to a temporary file, then rename", "filemanager.FileManager.save")],
 ["directory listing and file bytes after the injected fault"])

prop("C05", "Backup files and file-system footprint of a save",
 "With backups enabled, saving a document opened from (or saved to) a path over an existing file leaves exactly the previous file content in '<name>.bak' (replacing an older backup); with backups disabled, or when no file existed, no backup is created or changed (documents opened from bytes or file-like objects never make backups). A successful save creates or changes no other file in any directory, leaves no temporary file, and reading a document or exporting it to bytes or a stream changes no file at all.",
 ["histories", "configurations"],
 "Sequences of save/saveas/tobytes with the backup flag toggled, several target names (including names with spaces, dots, Unicode, relative paths and sub-directories), pre-existing files and backups.",
 "Tests check at most one backup of one name; the footprint on other files over histories is never observed.",
 ["ezodf/filemanager.py", "ezodf/document.py", "ezodf/bytestreammanager.py"],
 [("rename existing to .bak", "filemanager.FileManager.save, document.FlatXMLDocument._backupfile")],
 ["complete directory snapshot (names and bytes) before and after each operation"])

prop("C06", "All ways to open a document agree; type detection is by content",
 "Opening the same package by file name, as bytes or as file-like object gives documents with the same type, mimetype, meta data and content, and the document type is determined by the content (the mimetype member, else the manifest root entry, else the file extension), not by the file name. A document created from a template (by name, bytes or file-like object) has the non-template type of the template and its content, and neither opening nor creating from a template nor saving the result elsewhere alters the source.",
 ["inputs", "configurations"],
 "All supported document types, misleading file names, packages without mimetype member and/or manifest root entry, all routes and templates.",
 "Tests open each fixture by one route and never compare routes, nor exercise fallback detection.",
 ["ezodf/document.py", "ezodf/bytestreammanager.py", "ezodf/filemanager.py", "ezodf/const.py", "ezodf/compatibility.py"],
 [("route dispatch", "document.opendoc"), ("mimetype detection", "document.__detect_mime_type"), ("template handling", "document._new_doc_from_template")],
 ["doctype, mimetype, body and meta of the opened document; bytes of the source file"])

prop("C07", "Flat XML documents open, edit and save without loss",
 "A single-file XML document of any supported type opens with the type given by its mimetype attribute, gives access to body, sheets or pages and meta data of that file, and saving it after edits yields a well-formed single XML file with the same root, containing the edits and every other element, attribute and text unchanged; existing files are backed up as for packaged documents. Input that is neither a package nor XML, and XML with another root or an unsupported mimetype, is rejected with an exception and without side effects.",
 ["inputs", "histories"],
 "All flat documents of the supported types with arbitrary foreign content, edited by arbitrary operations, saved repeatedly; malformed inputs.",
 "The tests construct empty flat documents only; no flat file is ever opened through the public entry point or round-tripped.",
 ["ezodf/document.py", "ezodf/meta.py", "ezodf/body.py"],
 [("flat XML wrapper", "document.FlatXMLDocument"), ("dispatch to flat parsing", "document.opendoc")],
 ["XML tree of the saved flat file", "document attributes"])

prop("C08", "Meta data behaves like the documented dictionaries and sets",
 "Simple metatags, keywords (a set in insertion order), user-defined tags (a dictionary with value types, 'string' unless a type is given when set) and statistics (integer counters, 0 if absent) return exactly what was last stored, independent of each other, through any sequence of set, add, remove, update and clear operations, and a missing or unsupported key raises KeyError. The editing-cycle counter grows by exactly one per save, the modification date and generator are refreshed by each save, and all other meta data survive save and reload.",
 ["histories", "inputs"],
 "All operation sequences over metatags, keywords, user tags and statistics with arbitrary text values, on new and opened documents, with saves and reloads in between.",
 "Tests set one value at a time; interactions and histories (clear, then set; duplicates; types after overwrite; counters from malformed values) are not covered.",
 ["ezodf/meta.py", "ezodf/document.py"],
 [("meta access classes", "meta.OfficeDocumentMeta, Keywords, Usertags, Statistic")],
 ["doc.meta API and meta.xml after save"])

prop("C09", "Whitespace encoding is lossless and collapse-safe",
 "For every text, appending it (in one or several pieces, also after child elements) to a paragraph, heading, span or hyperlink makes its plain text the concatenation of the appended texts, including runs of spaces, tabs and line breaks at any position, before and after save and reload. The XML text produced never contains a tab, line feed or two consecutive spaces within one encoded piece, so that consumers that collapse whitespace as ODF demands see the same text.",
 ["inputs", "histories"],
 "All XML-legal Unicode strings (in particular all whitespace patterns) and all splits into pieces.",
 "Tests list a dozen strings; whitespace patterns at piece boundaries form an infinite family.",
 ["ezodf/whitespaces.py", "ezodf/text.py"],
 [("whitespace encoder state machine", "whitespaces._WhitespaceEncoder"), ("append_text", "text.Span.append_text")],
 ["plaintext(), child elements and their text/tails"])

prop("C10", "Plain text is the document-order text and its length agrees",
 "For every text element (paragraph, heading, span, hyperlink, list item, list header, cell, whitespace elements) and any nesting of them, the plain text is the concatenation in document order of the text content with whitespace elements decoded (paragraph-level items and cell paragraphs joined by newlines), soft page breaks, formatted list numbers and XML comments contributing nothing, and the reported text length equals the length of the plain text. Reading the plain text changes nothing.",
 ["inputs"],
 "All nested mixed-content trees of text elements, including foreign inline elements, comments, tails and counts.",
 "Tests fix a few small trees; agreement of two recursive computations over all trees cannot be settled by samples.",
 ["ezodf/text.py", "ezodf/base.py", "ezodf/whitespaces.py", "ezodf/cells.py"],
 [("recursive text collection", "text.Span.plaintext / textlen"), ("joins", "text.ListHeader.plaintext, cells.Cell.plaintext")],
 ["plaintext() and textlen against an independent tree walk"])

prop("C11", "Generic element containers behave like lists",
 "Every content element acts on its children like a Python list of nodes: length, iteration, positive and negative indexing, get, set, delete, insert, insert-before, append, remove, replace, index and clear give the result of the same operation on a list of the child nodes, keep the identity and content of all other children, and out-of-range or foreign arguments raise without changing anything. Attribute, text and tail access stores and returns exactly the given value.",
 ["histories", "inputs"],
 "All operation sequences with arbitrary indices on containers of different element types, including nodes with texts and tails and nodes moved between parents.",
 "Tests exercise each operation once on one small fixed container.",
 ["ezodf/base.py", "ezodf/xmlns.py"],
 [("list operations on the XML node", "base.GenericWrapper")],
 ["children (identity and attributes) of the wrapped node after each operation"])

prop("C12", "Text objects keep their attributes as documented",
 "Style names, names, ids, link targets and flags set on spans, paragraphs, headings, hyperlinks, lists, list items, sections and numbered paragraphs are returned unchanged, also after save and reload, and setting one never alters another or the text; levels are never below 1, start values never below 1, a link to '_blank' is shown in a new frame and any other target replaces it. A list has at most one header, always its first child, and iterates over exactly its items in order; a simple list built from strings has exactly these items; protecting a section stores a protection key of plain characters; a numbered paragraph always has a content element and returns the existing one.",
 ["inputs", "histories"],
 "All attribute values (Unicode text, integers, booleans), all orders of setting and overwriting, all list contents.",
 "Tests set single attributes to single values.",
 ["ezodf/text.py", "ezodf/propertymixins.py", "ezodf/__init__.py"],
 [("attribute properties", "propertymixins"), ("list header and items", "text.List"), ("numbered paragraph content", "text.NumberedParagraph")],
 ["attribute values, XML attributes and child order"])

prop("C13", "Content appended to a body stays between declarations and epilogue",
 "Appending content to the body of a text document (new, opened or from a template) places it after all existing content and in front of the closing table-function elements, in append order, and never in front of the leading declarations; sheets and pages appended to their documents likewise come after the existing ones and before the closing elements. Opening a document adds missing declaration containers only in the leading declaration block, leaving the order of all other elements as it was.",
 ["inputs", "histories"],
 "All bodies with any subset of leading declaration elements, content and closing elements, and all sequences of appends, inserts and saves.",
 "Tests use bodies with one or two epilogue elements that were constructed in memory and never opened from a file.",
 ["ezodf/body.py", "ezodf/nodeorganizer.py", "ezodf/nodestructuretags.py", "ezodf/pagecontainer.py"],
 [("epilogue-aware append", "body.TextBody.append"), ("declaration containers", "body.GenericBody")],
 ["order of the children of the body element"])

prop("C14", "Setting a variable updates every occurrence and nothing else",
 "Assigning a string, number or boolean to a simple variable or user field by name makes its value, its type and the value and type of every occurrence of that variable anywhere in the content of the document equal to the assigned value, before and after save and reload. Variables and fields with other names, same-named variables of the other kind, and all other content stay unchanged, and iteration, membership and lookup list exactly the declared variables; unknown names raise KeyError.",
 ["inputs", "histories"],
 "All names (including quotes and other XML-special characters), all values including zero, empty text and booleans, any number and nesting of occurrences, any assignment sequence.",
 "Tests use one fixture with one value of each kind.",
 ["ezodf/variables.py", "ezodf/body.py"],
 [("declaration containers and occurrence search", "variables.Variables, Variable.instances")],
 ["values and types via API, occurrence texts and attributes in content.xml"])

prop("C15", "Cells return the value and type that were set",
 "Setting a cell value makes value, value type, currency and display text exactly those documented for the given Python type or explicit type (numbers as floats, booleans as booleans, everything else as text; currency only for currency cells) and removes every trace of the previous value, while style, formula, protection, validation and span attributes are preserved. A rejected value or type raises and leaves the cell unchanged, and a cell survives save and reload with the same value, type, currency and attributes.",
 ["inputs", "histories"],
 "All values of all types, all sequences of set, append-text, display-form and attribute changes on plain and covered cells.",
 "Tests set single values once; leftovers of previous values only show in sequences.",
 ["ezodf/cells.py", "ezodf/propertymixins.py"],
 [("value conversion and clearing", "cells.Cell.set_value")],
 ["Cell API and office:* attributes and children of the cell element"])

prop("C16", "Tables are rectangular matrices under row and column editing",
 "Through any sequence of append, insert and delete of rows and columns (with positive or negative indices and any counts) and cell assignments, a table is exactly the matrix obtained by the same operations on a list of lists: dimensions, every cell content, every row and column view, iteration order and the row and column information stay in step, cells that were not addressed are unchanged, and the stored table has exactly one cell per position and one column entry per column. An operation with an invalid index or count raises an exception and leaves the table unchanged.",
 ["histories", "inputs"],
 "All operation sequences on new tables and on tables loaded from documents (header rows, row and column groups, repeated cells and rows, missing column declarations), including save and reload.",
 "Tests check single operations on fixed 10x10 tables and only the row or the column controller in isolation.",
 ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py", "ezodf/tableutils.py"],
 [("row matrix", "tablerowcontroller.TableRowController"), ("column information", "tablecolumncontroller.TableColumnController")],
 ["Table API and table XML after every step"])

prop("C17", "Cell addresses and index tuples denote the same cell",
 "For every row and column index, the spreadsheet reference made of the column letters (A..Z, AA..) and the one-based row number, in either letter case, denotes the same cell, row and column as the zero-based (row, column) tuple for every operation accepting references. In cell, row and column access negative indices count from the end as in Python sequences and out-of-range positions raise IndexError, and text that is not a valid reference raises ValueError and never denotes a cell.",
 ["inputs"],
 "All indices (columns up to four letters and beyond, large row numbers), all malformed reference strings, all index tuples in and out of range.",
 "Tests convert six addresses.",
 ["ezodf/tableutils.py", "ezodf/table.py", "ezodf/tablerowcontroller.py"],
 [("address conversion", "tableutils.address_to_index, get_cell_index")],
 ["get/set of cells, row/column getters, spans by address and by tuple"])

prop("C18", "Repeated rows, columns and cells expand as the strategy says",
 "Opening a table expands its repeated cells, rows and column declarations exactly as configured: 'all' reproduces the full grid, 'all_but_last' everything but the last cell of each row and the last row (which occur once), 'all_less_maxcount' everything repeated less than the limit while larger repetitions occur once; short rows are padded with empty cells to a rectangle. Each expanded cell keeps the content and attributes of its source (xml:id identifiers stay unique, comments inside rows are no cells), order is preserved, no repetition other than the default 1 remains, tables nested inside cells keep their own structure, and the outcome depends only on the table and the configuration at the time it is first accessed.",
 ["inputs", "configurations"],
 "All tables with any repetition counts on cells, covered cells, rows and columns, in groups and header sections, with nested tables, all strategies and limits.",
 "Tests fix some small tables per strategy and count cells only.",
 ["ezodf/tablenormalizer.py", "ezodf/tablecolumncontroller.py", "ezodf/conf.py", "ezodf/tableutils.py"],
 [("row/cell expansion", "tablenormalizer"), ("column expansion", "tablecolumncontroller")],
 ["cells, row infos and column infos of the opened table"])

prop("C19", "Cell spans cover exactly their range and never overlap",
 "Setting a span on a cell makes exactly the other cells of the range covered, and removing it uncovers exactly those, with all cell contents, styles and all cells outside unchanged; the reported span is the one set and 1x1 means no span. A span request that leaves the table, has an invalid size or overlaps another span (its start cell or its covered cells) raises and changes nothing, so spanned areas never overlap in any reachable state, also after save and reload.",
 ["histories", "inputs"],
 "All sequences of set and remove span with all positions and sizes (as tuples or references) on tables of all shapes.",
 "Tests set two or three spans at fixed positions.",
 ["ezodf/cellspancontroller.py", "ezodf/cells.py", "ezodf/table.py"],
 [("span controller", "cellspancontroller.CellSpanController")],
 ["span/covered of every cell after each operation"])

prop("C20", "Sheets and pages behave like an ordered, named collection",
 "The sheets of a spreadsheet and the pages of a drawing or presentation form an ordered list: length, iteration, names, positive and negative index access, lookup by name (first match), append, insert, replace, delete and index agree with the same operations on a Python list of the sheet or page objects, whatever other elements the document body contains, and those other elements keep their order and content. Repeated access gives the same live object so edits through any reference are visible through all, and unknown names, indices or objects of the wrong type raise without changing the document.",
 ["histories", "inputs"],
 "All operation sequences with any indices and names (duplicates, Unicode, numeric-looking names), on new and opened documents with declarations and closing elements around the sheets, including moves and reloads.",
 "Tests use bodies that contain only sheets, so positions in the body and in the collection coincide.",
 ["ezodf/pagecontainer.py", "ezodf/sheets.py", "ezodf/pages.py", "ezodf/wrapcache.py"],
 [("page container", "pagecontainer.AbstractPageContainer"), ("identity cache", "wrapcache")],
 ["doc.sheets / doc.pages API and order of body children"])

prop("C21", "Copying, resetting and clearing tables is exact and independent",
 "A copy of a table has equal dimensions, cells, spans, row and column information and attributes (but no xml:id identifiers, which are unique in a document) and the requested (or derived) name, and afterwards editing the copy or the original in any way never changes the other. Resetting a table gives exactly the requested number of empty rows and columns and keeps its name, clearing keeps the dimensions, an invalid size raises and leaves the table unchanged, and references obtained before stay usable for further edits.",
 ["histories", "inputs"],
 "All tables (new or loaded, unnamed or named, with groups, headers, shapes, nested tables), all later edit sequences on both, all sizes.",
 "Tests copy one table and compare names and a cell.",
 ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py"],
 [("deep copy and reset", "table.Table.copy/reset/clear")],
 ["full table state of both tables after each edit"])

prop("C22", "Time strings and Python time values convert both ways",
 "Every date, date-time (to the second) and duration (to the stored sub-second precision) converts to an ODF time string that parses back to the same value, the class of the value (date, date-time, duration) is reported correctly, and every well-formed ODF date, date-time or duration string parses to the value the standard assigns to it (date-times without time zone; a year of a duration counts 365 and a month 30 days). Text that is not such a string raises ValueError.",
 ["inputs"],
 "All dates from year 1 to 9999, all date-times, durations of any sign and size, all combinations of duration components.",
 "Tests convert about ten values.",
 ["ezodf/timeparser.py"],
 [("parsing and formatting", "timeparser.TimeParser")],
 ["TimeParser value and string"])

prop("C23", "Broadcasts reach exactly the subscribed listeners of the document",
 "A broadcast of an event calls the handler of every live object subscribed to that event exactly once with the given message, and with a root given only those whose document root is that node; unsubscribed, destroyed and other-event listeners are never called, subscribing twice counts once, and objects without the handler are refused. Saving a document notifies the listeners of that document once before the package is written and once after, and no listener of other documents.",
 ["histories"],
 "All sequences of subscribe, unsubscribe, object destruction and broadcast over several events, listeners and documents.",
 "Tests use one or two listeners and never a root without children or several documents.",
 ["ezodf/observer.py", "ezodf/document.py"],
 [("observer registry", "observer.Observer"), ("save events", "document._BaseDocument.save")],
 ["handler call logs"])

prop("C24", "Prefixed names and element wrapping follow the namespace tables",
 "Every prefixed name over the ODF namespaces converts to the namespace-qualified name of the ODF namespace of that prefix and qualified names are returned unchanged, repeatedly and in any order; an unknown prefix or malformed name raises and never yields a wrong name. Wrapping an element gives the class registered for its tag or the generic one, always around that very element and without altering it, and a freshly created object has the element name of its class.",
 ["inputs", "histories"],
 "All prefixes and local names in all call orders; all elements with known, unknown, namespace-less and foreign tags.",
 "Tests look up a few names; caching makes results depend on call history.",
 ["ezodf/xmlns.py", "ezodf/const.py", "ezodf/base.py"],
 [("prefix resolution with cache", "xmlns._XMLNamespaces"), ("class registry", "xmlns._ClassRegistry")],
 ["CN(), wrap() results"])

prop("C25", "Node ordering tools place and check elements by tag order",
 "Reordering a node moves exactly its prelude-tagged children to the front and its epilogue-tagged children to the end, grouped in the given tag order and stable within each tag and for the rest, losing or duplicating nothing. The block helpers report size and per-tag position of the maximal conforming prelude or epilogue block, their insert positions keep a conforming block conforming, and the structure check accepts a node exactly when all children between the two blocks carry allowed tags.",
 ["inputs"],
 "All child tag sequences and all prelude/epilogue/midrange tag lists.",
 "Tests fix four nodes of three tags.",
 ["ezodf/nodeorganizer.py", "ezodf/nodestructurechecker.py"],
 [("reorder", "nodeorganizer.PreludeEpilogueOrganizer"), ("blocks", "nodeorganizer.PreludeTagBlock/EpilogueTagBlock"), ("checker", "nodestructurechecker.NodeStructureChecker")],
 ["child order, reported positions"])

prop("C26", "Styles are found, replaced and injected by name",
 "A style, font or page layout container returns for a name the style element carrying that name, whether it came from the file, was stored under that name or was injected as XML text, and raises KeyError otherwise; storing a style under its name replaces exactly the element of that name in place or, when there is none, appends it. Looking styles up changes nothing, style attributes read and written by their names are those of the element, other styles stay untouched, and all styles survive save and reload.",
 ["histories", "inputs"],
 "All sequences of lookup, store, attribute change and injection over all style containers of new and opened documents.",
 "Style management has no tests beyond construction.",
 ["ezodf/styles.py", "ezodf/document.py"],
 [("style containers", "styles.Container"), ("injection", "document._BaseDocument.inject_style")],
 ["container lookups and styles.xml/content.xml"])

prop("C27", "Rejected operations leave the document unchanged",
 "Every public editing operation on sheets, tables, cells, bodies, lists, sections, variables, pages, styles and meta data that raises an exception because of an invalid argument (index, count, size, name, type or value) leaves the serialised document exactly as it was and the document fully usable: later valid operations and saves behave as if the rejected one had never been attempted.",
 ["histories", "inputs"],
 "All histories that mix valid and invalid operations with invalid arguments of every kind at every point.",
 "Tests assert that an exception is raised but do not look at the state afterwards.",
 ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py", "ezodf/cells.py", "ezodf/cellspancontroller.py", "ezodf/pagecontainer.py", "ezodf/base.py", "ezodf/text.py", "ezodf/meta.py"],
 [("argument validation before mutation", "table*, cells, pagecontainer")],
 ["canonical XML of the document before and after the rejected call"])

prop("C28", "Documents are independent of each other",
 "With any number of documents open in one process, operating on one (editing, wrapping, configuring before access, saving, discarding it) never changes the content, type, meta data, objects or saved output of another, and a sequence of operations has the same result whether or not other documents were created, used and discarded before or in between. The table expansion setting is the only shared setting, takes effect for tables first accessed after it is set, and resetting it restores the documented default.",
 ["histories", "configurations"],
 "All interleavings of operation sequences over several documents of several types, including discarded documents.",
 "Tests run each document alone; shared caches, class-level state and mutable defaults only show in interleavings.",
 ["ezodf/wrapcache.py", "ezodf/conf.py", "ezodf/observer.py", "ezodf/xmlns.py", "ezodf/whitespaces.py", "ezodf/tablenormalizer.py", "ezodf/document.py"],
 [("process-wide caches and registries", "wrapcache, xmlns.XML, observer, conf.config, whitespaces.WhitespaceEncoder")],
 ["results of an operation sequence alone versus interleaved"])

prop("C29", "Damaged or unsupported packages are rejected when opened, never emptied",
 "Opening a file, byte string or stream, and creating a document from a template, raises an exception if the source is neither a zip package nor a flat XML document, if a part the library manages (mimetype, META-INF/manifest.xml, content.xml, styles.xml, meta.xml) is present but cannot be read from the container, is not well-formed XML or has the root element of another part, or if the media type of the package or flat document is not exactly one of the supported ones; and it raises none otherwise: the open document then holds what the parts of the source say. No part is ever replaced by an empty or partly read one. Missing parts and zero-length content.xml, styles.xml and meta.xml are not damage. Either way the source file and its directory stay as they were, no file stays open, other open documents do not change and the same path can be opened again once its content is sound.",
 ["inputs", "fault_sequences"],
 "All sources, sound and damaged at every byte of the container or of a managed part, over all document types, package features, source kinds and both ways of opening.",
 "Tests open sound packages and one file that is no package; damage has endless forms, and a reader that silently gives up half of a document destroys it at the next save.",
 ["ezodf/document.py", "ezodf/filemanager.py", "ezodf/bytestreammanager.py", "ezodf/manifest.py", "ezodf/content.py", "ezodf/styles.py", "ezodf/meta.py", "ezodf/compatibility.py"],
 [("choice of the reader", "document.opendoc, document._new_doc_from_template"), ("media type detection", "document.__detect_mime_type"), ("reading of parts", "filemanager.FileManager.get_bytes, get_xml_element"), ("root checks", "content, styles, meta, FlatXMLDocument constructors")],
 ["exception or document returned by opendoc/newdoc", "XML trees of the open document", "file and directory", "open file descriptors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps(p) + "\n")
print(len(P), "properties")
