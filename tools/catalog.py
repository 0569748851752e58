"""The properties: text, anchors, technique."""
W, R, X = "src/io/write.rs", "src/io/read.rs", "src/io/xmlwriter.rs"

CLAIMED = [
    dict(id="C01", title="Every text in the document model is escaped in the output",
         statement="Whatever characters a text in the workbook contains (names, cell contents, attribute values, metadata, settings, scripts), "
                   "the saved file shows exactly these characters to an XML parser: markup characters never leak into the XML unescaped, and "
                   "no other character is changed by escaping.",
         over=["inputs"], text="for every workbook and every string stored anywhere in it",
         why="Tests write a handful of fixed strings without markup characters; the property is about every string position times every character.",
         files=[X, W], mech=[("escaping writer primitives", X), ("choice of the escaping primitive per value", W)],
         observe="content.xml, styles.xml, meta.xml, settings.xml, manifest.xml of the saved package; the flat file",
         technique="output-summary abstract interpretation of the writer primitives + type-based sink analysis over MIR call sites",
         note="Decides the escape table for all characters and every writer call site by type. Trusts quick_xml's unescaping, chrono's formatting, and rustc's MIR."),
    dict(id="C02", title="Every saved document part is well-formed XML",
         statement="Every document part the library writes has one root element, properly nested and closed elements, attributes only inside "
                   "start tags and none twice, and is completely flushed, for every workbook content.",
         over=["inputs"], text="for every workbook, on every branch of the writer",
         why="The nesting depends on combinations of optional parts (groups, headers, empty rows, scripts, ...) that grow exponentially; tests sample a few.",
         files=[X, W], mech=[("balanced elem/end_elem calls", W), ("pending start tag state", X)],
         observe="all XML parts of the saved package and the flat file",
         technique="interprocedural typestate analysis of the XML writer over MIR + output summaries of its primitives",
         note="All branch outcomes in all calling contexts; nesting depth of data-driven groups (row/column groups, foreign tags) is taken as balanced per "
              "call, not counted."),
    dict(id="C03", title="Sheets, rows, columns and cells survive save and load unchanged",
         statement="Everything the model stores about a sheet and its rows, columns and cells besides the cell value (names, styles, default cell styles, "
                   "visibility, print settings, protection, groups, headers, repeat counts, formulas, validations, spans) is written to an attribute or element of "
                   "its own, and reading the file puts it back unchanged into the same place. What is not written is what the reader assumes when it is missing.",
         over=["inputs"], text="for every sheet, row, column and cell and every combination of optional settings",
         why="About 50 (element, attribute) pairs, each with a guard on the writer side, a key on the reader side and a destination; tests set one or two of them and "
             "mostly only look at the file by eye.",
         files=[W, R, "src/sheet.rs", "src/sheet_.rs", "src/cell_.rs"], mech=[("write_sheet, write_table_columns, row and cell writers", W), ("read_table, read_table_col_attr, "
             "read_table_row_attr, read_table_cell", R)],
         observe="the workbook returned by the reader for a file saved by the writer",
         technique="extraction of writer and reader tables (attribute -> guard, source field / key -> destination field) by dataflow over MIR, and matching of both",
         note="Per (element, attribute) pair and per guard; arithmetic of run lengths (which rows are folded into one repeat count) is not decided, only that the "
              "counts go to and come from the right fields."),
    dict(id="C04", title="Every cell value keeps its type and payload through save and load",
         statement="A cell value of any type (empty, boolean, number, percentage, currency, text, rich text, date/time, duration) is saved with the type name of exactly "
                   "this type and with its whole payload in the attributes belonging to it. Reading gives back a value of the same type made from these same attributes, "
                   "with no part of the payload dropped, rounded, defaulted or exchanged. Text with line breaks is saved as one paragraph per line and comes back as rich text of "
                   "these paragraphs, empty ones included; rich text that is one plain paragraph may come back as text.",
         over=["inputs"], text="for every cell value of every type",
         why="The mapping is spread over a writer match, a reader match with parsers and accumulators; tests check a few sample values per type and no combination with "
             "empty or negative payloads.",
         files=[W, R, "src/value_.rs", "src/io/format.rs", "src/io/parse.rs"], mech=[("value writer", W), ("value reader", R), ("date and duration formats", "src/io/format.rs")],
         observe="the workbook returned by the reader for a file saved by the writer",
         technique="per-variant token and payload tables from MIR dataflow (writer match vs reader match), format template check",
         note="The text/number conversions themselves (f64 Display/parse, chrono) are trusted; the format strings used on both sides are compared."),
    dict(id="C05", title="Styles, formats and page setup survive save and load unchanged",
         statement="Every attribute and sub-element of styles, value formats, fonts, page styles and master pages (headers and footers included) that the model stores is "
                   "written under its own name and read back into the same place unchanged, for every style family and every kind of format part.",
         over=["inputs"], text="for every style of every family, every format part, every page style and master page",
         why="Hundreds of optional attributes and nested parts in nine style families; tests build a few styles and only check that the file is written.",
         files=[W, R, "src/style/mod.rs", "src/format/mod.rs"], mech=[("write_styles, write_valuestyles, write_pagestyles, write_masterpage", W), ("read_styles_tag and "
             "callees", R)],
         observe="the workbook returned by the reader for a file saved by the writer",
         technique="extraction of writer and reader tables (attribute -> guard, source field / key -> destination field) by dataflow over MIR, and matching of both",
         note="Header/footer regions that are hidden are written without content by design; LibreOffice extension names are only read."),
    dict(id="C06", title="Document metadata survives save and load unchanged",
         statement="Every metadata item (generator, title, description, subject, keywords, creators, dates, print data, template, reload, hyperlink behaviour, statistics, "
                   "editing cycles and duration, user-defined values with their type) is saved under its own element and read back into the same item, unchanged.",
         over=["inputs"], text="for every metadata content",
         why="One test writes one full metadata record; the guards (empty vs missing) and the types of user-defined values are not covered.",
         files=[W, R, "src/metadata.rs"], mech=[("write_office_meta", W), ("read_office_meta", R)],
         observe="the metadata of the workbook returned by the reader for a file saved by the writer",
         technique="extraction of writer and reader tables by dataflow over MIR, and matching of both",
         note="Number and date conversions are trusted to be inverse when both sides use the same type and format."),
    dict(id="C07", title="Settings keep their structure, names, types and values",
         statement="Every setting is saved with the type name of its value type and read back as a value of this same type with the same payload, under the same name; "
                   "setting sets and indexed or named maps keep their kind, nesting and names.",
         over=["inputs"], text="for every tree of settings",
         why="Tests only read the settings of an empty default document.",
         files=[W, R, "src/config.rs"], mech=[("write_config_*", W), ("read_config_*", R)],
         observe="the configuration of the workbook returned by the reader for a file saved by the writer",
         technique="per-variant token and payload tables from MIR dataflow, element/kind table, matching of writer and reader",
         note="The conversion of the settings tree to the typed view settings (Detach of Config) is not part of this property."),
    dict(id="C08", title="Validations, annotations, drawings and scripts survive save and load",
         statement="Everything the model stores about content validations with their messages, cell annotations, draw frames and images, scripts and event listeners is "
                   "written under its own element or attribute and read back into the same place unchanged.",
         over=["inputs"], text="for every validation, annotation, drawing and script",
         why="Tests check one validation and one annotation by eye.",
         files=[W, R, "src/validation.rs", "src/draw.rs", "src/workbook_.rs"], mech=[("write_content_validations, write_annotation, write_draw_frame, write_scripts", W),
             ("read_validations, read_annotation, read_draw_frame, read_scripts", R)],
         observe="the workbook returned by the reader for a file saved by the writer",
         technique="extraction of writer and reader tables by dataflow over MIR, and matching of both",
         note="Text content is compared per element; the paragraphs of a validation message are joined by the reader as documented."),
    dict(id="C09", title="Every style is saved in its section and restored with its kind, origin and use",
         statement="For each kind of style (table, column, row, cell, paragraph, text, ruby, graphic), each kind of value format and for fonts, and for every combination of StyleOrigin and "
                   "StyleUse: saving writes the style exactly once, in the section ODF has for that use (automatic styles and fonts in the document of their origin, common and default styles "
                   "in office:styles), with the style:family of its kind and as style:default-style exactly for StyleUse::Default; loading that section restores the same kind and use, and as "
                   "origin the document it was found in. A flat file contains all of them too, whatever their origin.",
         over=["inputs"], text="for every style or format of every kind with every origin and use, in both file formats",
         why="16 collections times 6 combinations times 2 formats; tests use automatic cell styles almost exclusively, and a style in the wrong section is silently ignored or lost.",
         files=[W, R], mech=[("write_styles, write_valuestyles, write_office_*styles, convert", W), ("read_office_*styles, read_style_style, read_value_format", R)],
         observe="iter_cellstyles() and the like, style.origin(), style.styleuse() of the loaded workbook; sections of content.xml and styles.xml",
         technique="interprocedural constant propagation of origin and use through writer and reader call contexts over MIR",
         note="Exhaustive over collections, origins, uses, file formats. Value formats have no default element: StyleUse::Default is saved as a common format."),
    dict(id="C10", title="The saved package has the layout ODF requires and loses no part",
         statement="A saved ODS package starts with an uncompressed 'mimetype' entry holding the spreadsheet media type, contains META-INF/manifest.xml, meta.xml, settings.xml, "
                   "styles.xml and content.xml exactly once each (every one listed in the manifest) and every other file of the workbook's manifest once under its own path with its own "
                   "bytes, uses the chosen compression for all entries but the mimetype, and is finished. The reader looks every part up under that name, hands it to the reader for its "
                   "root element, and keeps every other file of the manifest (path, media type, bytes), so load and save lose none.",
         over=["inputs"], text="for every workbook and every set of extra files in its manifest",
         why="The set of extra files is unbounded and collides with the parts' own names (embedded objects have their own content.xml); tests have no extra files.",
         files=[W, R, "src/manifest.rs"], mech=[("write_ods_impl, write_ods_extra, create_manifest", W), ("read_ods_impl, read_ods_extras, read_ods_manifest", R)],
         observe="the entries of the saved archive; the manifest entries of the loaded workbook",
         technique="typestate trace of archive operations over MIR paths + symbolic evaluation of the name tests",
         note="Order, names, options and counts of archive operations along all paths of the writer. Trusts the zip crate."),
    dict(id="C11", title="A failure while loading or saving is reported, never swallowed",
         statement="Whenever an I/O, archive, XML or value-parsing operation fails inside a load or save, the call returns an error: it never reports success after dropping, defaulting or "
                   "skipping what failed, everything buffered is flushed before success is reported, and no write is cut short. (An optional part that is absent from the archive is no failure.)",
         over=["inputs", "fault_sequences"], text="for every failing operation at every point of a load or save",
         why="There are about 2000 fallible calls; tests never make one of them fail.",
         files=[R, W, "src/io/parse.rs", X], mech=[("use of every Result in functions reachable from the entry points", R), ("flush before Ok", W)],
         observe="the Result of read_ods*, read_fods*, write_ods*, write_fods* and OdsOptions / OdsWriteOptions",
         technique="error-propagation dataflow over MIR of all functions reachable from the entry points",
         note="Every Result-typed call result and every match on a Result in reach. Known finding: non-existing calendar dates are read as 1970-01-01."),
    dict(id="C12", title="Loading always comes to an end, whatever the file contains",
         statement="Loading a file always returns, with a workbook or an error, however it is cut off, damaged or nested: every loop that reads XML stops when the input "
                   "ends, wherever in the document that happens, and every other loop makes progress with each turn.",
         over=["inputs"], text="for every input, in particular every document cut off at any element",
         why="A document can end inside any of the about 40 nested event loops; tests only read complete documents.",
         files=[R, "src/io/parse.rs"], mech=[("event loops of the read_* functions", R)],
         observe="read_ods*, read_fods* return",
         technique="path exploration of every event loop over the MIR control flow graph, with the facts of the matches on the event; loop variants for the other loops",
         note="Every cycle through a fetch of an event in every function reachable from the load functions. Trusts quick_xml to report the end of the input, and iterators of std to end."),
    dict(id="C13", title="Loading never panics, whatever the file contains",
         statement="No input makes a load panic: what is missing, malformed or out of range in a document gives an error or is skipped, but is never unwrapped, indexed, sliced, divided by, "
                   "asserted or used in date arithmetic unchecked. (Overflow checks on integer additions in debug builds are not part of this.)",
         over=["inputs"], text="for every input, in particular every malformed attribute value",
         why="There are about 60 places in the reader that could panic, each for input no test has.",
         files=[R, "src/io/parse.rs", "src/style/units.rs", "src/sheet_.rs"], mech=[("attribute parsers", "src/io/parse.rs"), ("read_* functions", R)],
         observe="read_ods*, read_fods* return instead of unwinding",
         technique="inventory of all panicking operations in functions reachable from the load functions over MIR; each is discharged by path facts or a reviewed invariant",
         note="Panics of dependencies (quick_xml, zip, chrono's checked functions) and integer overflow checks are not included. 25 sites rest on reviewed invariants, listed in p_panic.py."),
    dict(id="C14", title="View settings, column widths and row heights survive save and load",
         statement="Every view setting of the workbook and of each sheet (active table, tabs, grid, cursor, split modes and positions, visible range, zoom) and every column width and row height "
                   "set in the model is saved, under one key of its own and whatever its value, and a load restores it into the same place. They are collected before the file is "
                   "written and applied before the loaded workbook is returned, for ODS and flat files.",
         over=["inputs"], text="for every workbook, every setting and every value of it",
         why="20 settings, each a key on the writer's and the reader's side; the tests look at none of them after a reload.",
         files=[W, R, "src/sheet_.rs", "src/workbook_.rs"], mech=[("calc_config, calc_col_header_styles, calc_row_header_styles", W), ("calc_derived", R)],
         observe="Sheet::config(), WorkBook::config(), col_width(), row_height() of the reloaded workbook",
         technique="interprocedural term extraction of saved and restored settings over MIR (key path, type, field, conditions), matching of both, and path order of collecting/writing and reading/applying",
         note="Columns or rows that share one style but have different sizes are not covered (the library writes the size into the shared style)."),
    dict(id="C15", title="Load and save options do what they say, in every entry point",
         statement="Each option setter changes the option it names and nothing else, its counterpart takes it back and is the default, and the option has exactly its documented effect: content_only() skips "
                   "everything but the content, use_repeat_for_cells() keeps repeated cells unexpanded while otherwise they are cloned in every loader, and ignore_empty_cells() drops just the cells "
                   "without value and formula. The functions without options use the defaults; write_ods_buf_uncompressed() stores, all other writers deflate, and compression method and level are used as given.",
         over=["configurations", "inputs"], text="for every combination of options and every entry point",
         why="6 entry points for reading times 8 combinations of options; tests use one or two.",
         files=[R, W], mech=[("OdsOptions, OdsContext::new, calculations, ignore_cell", R), ("OdsWriteOptions, write_ods*", W)],
         observe="the workbook loaded with the options; the compression method of the entries of the saved archive",
         technique="role analysis of option fields (setter -> field -> context -> branch) with path conditions over MIR",
         note="Decides which option a branch looks at and with which polarity; how cells are expanded is not part of it."),
    dict(id="C16", title="Rows and columns are never mixed up",
         statement="A row index, row count or row span given to any public function, kept in the model, written to or read from a file is only ever used as one, and a column index, count or span only as a column: "
                   "no call passes them in the wrong order, no cell key, range, span, header, repeat count or table:number-rows-*/number-columns-* attribute takes one for the other, and the two are never "
                   "compared with, added to or assigned to each other.",
         over=["inputs"], text="for every cell position, span, range and header the library handles, with row and column different",
         why="Rows and columns are both plain u32 and are passed in pairs through some 500 functions; tests often use symmetric positions (or none) where a swap does not show.",
         files=["src/sheet_.rs", R, W, "src/refs.rs", "src/refs/format.rs", "src/refs_impl/parser.rs", "src/cell_.rs"], mech=[("(u32, u32) keys, row/col parameters and fields", "src/sheet_.rs"), ("repeat and span attributes", R)],
         observe="positions seen by value(row, col), cell references, spans, ranges and headers",
         technique="unification-based axis inference (a qualifier type system over MIR locals, fields, parameters and returns, seeded from the public API's names and ODF attribute names)",
         note="Whole crate, flow-insensitive. Seeds are the names of public parameters and fields; values with no connection to a seed are unconstrained. Pixel positions and generic counts are outside."),
    dict(id="C17", title="Getters return what setters stored, and nothing else changes",
         statement="For every property of the model (workbook, sheet, cell, column and row headers, styles, formats, validations, draw frames, references) that has both: after set_x(v) the getter x() returns v unaltered, for the "
                   "same row, column or name, whatever was stored before; no other property changes; clear_x() and remove_x() take exactly that back; x_mut(), add_x() and iter_x() work on the same data as x(); and a constructor "
                   "puts each argument where the getter of that name finds it.",
         over=["inputs", "histories"], text="for every pair of accessors, every value and every sequence of calls",
         why="There are about 300 pairs; the tests call a few dozen of them, mostly on fresh objects with one value.",
         files=["src/sheet_.rs", "src/workbook_.rs", "src/cell_.rs", "src/metadata.rs", "src/validation.rs", "src/draw.rs", "src/refs.rs", "src/style/masterpage.rs", "src/style/pagestyle.rs"],
         mech=[("set_x()/x() pairs of all public types", "src/sheet_.rs"), ("new() functions", "src/style/masterpage.rs")],
         observe="the getter of the property, and all other getters",
         technique="interprocedural effect analysis over MIR: places read and written by each accessor (field path and index terms), value terms and path conditions, matched by name",
         note="Pairs are matched by method name on the same type. How a repeated or spanned range of headers is split is only checked for which fields are touched. Values of numeric conversions are not decided."),
    dict(id="C18", title="What is added to a workbook is found again under its name",
         statement="add_x(obj) of the workbook files obj itself under obj's own name (a nameless style gets an automatic name first, one that is not yet taken in that collection; named ones keep theirs) and returns "
                   "a reference with that name; x(), x_mut(), remove_x() and iter_x() look up exactly that name in the same collection. push_sheet(), insert_sheet(i) and remove_sheet(i) keep the order of all other "
                   "sheets, and a sheet that is detached and attached again is back at its position.",
         over=["inputs", "histories"], text="for every kind of style, format and other named part, every name and every sequence of calls",
         why="There are 20 collections with the same five functions each; tests add one or two cell styles with names of their own.",
         files=["src/workbook_.rs", "src/ds/detach.rs"], mech=[("add_*, *_mut, remove_*, iter_*", "src/workbook_.rs"), ("auto_style_name, auto_style_name2", "src/workbook_.rs")],
         observe="the look-up functions and iterators of WorkBook after adding",
         technique="effect analysis over MIR: collection places, key and value terms, order of naming and filing on all paths, test-before-return of the name generators",
         note="Attaching at a remembered position assumes the sheets were not reordered in between."),
    dict(id="C19", title="Style and format attributes have their ODF name and the given value",
         statement="Every attribute setter of the styles, value formats, format part builders, text elements, draw frames and annotations stores its attribute under the name that OpenDocument 1.3 has for it, in the group "
                   "of properties it belongs to (text properties are not put among the cell properties); the stored text is that of the arguments, in the order ODF wants them (colours as #rrggbb); a value that stands for "
                   "'default' removes the attribute; composite setters (locale, font attributes) set or clear each of their attributes, on every path; and no other attribute is changed.",
         over=["inputs"], text="for every setter, all its arguments, and whatever was set before",
         why="There are over 1200 setters, generated by macros for each style; the tests call some of them once, and a misnamed attribute round-trips without a complaint while every other program ignores it.",
         files=["src/macro_attr_fo.rs", "src/macro_attr_style.rs", "src/macro_attr_number.rs", "src/macro_attr_text.rs", "src/macro_attr_table.rs", "src/macro_attr_draw.rs", "src/format/builder.rs", "src/style/mod.rs", "src/text.rs"],
         mech=[("attribute macros", "src/macro_attr_fo.rs"), ("border_string, shadow_string, color_string", "src/style/mod.rs")],
         observe="attributes in styles.xml and content.xml",
         technique="path-sensitive string summaries over MIR: every change of an attribute map on every path of each setter, its key and the template of its value, compared with tables of the ODF schema",
         note="The tables were transcribed from OpenDocument 1.3 chapters 16 to 20. Text assembled by iterator chains (join, collect) is only checked for the arguments it contains. The range of numeric values is not checked."),
    dict(id="C20", title="Enums and units are written and read with their ODF tokens",
         statement="Each variant of the enums for style, format, validation and link values is displayed as the token OpenDocument has for it, and lengths, angles and percentages as their number followed by their unit; "
                   "the parsers of these types map each token and unit back to the variant that is displayed that way and reject other text; each text type creates its ODF element.",
         over=["inputs"], text="for every variant of every type and every number in it",
         why="67 enums with some 270 variants; a wrong token is only seen when that variant is used and the file is opened elsewhere.",
         files=["src/style/units.rs", "src/format/mod.rs", "src/validation.rs", "src/xlink.rs", "src/sheet_.rs", "src/text.rs", "src/macro_text.rs"],
         mech=[("Display and ParseStyleAttr implementations", "src/style/units.rs")],
         observe="attribute values in the file, lengths after reading",
         technique="path-sensitive string summaries of Display and parse functions over MIR, per variant, compared with the ODF token tables and with each other",
         note="Number formatting itself is Rust's."),
    dict(id="C21", title="Value formats consist of exactly the parts that were asked for",
         statement="part_x() starts a format part of type x, build() adds it once, with the attributes given to it, at the end of the format it was started for, and if_then() applies its changes exactly if its test is true. "
                   "push_x() and the ready-made formats (create_...) have the parts their name promises, in that order, with the given name, locale, symbol, digits and grouping. "
                   "The default formats of every locale have the parts of their kind and the default name of that kind; each value type is bound to the default style, and each default style to the default format, of its own kind.",
         over=["inputs", "configurations"], text="for every format type, part, builder method, locale and argument",
         why="19 builders, some 90 functions that assemble formats and 4 locales; the tests build a few number and date formats and do not look at the parts.",
         files=["src/format/builder.rs", "src/format/create.rs", "src/macro_format.rs", "src/locale/default.rs", "src/locale/de_at.rs", "src/locale/en_us.rs", "src/locale/cs_cz.rs", "src/defaultstyles.rs", "src/workbook_.rs"],
         mech=[("format part builders", "src/format/builder.rs"), ("create_* functions", "src/format/create.rs"), ("LocalizedValueFormat", "src/locale/mod.rs"), ("locale_settings()", "src/workbook_.rs")],
         observe="parts() of the value formats, the data styles in styles.xml and content.xml",
         technique="path summaries over MIR of the parts, attributes and contents added to a value format (closures followed), compared with what each function is named after",
         note="Separators and digit counts that are a matter of taste are not fixed, except the percent sign. The tag a locale is registered under is not decided."),
    dict(id="C22", title="Cell references keep their parts as text and in formulas",
         statement="The text of a cell reference, cell, row or column range consists of the iri, the table, the columns and the rows of that reference, in ODF order, with $ exactly for absolute parts and quotes wherever a name needs them; parsing the text puts each part back into the field it was written from, and rejects text with anything left over. "
                   "Constructors, absolute...(), to_formula(), the f...ref functions and cell!() refer to exactly the cells they were given, absolute exactly where asked. contains() is true exactly for the cells of the range, both ends included.",
         over=["inputs"], text="for every reference type, combination of iri, tables and absolute flags, and every table name",
         why="four reference types with up to 7 optional parts (hundreds of combinations) and names with arbitrary characters; the tests use a few.",
         files=["src/refs.rs", "src/refs/parser.rs", "src/refs/format.rs", "src/formula.rs"],
         mech=[("format_refs", "src/refs.rs"), ("parse_cell_ref .. parse_row_range", "src/refs/parser.rs"), ("fcellref.., cell!()", "src/formula.rs")],
         observe="Display, TryFrom<&str>, to_formula(), contains() of CellRef, CellRange, ColRange, RowRange; print ranges and base cells after save and load",
         technique="path-sensitive string summaries of Display over MIR matched against the layout of a reference; symbolic results of the parser combinators; character sets of the quoting test and the name parser compared; order abstraction for contains()",
         note="The letters of a column and the digits of a row are taken as given (N02)."),
    dict(id="C23", title="Conditions are the ODF expressions they are named after",
         statement="Each function of Condition and ValueCondition gives the ODF condition it is named after: that tested property, that comparison operator, the given value, bounds, list, range or condition in the given order. Texts are quoted with their quotes doubled; other values are their plain text; lists have every element, separated by ;.",
         over=["inputs"], text="for every condition function and every value",
         why="28 functions and 26 conversions; the tests look at about half of the functions and no text with quotes.",
         files=["src/condition.rs"], mech=[("Condition, ValueCondition", "src/condition.rs"), ("quote()", "src/condition.rs")],
         observe="Display of the conditions; condition attributes of style maps and validations in the file",
         technique="path-sensitive string summaries of each function over MIR compared with the ODF grammar of conditions",
         note=""),
    dict(id="C24", title="Rich text and passed-through XML are kept whole, in order and in place",
         statement="Rich text (cells, annotations, headers and footers, validation messages) and the elements the library only passes through (scripts, calculation settings, "
                   "label ranges, tracked changes, named expressions, database ranges, data pilots, conditional formats, forms, shapes and the other extra elements of sheets and "
                   "workbook) are written completely and in document order, and reading gives them back the same: every element with its own name, every attribute, every text "
                   "(with spaces, character and entity references), every child in its place, every paragraph, and each element in the sheet or workbook it was found in. "
                   "Excluded: a paragraph of nothing but text is read as plain text, without attributes of the paragraph; CDATA sections.",
         over=["inputs"], text="for every tree of elements and texts",
         why="It is a recursive structure handled by seven readers and two writers with a stack; tests contain a handful of nested elements and no character references, "
             "empty paragraphs or passed-through elements inside sheets.",
         files=[W, R, "src/xmltree.rs"], mech=[("write_xmltag, write_xmlcontent", W), ("read_xml, read_text_or_tag, append_text", R)],
         observe="the file written and the workbook returned by the reader for it",
         technique="event-arm analysis of the reading loops, must-pass dataflow of the passed elements, writer order and completeness analysis over MIR",
         note="The tokenizer of quick-xml is trusted."),
    dict(id="C25", title="Rust values become the cell value of their type, and come out of it unaltered",
         statement="Converting a Rust value into a cell value gives the kind of value that belongs to its type (numbers and decimals a number, text a text, rich text a rich text, bool a "
                   "boolean, dates, times and date-times a date-time, durations a duration), made from the whole given value: a date at 00:00:00, a time on 1899-12-30, every number "
                   "converted to f64 directly; an Option gives the empty value exactly for None. new_currency() and new_percentage() keep their arguments. The getters (as_x_opt(), "
                   "as_x_or(), as_x_or_default(), currency(), value_type()) return the payload of exactly the kinds of value that hold an x (number, percentage and currency for every "
                   "number type), unaltered but for the conversion to the requested type, and otherwise nothing, the given default or the type's default.",
         over=["inputs"], text="for every Rust value and every cell value",
         why="There are some seventy conversions, most of them instances of a macro; tests use a handful, with small and whole numbers.",
         files=["src/value_.rs"], mech=[("From<T> for Value", "src/value_.rs"), ("Value::as_..., value_type, currency, new_...", "src/value_.rs")],
         observe="the cell value made by the conversion, and what the getters of a cell value return",
         technique="extraction of the returned terms per variant and path over MIR, checked against the kind of the Rust type",
         note="The conversions of numbers to f64 and back (casts, rust_decimal) are those of Rust and rust_decimal."),
]

NOT_APPLICABLE = [
    dict(id="N01", title="Numbers, dates and durations keep their exact value as text",
         statement="A number, date or duration that is written as text and parsed again is bit for bit the same value.",
         over=["inputs"], text="for every 64 bit float, date and duration", why="tests use a few values",
         files=["src/io/format.rs", "src/io/parse.rs"], mech=[("format_duration2, parse_duration", "src/io/format.rs")], observe="value() after save and load",
         reason="depends on the algorithms of std and chrono over all bit patterns and on arithmetic over the parsed digits; static analysis of this crate only shows that matching functions and formats are used (C04)"),
    dict(id="N02", title="Column letters and column numbers convert into each other",
         statement="The letters displayed for a column number are parsed back to the same number, for all columns, and no other text is parsed to it.",
         over=["inputs"], text="for every column number", why="tests use a few columns",
         files=["src/refs/format.rs", "src/refs_impl/parser.rs"], mech=[("fmt_col_name, try_u32_from_colname", "src/refs/format.rs")], observe="CellRef display and parse",
         reason="base 26 arithmetic in loops; needs induction over the values, which dataflow over the source cannot give"),
    dict(id="N03", title="Repeat counts and header splits add up",
         statement="The repeat counts written for rows, columns and cells cover exactly the area of the sheet, and splitting a run of column or row headers covers the same columns or rows without gap or overlap.",
         over=["inputs", "histories"], text="for every arrangement of cells and headers", why="tests use a few arrangements",
         files=["src/io/write.rs", "src/sheet_.rs"], mech=[("write_table_rows, row_header_mut", "src/io/write.rs")], observe="cells and headers after save and load",
         reason="relational invariants between loop-carried counters over arbitrary cell maps; no sound static argument in reach bounds them (C03 and C16 decide the fields and axes involved)"),
    dict(id="N04", title="Loading and saving take time and memory proportional to the document",
         statement="Loading and saving take time and memory linear in the size of the document, also for hostile repeat counts.",
         over=["inputs"], text="for every document", why="tests use small documents",
         files=["src/io/read.rs", "src/sheet_.rs"], mech=[("repeat handling", "src/io/read.rs")], observe="run time",
         reason="a runtime quantity that depends on data; not bounded by any static argument in reach"),
]
