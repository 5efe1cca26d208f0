props += [
P("C01", "Formatting is total and deterministic",
  "For every UTF-8 document and every valid option set, formatting returns a result: it never panics or overflows, and the empty document formats to the empty document. Formatting the same document with the same options always gives the same output and the same warnings, and the plain entry point and the one that also reports warnings give the same output.",
  ["inputs", "configurations"], "all UTF-8 strings (including unstructured and hostile ones, with block nesting of practical depth) x all valid option sets",
  "The tests call the formatter on about 560 hand-written well-formed documents, nearly all with default options; a crash needs an unusual combination (multi-byte text at a column boundary, a very long label, a tiny line width).",
  ["src/lib.rs", S+"state.rs", S+"wrap.rs", S+"mod.rs", S+"heading.rs", S+"inline.rs"],
  [("source slicing that snaps to character boundaries", S+"state.rs safe_str_slice / extract_source"), ("width arithmetic", S+"mod.rs write_footnote, "+S+"wrap.rs")],
  ["hongdown::format", "hongdown::format_with_warnings"]),
P("C02", "Formatting is idempotent",
  "Formatting an already formatted document changes nothing: for every document and option set, format(format(d)) is byte-for-byte format(d). So a check run right after a write run always succeeds.",
  ["inputs", "configurations"], "all well-formed Markdown documents of the supported dialect x all valid option sets",
  "Tests format a handful of documents twice; instability shows up only for particular combinations of construct, nesting, wrapping position and option.",
  [S+"mod.rs", S+"document.rs", S+"inline.rs", S+"wrap.rs", S+"list.rs", S+"code.rs"],
  [("escapes kept from the source", S+"inline.rs escape_text_preserving_source"), ("soft-break markers", S+"wrap.rs"), ("reference style detection", S+"mod.rs get_reference_style_info")],
  ["hongdown::format"]),
P("C03", "Formatting preserves what the document means",
  "The formatted document renders to the same block structure, inline structure and text as the original: nothing is dropped, duplicated, reordered, merged into a neighbour or turned into different markup. The only differences allowed are the documented ones: punctuation replacement, sentence case in headings, a default code language, line wrapping inside paragraphs, renumbered ordered lists, and the placement of link-reference and footnote definitions.",
  ["inputs", "configurations"], "all well-formed Markdown documents of the supported dialect (headings, paragraphs, emphasis, links, images, lists, task lists, block quotes, alerts, tables, code, HTML, definition lists, footnotes, thematic breaks) x all valid option sets",
  "The tests compare formatted text for single constructs; whether meaning survives depends on how constructs nest, where lines wrap and which characters the text contains.",
  [S+"document.rs", S+"inline.rs", S+"list.rs", S+"block.rs", S+"escape.rs", S+"wrap.rs"],
  [("inline collection and escaping", S+"inline.rs, "+S+"escape.rs"), ("nesting prefixes", S+"block.rs, "+S+"list.rs")],
  ["hongdown::format output re-parsed and rendered with the dialect hongdown itself parses"],
  state=[("list_depth, list_item_indent, blockquote_prefix", "the indentation context of the block being written", S+"state.rs")]),
P("C04", "Code is never altered",
  "The content of every code block and code span reaches the output byte for byte (apart from line-ending and newline-in-span normalisation), with its info string, and no punctuation, wrapping or case rule touches it. Fences are always long enough that nothing inside a block can close it, at every nesting level and for every fence option.",
  ["inputs", "configurations"], "all code block and code span contents (including fence-like and backtick-heavy ones) x nesting x fence, width, punctuation and case options",
  "Tests cover fixed snippets; breakage needs content that looks like a fence, spans at wrap positions, or nesting in lists, quotes and definitions.",
  [S+"code.rs", S+"escape.rs", S+"inline.rs", S+"wrap.rs"],
  [("fence length selection", S+"code.rs serialize_code_block*"), ("code span delimiters", S+"escape.rs format_code_span"), ("spans as unbreakable tokens", S+"wrap.rs wrap_single_segment")],
  ["code blocks and code spans of the re-parsed output"]),
P("C05", "Links and images keep their targets; external links become references",
  "Every link and image of the input is in the output with the same text, destination and title. Links to http(s) URLs come out as reference links whose definition stands, once, at the end of the section (before the next level-2 or level-3 heading) in which they are first used; links to relative URLs and fragments stay inline, and autolinks stay autolinks.",
  ["inputs", "configurations"], "all combinations of inline, full, collapsed, shortcut and autolinks and images, with repeated labels, titles, numeric labels, over any section layout",
  "Tests fix small documents; collisions of labels, emitted-once bookkeeping and section flushing depend on the history of links seen so far.",
  [S+"link.rs", S+"mod.rs", S+"document.rs", S+"inline.rs"],
  [("pending and emitted reference sets", S+"mod.rs flush_references"), ("style detection", S+"mod.rs get_reference_style_info")],
  ["reference definitions and links of the output"],
  state=[("pending_references / emitted_references", "definitions still owed to the current section, and those already written", S+"state.rs")]),
P("C06", "Footnotes survive exactly once, in the section that references them",
  "Every footnote that the document references keeps exactly one definition in the output, with the same content, and that definition stands at the end of the section in which the footnote is first referenced. Definitions numbered with digits in one section come out in numeric order after the named ones.",
  ["inputs"], "all documents with footnotes: any order of definitions and references, repeated references, block content, links inside footnotes, any section layout",
  "Tests cover a few layouts; placement depends on the order of reference and definition lines relative to section headings.",
  [S+"mod.rs", S+"document.rs", S+"state.rs"],
  [("flush before a heading line", S+"mod.rs flush_footnotes_before"), ("first reference line", S+"document.rs collect_footnote_reference_lines")],
  ["footnote definitions of the output"]),
P("C07", "Disabled regions come out exactly as written",
  "Whatever a disable directive covers (the rest of the file, the next block, the rest of the section, or everything up to the enable directive) appears in the output character for character as in the input, and the directive comment itself is kept. Text outside the covered region is formatted as usual.",
  ["inputs", "configurations"], "all documents with any sequence of the five directives x any block content in and around the region x option sets",
  "Tests try each directive once with plain paragraphs; the mode is a small state machine whose behaviour depends on the order of directives, headings and block kinds.",
  [S+"document.rs", S+"state.rs"],
  [("skip mode state machine", S+"document.rs serialize_document"), ("source extraction", S+"state.rs extract_source, extract_source_from_line")],
  ["hongdown::format output compared with the source text of the region"],
  state=[("skip_mode", "whether and until when blocks are copied verbatim", S+"state.rs")]),
P("C08", "Prose wraps at the configured width, never inside an unbreakable unit",
  "No output line of running prose is wider, in display columns (East Asian wide characters count two), than the configured line width unless it holds a single unit that cannot be broken at that point (a long word, a code span or a bracketed link text). Wrapping moves only white space: the sequence of words is unchanged, hard breaks stay where they were, and source lines that already fit stay as they were written. (On the first line of a list item the marker itself is not counted.)",
  ["inputs", "configurations"], "all paragraphs (ASCII, CJK, combining characters, code spans, links, hard breaks) in any container x line widths from 8 up",
  "Tests use a few sentences at width 80; boundary errors need a line whose width is exactly at the limit with wide characters or a nested prefix.",
  [S+"wrap.rs", S+"mod.rs", S+"list.rs"],
  [("token packing", S+"wrap.rs wrap_single_segment, add_token_to_line_with_prefix"), ("keep-short-lines rule", S+"wrap.rs wrap_text_segment")],
  ["display width of the output lines"]),
P("C09", "Block style is canonical and follows the options",
  "Whatever style the source used, the output uses the configured one: level-1/2 headings underlined to the display width of their text (or ATX when disabled), ATX for deeper levels; the configured fence character, minimum fence length, spacing and default language; the configured thematic break; two blank lines before a level-2 heading that follows content, otherwise one blank line between blocks; and exactly one trailing newline.",
  ["inputs", "configurations"], "all sequences of blocks written in any source style x heading, fence, thematic-break options",
  "Tests check single blocks under default options; spacing depends on the pair of neighbouring blocks and options interact.",
  [S+"document.rs", S+"code.rs", "src/config.rs"],
  [("heading output", S+"document.rs serialize_heading"), ("block spacing", S+"document.rs serialize_document"), ("fence output", S+"code.rs")],
  ["lines of the output"]),
P("C10", "Lists use the configured markers, numbering and indentation",
  "Every bullet uses the configured marker with the configured spaces around it; ordered items are numbered consecutively with the delimiter configured for their nesting level, and the marker keeps its fixed width. Nested items and continuation lines are indented so that the nesting, the looseness, the task boxes and the item contents are the same as in the source.",
  ["inputs", "configurations"], "all lists (any depth, kind, length, looseness, task state, written with any markers) x list options for which the output is valid CommonMark",
  "Tests check short lists with default options; number width changes at 10 and 100 items, depth parity and mixed nesting.",
  [S+"list.rs", S+"document.rs"],
  [("marker and indent computation", S+"list.rs serialize_list_item")],
  ["list lines of the output and their re-parse"]),
P("C11", "Tables stay aligned and keep every cell",
  "Every table comes out with the same rows, columns, alignments and cell contents, with literal pipes still escaped. All rows, including the separator, have their pipes at the same display columns (East Asian wide characters count two), each column at least three wide and no wider than needed, with cells padded according to their alignment.",
  ["inputs", "configurations"], "all tables: any column count and alignment, cells with any inline content, wide characters, escaped pipes, ragged rows, top level or quoted",
  "Tests use a few tables; padding depends on the display width of the widest cell and escaping interacts with code spans.",
  [S+"table.rs", S+"escape.rs"],
  [("column widths", S+"table.rs serialize_table"), ("pipe escaping", S+"escape.rs escape_table_cell")],
  ["table lines of the output and their re-parse"]),
P("C12", "Punctuation replacement follows its rules and touches nothing else",
  "With every punctuation option off, text is unchanged. An enabled option replaces only its own ASCII pattern with its own typographic character, in text but never in code, HTML, URLs or titles, so undoing the replacement character by character gives back the source text; balanced quotations (double ones of any length, single ones of up to 50 characters) get an opening and a closing mark, and contractions and possessives keep the ASCII apostrophe unless curly apostrophes are on.",
  ["inputs", "configurations"], "all texts over letters, digits, quotes, dots, dashes and spaces x all combinations of the six punctuation settings, including custom dash patterns",
  "Tests list examples; the outcome depends on neighbouring characters, open-quote state and the interplay of settings.",
  [S+"punctuation.rs", S+"inline.rs"],
  [("ordered transformations", S+"punctuation.rs transform_punctuation")],
  ["text nodes of the re-parsed output"]),
P("C13", "Sentence case changes letter case only, by the documented rules",
  "With sentence case on, a heading differs from its source only in letter case and in quote marks; the first word is capitalised and every other word is lowercased unless it is an acronym, all-caps, a code span, non-Latin text, the pronoun I, or a listed proper noun, which appears in its canonical spelling. Listed common nouns override built-in proper nouns, document directives act like the configured lists, and with sentence case off headings are untouched.",
  ["inputs", "configurations"], "all headings over words, acronyms, proper nouns (single and multi-word), possessives, hyphen/slash compounds, quotes and code spans x noun lists from configuration and directives",
  "Tests list examples; proper-noun matching interacts with punctuation, compounds, quotes and position.",
  [S+"heading.rs", S+"document.rs", "data/proper-nouns.tsv"],
  [("tokenising and word rules", S+"heading.rs to_sentence_case")],
  ["heading text of the output"]),
P("C14", "External code formatters get the exact code and fail safe",
  "A code block whose language exactly matches a configured formatter is piped to that command byte for byte, and its standard output becomes the block's content. If the command fails in any way (cannot start, exits non-zero, times out, prints invalid UTF-8) the original code is kept and a warning is given; blocks marked hongdown-no-format, blocks of other languages, and blocks in disabled regions are never passed to a formatter.",
  ["inputs", "fault_sequences", "configurations"], "all code contents and languages x formatter behaviours (success, partial read, early exit, non-zero exit, signal, missing program, timeout, invalid UTF-8, large output)",
  "Tests use cat, tr and false on tiny snippets; pipe-buffer sizes and exit timing need fault injection.",
  [S+"formatter.rs", S+"code.rs"],
  [("process driving", S+"formatter.rs run_formatter"), ("fallback and warning", S+"code.rs try_format_code")],
  ["code blocks of the output, warnings, and what the formatter process received"]),
P("C15", "Warnings point at real problems, and only outside disabled regions",
  "A bracketed reference with no definition gives one warning naming its label and source line, and a table row with too many or too few pipes gives one warning at that row's line. Defined references, escaped brackets, code, footnotes, alerts, abbreviations and disabled regions give none, and warnings never change the output.",
  ["inputs"], "all documents mixing defined and undefined references, escapes, code, tables with ragged rows and directives",
  "Tests use single cases; line attribution and suppression depend on document layout.",
  [S+"document.rs", S+"table.rs"],
  [("undefined reference scan", S+"document.rs walk_ast_for_undefined_refs"), ("disabled ranges", S+"document.rs collect_disabled_line_ranges"), ("pipe counting", S+"table.rs check_table_source_columns")],
  ["FormatResult.warnings", "stderr of the CLI"]),
P("C16", "Check, write, diff, stdout and stdin modes agree",
  "For any set of files, every mode of the command acts on the same formatted text: stdout and stdin print it; check succeeds exactly when every file already equals it and modifies nothing; write replaces exactly the files that differ, lists exactly those, and leaves the others untouched; applying the printed diff to the file gives it. Unreadable or non-UTF-8 files are reported and never modified, fail the run in check and write modes, and do not stop the other files from being processed there.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all file sets mixing formatted, unformatted, empty, CRLF, unterminated, non-UTF-8, missing and unwritable files x modes x sequences of runs",
  "Integration tests run one or two files; the parallel modes must be right for any mix and order.",
  ["src/main.rs"],
  [("parallel processing", "src/main.rs process_files_parallel"), ("diff printing", "src/main.rs print_diff")],
  ["exit code, stdout, stderr and file contents of the hongdown binary"]),
P("C17", "The right files are selected",
  "With no file arguments the command processes exactly the files under the configuration's directory that match an include pattern, match no exclude pattern, and (when git-aware) are not ignored by Git; each once, in sorted order. A directory argument means all its .md and .markdown files, recursively and case-insensitively, and an explicit file argument is always processed.",
  ["inputs", "configurations"], "all directory trees x include/exclude glob lists x ignore files x git_aware x argument lists",
  "Tests build one or two tiny trees; glob, ignore and directory pruning interact.",
  ["src/config.rs", "src/main.rs"],
  [("overrides walk", "src/config.rs collect_files"), ("directory expansion", "src/main.rs expand_paths, collect_md_files")],
  ["hongdown::config::Config::collect_files", "files processed by the hongdown binary"]),
P("C18", "Configuration layers merge by priority",
  "The effective configuration is the defaults overridden in order by the system file, the two user files and the nearest project file found upwards from the working directory; a setting present in a higher layer wins, one absent there is inherited. A project file with no_inherit ignores all other files, an explicit --config uses only that file, and command-line options override everything.",
  ["configurations", "inputs"], "all assignments of settings to layers x position of the project file x no_inherit x --config x --line-width",
  "Tests merge one or two layers by hand; there are dozens of settings and each must merge.",
  ["src/config.rs", "src/main.rs"],
  [("layer merging", "src/config.rs ConfigLayer::merge_over, load_cascading"), ("option building", "src/main.rs main")],
  ["hongdown::config::Config::load_cascading", "output of the hongdown binary run with HOME and XDG_CONFIG_HOME set"]),
P("C19", "Every setting is validated and takes effect as documented",
  "A configuration value is accepted exactly when it is in its documented range, and a rejected one is reported with its name and value instead of being silently replaced by something else. An accepted value reaches the formatter: the command with a configuration file gives the same output as the library with the corresponding options, and the JavaScript option object maps the same way, a number or choice out of range there falling back to the default.",
  ["configurations", "inputs"], "all values (in and out of range, wrong types) of all documented settings, alone and together, given as TOML or as JavaScript options",
  "Tests check a few values of each setting; the mapping from file to option is written by hand three times.",
  ["src/config.rs", "src/main.rs", "src/wasm.rs", S+"punctuation.rs"],
  [("newtype validation", "src/config.rs"), ("config-to-options mapping", "src/main.rs main"), ("JavaScript options mapping", "src/wasm.rs JsOptions::to_options")],
  ["Config::from_toml", "output of the hongdown binary", "JavaScript options conversion"],
  hook="conversion of the JavaScript option object is private; a guarded hook exposes it"),
P("C20", "Front matter, HTML and special lines are kept verbatim",
  "Front matter at the start of a document, HTML blocks and inline HTML, HTML entities, and abbreviation definitions appear in the output exactly as written (apart from surrounding blank lines, indentation added by nesting, and line breaks inside a tag that are wrapped like spaces). Formatting directives other than the disable family leave no other trace than their own comment.",
  ["inputs", "configurations"], "all documents with front matter, any HTML block kind, inline tags and comments, entities and abbreviation definitions among other blocks",
  "Tests use one example each; HTML at the end of the document and around definitions is moved specially.",
  [S+"document.rs", S+"mod.rs", S+"inline.rs"],
  [("trailing HTML handling", S+"document.rs find_trailing_html_blocks"), ("front matter", S+"document.rs serialize_front_matter")],
  ["hongdown::format output"]),
]
