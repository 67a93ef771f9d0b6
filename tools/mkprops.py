#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so that
statements, anchors and checks stay in step)."""
import json, os

M2P = 'src/mdpo/md2po/__init__.py'
P2M = 'src/mdpo/po2md/__init__.py'
H = 'src/mdpo/mdpo2html/__init__.py'
W = 'src/mdpo/md2po2md/__init__.py'
CMD = 'src/mdpo/command.py'
EV = 'src/mdpo/event.py'
IO = 'src/mdpo/io.py'
MD = 'src/mdpo/md.py'
PO = 'src/mdpo/po.py'
TX = 'src/mdpo/text.py'
CLI = 'src/mdpo/cli.py'

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': observe,
            'hook_needed': hook,
        },
    })


DOC = ('every Markdown document built from headings, paragraphs, nested bullet/ordered/task lists, block quotes, '
       'tables, fenced and indented code, thematic breaks, HTML blocks, comments and link reference definitions, '
       'in every surface syntax')

p('E01', 'Every translatable text is extracted exactly once, in document order',
  'Extracting a Markdown document yields one catalog message for each distinct text a reader would translate '
  '(each heading, paragraph, list item text, quoted paragraph and table cell), whatever blocks it is nested in, in order of '
  'first appearance, and nothing else: no code block content, no HTML block, no thematic break, no markers of the '
  'enclosing block. A text split over several source lines is one message whose lines are joined by single spaces.',
  ['inputs'], DOC,
  'The example files fix a few dozen documents with one construct each; nesting and adjacency combinations of blocks are unbounded.',
  [M2P], [('md4c callback state machine (block flags, save on block leave)', M2P + ':enter_block/leave_block/text'),
          ('message saved and buffer reset', M2P + ':_save_current_msgid')],
  ['markdown_to_pofile() result', 'Md2Po.found_entries', "'msgid' events"],
  [('current_msgid', 'message being accumulated; must be empty between messages', M2P)])

p('E02', 'Messages carry canonical inline markup, independent of the source syntax',
  'Inline markup is kept in messages in one canonical spelling: bold as **x**, italic as *x*, strikethrough as ~~x~~, code with the fewest '
  'backticks that can delimit it, inline links and images with double-quoted titles, links whose text equals their '
  'target as <target> (with the title inside, if any), wikilinks, LaTeX spans and (with the underline extension) __x__. Two documents that differ only in the surface syntax '
  'of the same content (emphasis characters, heading and bullet styles, fences, indentation, line breaks inside a text) produce the same catalog. '
  'Replacement delimiters given as options are used instead of the defaults.',
  ['inputs', 'configurations'], 'every inline content tree, every surface spelling of it, every choice of replacement delimiters',
  'Tests pin the canonical form of single hand-written examples, never the equivalence of two spellings nor nested combinations.',
  [M2P, TX], [('span replacers', M2P + ':not_plaintext_enter_span/leave_span'), ('code span fence length', TX + ':min_not_max_chars_in_a_row')],
  ['markdown_to_pofile() msgids'])

p('E03', 'Plaintext mode extracts exactly the readable text, without markup',
  'With plaintext extraction enabled, messages are the readable text of each block with all inline markup characters and link '
  'destinations removed and no text added or lost; image and link titles become messages of their own. Block structure, order, commands and '
  'deduplication behave as in the default mode.',
  ['inputs', 'configurations'], 'every document as in E01, extracted with plaintext=True (API) or --plaintext (CLI)',
  'Plaintext examples are a fixed list; the relation to the marked-up extraction of the same document is never asserted.',
  [M2P], [('plaintext span callbacks', M2P + ':enter_span'), ('plaintext branch of text', M2P + ':text')],
  ['markdown_to_pofile(plaintext=True) msgids'])

p('E04', 'Enable/disable comments decide exactly which messages are extracted',
  'The comments mdpo-disable, mdpo-enable, mdpo-disable-next-block/-line and mdpo-enable-next-block/-line (or any alias configured for them) select precisely the messages '
  'they cover: a message is extracted if and only if it is individually enabled, or extraction is on and it is not individually disabled; a next-block command covers one message only. '
  'Every message of the document is either extracted or reported as disabled, never both and never lost, and comments that are not mdpo commands change nothing.',
  ['inputs', 'histories', 'configurations'], 'every interleaving of the six commands (with and without aliases) with messages in any kind of block',
  'Tests walk a handful of fixed command sequences; the flag state machine has unbounded histories.',
  [M2P, CMD], [('disable / disable_next_block / enable_next_block flags', M2P + ':command, _save_current_msgid'), ('alias resolution', CMD + ':normalize_mdpo_command_aliases')],
  ['markdown_to_pofile() msgids', 'Md2Po.disabled_entries'],
  [('disable', 'extraction off', M2P), ('disable_next_block', 'skip one message', M2P), ('enable_next_block', 'extract one message', M2P)])

p('E05', 'Context, translator and include comments attach to exactly one message',
  'A context comment and a translator comment apply to the next message and to no other; the same text under different contexts (or none) gives separate messages, and '
  'an include comment adds its own text as a message that consumes pending context and translator comments. The comment text may contain any characters, including punctuation, and a command without its required '
  'text is rejected with an error.',
  ['inputs', 'histories'], 'every sequence of context / translator / include comments and messages, every comment text',
  'Tests use single letters-only comments before a paragraph.',
  [M2P, CMD], [('current_msgctxt/current_tcomment consumed on save', M2P + ':_save_current_msgid'), ('command regex', CMD + ':parse_mdpo_html_command')],
  ['markdown_to_pofile() (msgid, msgctxt, comment) triples'])

p('E06', 'Code blocks are extracted verbatim when requested and never otherwise',
  'By default no code block content enters the catalog; when the option or the include-codeblocks command is on, or an include-codeblock command precedes it, a code block becomes one message that '
  'reproduces its lines byte for byte. A single-block include or disable command governs only the next code block and overrides the surrounding setting (disable wins), and the plural commands hold from that point on.',
  ['inputs', 'histories', 'configurations'], 'every sequence of fenced/indented code blocks, the four code-block commands, and the option on or off',
  'Tests cover each command once with one block.',
  [M2P], [('include_codeblocks / include_next_codeblock / disable_next_codeblock flags', M2P + ':leave_block, text, command')],
  ['markdown_to_pofile() msgids'])

p('E07', 'Locations name the file and the top-level block of each message',
  'With locations on, each extracted message carries a reference made of the source file path, the 1-based ordinal of the top-level block it first appears in and '
  'that block\'s kind; nested content is attributed to its outermost block, counting restarts for each file, and disabled blocks and code or HTML blocks still count, and a quote inside a list counts as a block of its own. '
  'With locations off, or for content passed as a string, no reference is written.',
  ['inputs', 'configurations'], DOC + ', one or many files, location on or off',
  'test_location.py fixes one nesting per case.',
  [M2P, 'src/mdpo/md4c.py'], [('top-level block counter', M2P + ':enter_block'), ('occurrence built on save', M2P + ':_save_msgid')],
  ['POEntry.occurrences', '#: lines of the PO file'],
  [('_current_top_level_block_number', 'ordinal of the current outermost block', M2P)])

p('E08', 'Extracting many files equals merging the extraction of each file',
  'Extracting a glob or a list of files gives the union of the messages of the individual files, files taken in alphabetical order and first occurrences first, and no '
  'parser state (disabling, pending commands, references, counters, unfinished messages) leaks from one file into the next. Ignored files (by file name, directory name, path or directory path) contribute nothing and all other matched files are included.',
  ['inputs', 'histories'], 'every set of files, including files that end in the middle of a disabled or pending-command region, every ignore list',
  'Tests use two or three trivial files without pending state.',
  [M2P, IO], [('per-file reset', M2P + ':extract'), ('ignore filter', IO + ':filter_paths')],
  ['markdown_to_pofile([...]) vs per-file results'])

p('E09', 'Ignored texts, default translations and header options do only what they name',
  'Listing message texts to ignore removes exactly those messages and nothing else; a default translation fills exactly the entries that have no translation of their own in the catalog; '
  'metadata and the generator header are added to the catalog header, overriding same-named fields and keeping the others. None of these options changes which other messages are extracted, their order, contexts or comments.',
  ['inputs', 'configurations'], 'every document, every subset of ignored texts, every default translation and metadata mapping, alone and combined, with and without an existing catalog',
  'Each option is tested alone on one document.',
  [M2P], [('ignore_msgids / msgstr / metadata', M2P + ':_save_msgid, extract')],
  ['markdown_to_pofile() entries and metadata'])

p('E10', 'Reference links keep their references and definitions are extracted',
  'A link or image written through a reference definition keeps that reference form in its message, and each definition of a document whose text uses links becomes one fuzzy message whose translation is pre-filled with itself. '
  'The destination and title of every definition appear unchanged in the extracted definition; definitions with a title and without one are told apart.',
  ['inputs'], 'every document mixing inline links, reference links, collapsed/shortcut references, images and one-line definitions outside quotes and indented code',
  'Examples cover a few definitions; the matching of (destination, title) pairs is not exercised.',
  [M2P, MD], [('reference discovery', MD + ':parse_link_references'), ('definitions dumped', M2P + ':_dump_link_references')],
  ['markdown_to_pofile() msgids and flags'])

p('M01', 'Updating a catalog never loses or alters the translation of a present text',
  'When an existing catalog is updated from Markdown, every (context, text) pair still present in the Markdown keeps its translation byte for byte and its fuzzy mark, whether the old entry was active or obsolete, '
  'and a pair not previously in the catalog gets an empty (or default) translation, never one belonging to another text or context.',
  ['inputs', 'histories'], 'every document, every previous catalog (active, obsolete, fuzzy, contextual entries, any message text)',
  'test_obsoletes.py uses catalogs with one entry.',
  [M2P, PO, 'src/mdpo/polib.py'], [('lookup of an equal entry', PO + ':find_entry_in_entries'), ('comparison', 'src/mdpo/polib.py:poentry__cmp__')],
  ['resulting POFile entries', 'saved PO file'])

p('M02', 'Texts gone from the Markdown become obsolete, kept or removed as chosen',
  'After an update, catalog entries whose (context, text) is no longer in the Markdown are all marked obsolete by default, all left as they were when obsoleting is turned off, and all removed when removal is requested; '
  'in every mode entries present in the Markdown end up active exactly once, and no translation of a missing text is changed.',
  ['inputs', 'configurations'], 'every document and previous catalog, the three policies',
  'Tests use one-entry catalogs, so iteration-order and multiplicity effects are invisible.',
  [PO, M2P], [('mark_not_found_entries_as_obsoletes', PO), ('remove_not_found_entries', PO)],
  ['resulting POFile entries'])

p('M03', 'Repeated catalog updates are idempotent and survive edit histories',
  'Running the same update twice leaves the catalog file byte-identical to running it once. Across any history of Markdown edits (texts added, removed, restored, reordered) and translator edits, the active entries always equal the current '
  'messages of the Markdown and a text that comes back recovers the last translation it had, provided its obsolete entry was not removed.',
  ['histories', 'inputs'], 'every sequence of document edits, translator edits and updates on one PO file',
  'No test runs more than one update.',
  [M2P, PO], [('merge on save', M2P + ':_save_msgid'), ('obsolete marking', PO + ':mark_not_found_entries_as_obsoletes')],
  ['bytes of the PO file after each update'])

p('M04', 'Compiled MO files hold exactly the confirmed translations',
  'A compiled MO file contains, for every active entry of the resulting catalog that has a non-empty, non-fuzzy translation, that translation under the same context and text, and no other message; the catalog header is carried over.',
  ['inputs', 'histories'], 'every document and previous catalog',
  'Tests check that the file exists or compare one example.',
  [M2P], [('save_as_mofile', M2P + ':extract')], ['MO file read back with the standard gettext reader'])

p('M05', 'A saved catalog reads back identically at any wrap width and encoding',
  'The saved PO file read back by a PO parser gives the same messages, contexts, translations, comments (up to line wrapping), flags and order as the catalog returned, for every wrap width and every encoding able to represent it; the wrap width changes line breaks only, '
  'is honoured (0, negative and inf meaning no wrapping), and non-ASCII Markdown in the declared Markdown encoding is decoded without loss.',
  ['inputs', 'configurations'], 'every document with any Unicode text, wrap widths from tiny to infinite, UTF-8 and legacy encodings',
  'Tests use one or two widths and one non-UTF-8 file.',
  [M2P, TX, IO], [('wrapwidth parsing', TX + ':parse_wrapwidth_argument'), ('encodings passed to open/polib', M2P + ':extract')],
  ['bytes of the saved PO file'])

p('M06', 'Updating a catalog keeps everything that is not about the texts',
  'Updating an existing PO file from Markdown leaves alone what the update is not about: the comments and fields of the header (except the fields given as metadata), and, for each entry that was active and stays in the file, '
  'translator notes, extracted comments, references, flags and previous messages (those which become obsolete keep notes, flags and previous messages). Entries which keep their status keep their relative order, new ones come after the active ones in document order, and obsolete ones are at the end.',
  ['inputs', 'histories', 'configurations'], 'every catalog an editor can write (notes, flags, references, previous messages, header comments and fields), every Markdown update in every mode and wrap width',
  'The update tests compare two or three small catalogs without such data.',
  [M2P, PO], [('entries found again and appended', M2P + ':_save_msgid'), ('entries marked or removed', PO + ':mark_not_found_entries_as_obsoletes/remove_not_found_entries')],
  ['bytes of the saved PO file before and after'])

p('T01', 'Every translated text is replaced by its translation, nothing else changes',
  'Translating a Markdown document with a catalog produces a document with the same block structure (kinds, nesting, order, list markers and task states, table alignments, heading levels) in which every text that has a '
  'non-empty translation shows exactly that translation, with its markup, and every text without one is unchanged. No text is dropped, duplicated, moved to another block or left untranslated.',
  ['inputs'], DOC + '; every assignment of translations to its messages (full, partial, empty)',
  'Examples translate one construct at a time and compare with a stored file.',
  [P2M], [('render state machine', P2M + ':enter_block/leave_block/text'), ('lookup', P2M + ':_translate_msgid')],
  ['parse tree of pofile_to_markdown() output'],
  [('current_line/outputlines', 'output being built', P2M)])

p('T02', 'Translating without translations reproduces an equivalent document',
  'Translating with a catalog that has no matching translation yields Markdown that parses to the same document as the source, up to the documented normalisations, and extracting messages from the output gives the same messages as extracting them from the source '
  '(comment commands aside).',
  ['inputs'], DOC,
  'Identity is only asserted on example files.',
  [P2M], [('render state machine', P2M)], ['parse tree of the output', 'messages of the output'])

p('T03', 'Code blocks and HTML pass through translation unchanged',
  'The content of code blocks that have no translation and of HTML blocks, inline HTML and comments that are not mdpo commands is reproduced character for character in translated Markdown, with code language tags kept; a code block that has a translation shows that translation verbatim as its content.',
  ['inputs'], 'every code block content (blank lines, leading spaces, markup and fence-like lines, any language tag) at top level, every HTML block and comment',
  'Example files hold a few one-line code blocks.',
  [P2M, CMD], [('code and HTML branches of text', P2M + ':text, leave_block')], ['code/HTML tokens of the output'])

p('T04', 'The translator looks up exactly the keys the extractor writes',
  'For every document and option set accepted by both tools, the set of (context, text) keys requested by the Markdown translator equals the set extracted by the extractor from the same document, so any catalog produced by extraction and then translated applies completely.',
  ['inputs', 'configurations'], DOC + '; command aliases; code block extraction on',
  'The two tools are tested separately; they duplicate the message-building state machine.',
  [M2P, P2M, 'src/mdpo/md4c.py'], [('duplicated span/text handling', M2P + ' and ' + P2M)],
  ["'msgid' events of both tools", 'Po2Md.translated_entries'])

p('T05', 'mdpo comments control translation and leave no trace in the output',
  'During translation a disabled text is left in the source language, an individually enabled one is translated, and a context comment selects the translation of that context for the next text only (a text with a context never takes a translation without it or of another). '
  'Translation obeys the same command scoping as extraction, aliases included; mdpo command comments are removed from the output while all other comments stay; translated and disabled texts are reported as such.',
  ['inputs', 'histories', 'configurations'], 'every interleaving of commands and texts, every alias set',
  'Fixed command sequences only.',
  [P2M, CMD], [('command flags', P2M + ':command, _save_current_msgid'), ('context lookup', P2M + ':_translate_msgid')],
  ['output text per block', 'Po2Md.disabled_entries / translated_entries'])

p('T06', 'The output wrap width changes line breaks only and is honoured',
  'For every wrap width the translated document parses to the same content; paragraph lines longer than the width occur only where no break opportunity exists, and with 0, negative or inf each paragraph is a single line. Headings, tables, code and HTML are never broken.',
  ['inputs', 'configurations'], 'every document and wrap width from 1 to infinite, texts with long words, CJK text and inline code',
  'Six widths on seven fixed files.',
  [P2M, TX], [('ulb wrapping', P2M + ':_save_current_msgid'), ('width parsing', TX)], ['lines and parse tree of the output'])

p('T07', 'Translated output is a fixed point of the renderer',
  'Feeding the output of a translation without matches back through the translator changes nothing but blank lines in nested lists (one nesting level per pass may become loose, and its texts be wrapped again); a fixed point is reached after at most one pass per level, and from then on the output is returned byte for byte; without lists the first output already is: the renderer has one canonical form per document and does not drift (no growing blank lines, indentation or escapes). Wrapped text is claimed where blanks are its only break opportunities.',
  ['inputs', 'histories'], DOC,
  'No test feeds output back.',
  [P2M], [('render state machine', P2M)], ['bytes of successive outputs'])

p('T08', 'Several catalogs combine completely; ignored and unmatched files do not count',
  'Given any mix of PO paths and globs, the translations of all matched, non-ignored catalogs are available, each file read once; for a text translated in several catalogs the last one read decides, and a catalog that merely lists a text untranslated never hides a translation given by another.',
  ['inputs', 'configurations'], 'every partition of a catalog over files, overlapping globs, ignore lists, duplicates',
  'One glob example.',
  [PO, IO], [('catalog union', PO + ':pofiles_to_unique_translations_dicts'), ('path collection', PO + ':paths_or_globs_to_unique_pofiles')],
  ['pofile_to_markdown() output', 'markdown_pofile_to_html() output'])

p('T09', 'Parser extensions mean the same to extraction and translation',
  'With any set of the Markdown extensions of the parser (the default ones or not, dialects included), the messages extracted are the texts which a Markdown parser with that set finds, each one with the inline content it has there, '
  'and the document translated with that set has, parsed with it, the same structure, with each translated text replaced and the others as they were.',
  ['inputs', 'configurations'], 'every set of extensions, every document with markup of any of them',
  'Tests enable one extension with one text.',
  [M2P, P2M], [('delimiters of the spans', M2P + ':__init__, ' + P2M + ':__init__'), ('underlined spans', P2M + ':enter_span')], ['catalog entries', 'output Markdown re-parsed with the same extensions'])

p('H01', 'HTML translation without matches keeps the document as it was',
  'For HTML made by a Markdown processor from headings, paragraphs, bullet lists, block quotes and tables with bold, italic, code, link and image content, translating without matching translations returns HTML with the same elements, attributes and text in the same order.',
  ['inputs'], 'every HTML document of that class',
  'Stored examples only.',
  [H], [('HTMLParser callbacks and replacer', H + ':_process_replacer')], ['token stream of the output'])

p('H02', 'HTML translation replaces each text with its translation in place',
  'For the same class of HTML, each heading, paragraph, list item and cell whose Markdown form has a translation in the catalog shows the rendered translation inside the same element (same tag and attributes), all others are unchanged, and none is lost, duplicated or reordered.',
  ['inputs'], 'every HTML document of the class with every assignment of translations',
  'Stored examples only.',
  [H, MD], [('template split and md4c rendering', H + ':_process_replacer')], ['token stream of the output'])

p('H03', 'mdpo comments control HTML translation as they control extraction',
  'In HTML input, disable/enable/next-block/context comments (and their aliases) select which elements are translated and with which context, with the same scoping as in extraction; the commands vanish from the output, other comments stay.',
  ['inputs', 'histories', 'configurations'], 'every interleaving of commands and elements, every alias set',
  'Fixed sequences.',
  [H, CMD], [('comment handler', H + ':handle_comment')], ['output text per element'])

p('H04', 'Reference links and images of HTML translate with their definitions',
  'In HTML made from a document whose links and images use reference definitions, an element whose message (with [text][label], [label] or ![alt][label], as extraction writes it) has a translation is translated, '
  'and each reference of the translation shows the destination and the title of the translated definition (of the definition itself if it is not translated), wherever it is: nested in other markup, with or without title, relabelled, in messages with context, in documents with images only.',
  ['inputs'], 'every document with definitions, every translation of its texts and definitions',
  'One test with a single reference link.',
  [H, MD], [('references of messages', MD + ':solve_link_reference_targets'), ('lookup', H + ':_process_replacer')], ['token stream of the output'])

p('H05', 'HTML written by hand around Markdown is kept',
  'A tree of elements of any kind (known to the translator or not, nested in any order, with inline markup, void elements, comments, scripts and styles, bare text between elements, text right after nested blocks) is returned with the same elements, attributes, comments and texts in the same order: '
  'nothing is lost, moved, duplicated or decoded. The paragraphs whose text has a translation are translated wherever they are, except inside of ignored elements.',
  ['inputs'], 'every tree of elements around translated and untranslated paragraphs, every set of ignored elements',
  'Tests use the output of four Markdown processors.',
  [H], [('text of the elements', H + ':_process_replacer'), ('stream', H + ':handle_data')], ['token stream of the output'])

p('H06', 'The HTML translator\'s options name the markup and merge adjacent markup',
  'Elements named by the options for bold, italic, code and link markup are treated as the usual ones: renaming the elements of a document and giving the new names gives the same translation with the new names. With merging of adjacent markup, two bold or two italic elements of the same name separated by nothing but blanks become one, in translated and untranslated texts, and nothing else changes: the output remains well formed and keeps every text.',
  ['inputs', 'configurations'], 'every document, names of elements of each kind, catalogs with adjacent markup in sources and translations',
  'Tests merge one fixed paragraph, and none changes the names of the elements.',
  [H], [('text of the elements', H + ':_process_replacer'), ('merging', H + ':_merge_adyacent_tags')], ['token stream of the output'])

p('W01', 'md2po2md equals extraction followed by translation for every language',
  'For each language and each input file, the one-step command leaves on disk the same PO file and the same translated Markdown as running extraction (updating that PO file) and then translation with it, whatever was there before; languages and files do not influence each other, and options (wrap widths, encodings, extensions, locations, code blocks, aliases, debugging, keyword arguments for each step) reach the step they belong to.',
  ['inputs', 'configurations', 'histories'], 'every set of documents, languages, options, pre-existing catalogs, repeated runs',
  'CLI tests run one or two fixed files from scratch.',
  [W], [('per-language loop', W + ':markdown_to_pofile_to_markdown')], ['files written'])

p('W02', 'md2po2md writes only to the paths the output schema names',
  'Output paths follow the schema with the language, base name and extension substituted; a schema naming a directory gives files named after the input in it, missing directories are created, and nothing else is created, changed or deleted. A schema without the language placeholder, or an input pattern matching nothing, is refused with an error and no file is written.',
  ['inputs', 'configurations'], 'every schema built from placeholders and literals, files with several extensions, languages',
  'A couple of fixed schemas.',
  [W], [('path computation', W + ':markdown_to_pofile_to_markdown')], ['directory snapshot before/after'])

p('W03', 'Check mode reports a change exactly when a written file changed',
  'With --check, each program exits with code 2 if and only if at least one file it saves is created or ends with different content than before, and with 0 otherwise (no other gate failing); the saved bytes are the same as without --check, and an immediately repeated run exits with 0.',
  ['inputs', 'histories', 'configurations'], 'every document, catalog, program and previous state of the output files',
  'Tests check one changed and one unchanged case per program.',
  [IO, M2P, P2M, H, W], [('save_file_checking_file_changed', IO)], ['exit code', 'bytes before and after'])

p('W04', 'Obsolete, fuzzy and untranslated gates fire exactly on such entries',
  'With --no-obsolete, --no-fuzzy or --no-empty-msgstr a program exits with code 3, 4 or 5 respectively (the highest of those that apply) if and only if the PO files concerned contain an obsolete entry, a fuzzy entry, or an entry with an empty translation, and reports one file:line location for each such entry. Clean catalogs never trip a gate.',
  ['inputs', 'configurations'], 'every catalog (multi-line texts, contexts, comments, headers, wrapping), every gate subset, every program',
  'Tests use two-entry catalogs.',
  [PO, 'src/mdpo/md2po/__main__.py', 'src/mdpo/po2md/__main__.py', 'src/mdpo/mdpo2html/__main__.py', 'src/mdpo/md2po2md/__main__.py'],
  [('line scanners', PO + ':parse_*_from_content_lines')], ['exit code', 'stderr lines'])

p('W05', 'Command line programs do what the corresponding API call does',
  'For every argument list, each program produces on standard output and on disk what the corresponding API call with the same options produces; content given on standard input, as an argument or as a file path is equivalent, quiet mode prints nothing, and missing input or malformed aliases, metadata, events or widths are refused with a message (exit code 1, or 2 when a required option is missing) without writing any file.',
  ['inputs', 'configurations'], 'every option combination of the four programs',
  'Each option is exercised alone.',
  ['src/mdpo/md2po/__main__.py', 'src/mdpo/po2md/__main__.py', 'src/mdpo/mdpo2html/__main__.py', 'src/mdpo/md2po2md/__main__.py', CLI],
  [('argument mapping', 'parse_options/run of each __main__')], ['stdout', 'exit code', 'files'])

p('W06', 'No run touches a file it was not asked to write',
  'Input Markdown, HTML and PO files that are only read stay untouched, and nothing is created or opened for writing except the save targets named by the caller; without a save target nothing at all is written. A run of md2po, po2md or mdpo2html that fails because of its input, catalogs, handlers, options or encodings leaves existing targets as they were.',
  ['inputs', 'configurations', 'fault_sequences'], 'every API and CLI call, including failing ones',
  'No test observes the file system beyond the target.',
  [M2P, P2M, H, W, IO], [('save branches', 'extract/translate')], ['audit events for open/rename/remove/mkdir', 'directory snapshots'])

p('W07', 'Runs leave no process-wide state behind',
  'After any command line run, successful or failing, the process environment, working directory and default options are what they were before; the functions do not modify the arguments passed to them; running the same operation again, after other operations, in another process with another hash seed, or concurrently in other threads gives the same result.',
  ['histories', 'schedules', 'inputs'], 'every sequence and thread interleaving of API operations; sequences of CLI runs including failing ones',
  'Tests run each operation once per process.',
  [IO, M2P, P2M, H, EV], [('environ context manager', IO + ':environ'), ('instance-held parser state', M2P)], ['results and os.environ after each operation'])

p('W08', 'Results depend only on the arguments and on the files they name',
  'The value, output, exit code and files written by any operation, through the API or the programs, are the same in a locale whose encoding is not UTF-8, with other environment variables, terminal size or time zone, '
  'with optimized modules (-OO), with another hash seed, whatever the order and time in which the files were created, with unrelated files beside them (even Python modules or configuration files), and, naming the files by absolute paths from another directory, up to the paths shown.',
  ['environments', 'inputs', 'configurations'], 'every job of the four programs and of the API; every environment of a process',
  'Tests run in one environment, in a clean temporary directory.',
  [IO, M2P, P2M, H, W, CLI], [('default encodings', W + ':markdown_to_pofile_to_markdown, src/mdpo/md2po/__main__.py:run'), ('globs and paths', IO)], ['results in processes with other environments'])

p('W09', 'Encodings and line endings of the files do not change the results',
  'When Markdown, HTML or PO files are written in another encoding, given as md_encoding/html_encoding/po_encoding or declared by the PO file, or with CRLF line endings, every operation (extraction, translation, update, gates and change detection) gives the result it gives with UTF-8 and LF files; '
  'the files it writes are in the declared encodings and, once decoded, equal.',
  ['inputs', 'configurations'], 'every job of the four programs and of the API; every pair of encodings able to represent the texts',
  'Tests use one non-UTF-8 file per program at most.',
  [IO, M2P, P2M, H, W, PO], [('files read', IO + ':to_file_content_if_is_file'), ('files saved', IO + ':save_file_checking_file_changed'), ('gates', PO + ':check_fuzzy_entries_in_filepaths')], ['results and decoded bytes of the files'])

p('X01', 'Event handlers see a well-formed trace, are all run, and can veto',
  'Handlers registered for parsing events are called in order for every event, all of them even if one vetoes, with properly nested enter/leave pairs covering the whole document; handlers that do not veto never change the result, and a handler returning False (and only False) suppresses exactly the handling of that event. Handlers given as file.py::function or file.py::Class.method behave as the function itself; wrong locations are errors, and debug mode only prints.',
  ['inputs', 'configurations', 'histories'], 'every document and handler set for extraction and translation',
  'Each event is tested once with one document.',
  [EV, M2P, P2M], [('raise_skip_event', EV), ('parse_events_kwarg', EV)], ['recorded event trace', 'result with and without handlers'])

p('X02', 'No Markdown input crashes extraction or translation',
  'Extraction (with and without plaintext) and translation of any Markdown text terminate and return a catalog or a document; the only error a document can cause is the documented rejection of a command comment that lacks its required text.',
  ['inputs'], 'every Unicode string as Markdown, including malformed and adversarial markup',
  'Tests only feed well-formed examples.',
  [M2P, P2M], [('callback code tolerating every token sequence', M2P + ', ' + P2M)], ['exceptions', 'termination (CPU budget)'])

p('X03', 'Command comments and aliases are recognised exactly as documented',
  'A one-line comment is a command if and only if its first word is an mdpo command name or a configured alias; the remaining text is its argument with surrounding blanks dropped. Alias targets are accepted with or without the mdpo- prefix, an unknown target is refused listing the valid names, and original command names keep working.',
  ['inputs', 'configurations'], 'every comment string and alias mapping',
  'A dozen fixed strings.',
  [CMD, CLI], [('COMMAND_SEARCH_REGEX', CMD), ('normalize_mdpo_command_aliases', CMD)], ['parsed command and argument', 'effect on extraction'])

p('X04', 'Key-value arguments, paths and widths are parsed as documented',
  'Key:value arguments split at the first unescaped separator, an escaped one belonging to the key, malformed pairs and repeated keys being errors; ignore lists drop exactly the paths matching by full path, file name, directory name or directory path; existing files and globs are read as files and any other string is taken as content; width arguments accept positive integers as given and map 0, negatives and inf to no wrapping.',
  ['inputs'], 'every string argument',
  'Small parameter tables.',
  [TX, IO, CLI], [('parse_escaped_pair', TX), ('filter_paths/to_files_or_content', IO), ('parse_strint_0_inf', TX)], ['returned values and errors'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
