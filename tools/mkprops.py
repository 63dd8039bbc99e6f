"""Writes /verif/properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook='none'):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

OUT = ['the bytes accepted by the object handed to output(), read back by an independent strict PDF reader']

p('P01', 'Every successful save is one complete, well-formed PDF file',
  'Whenever a save returns without an error, the bytes the destination accepted are exactly one complete PDF file: every object is found at its recorded offset with its stated length, every reference and every font, image and named resource that is used resolves, the page tree lists every page once in order, and every page is drawn by a syntactically valid instruction stream. '
  'This holds whatever was added before (any texts, names, links, colours, nested values), however often the document was saved before, whatever failed before, and however few bytes the destination takes at a time. '
  'Values put in the file at object level (strings, names, numbers, booleans, lists, dictionaries, streams, references) are read back as the values that were put in.',
  ['histories', 'inputs', 'fault_sequences'],
  'all histories of document operations and saves, all contents, all sequences of partial, refused and failing writes',
  'the tests write a handful of fixed documents to one well-behaved file and never read the bytes back; offsets, escapes, lengths, repeated saves and partial writes are untested',
  ['pdfme/base.py', 'pdfme/parser.py', 'pdfme/encoders.py', 'pdfme/pdf.py', 'pdfme/page.py'],
  [('file layout and offsets', 'pdfme/base.py PDFBase.output'), ('serialisation', 'pdfme/parser.py parse_obj'),
   ('page, destination and outline trees', 'pdfme/pdf.py PDF.output')],
  [('object list', 'append-only list of objects; position is the object number')], OUT)

p('P02', 'A failed save is reported, harms nothing and can be retried',
  'When the destination refuses, fails or fills up, memory runs out or the program is interrupted while a document is being saved, the save ends with that error and never returns as if it had succeeded. '
  'Saving the same document again to a healthy destination then gives a document with the same pages, contents, links, destinations and outlines as if the failed save had never been tried. '
  'A document can be saved any number of times and extended between saves: each save shows exactly what had been added until then.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every point of a save at which a write can fail, memory can run out or an interrupt can arrive, in any history of saves and additions',
  'the tests save each document once, to a destination that never fails',
  ['pdfme/base.py', 'pdfme/pdf.py', 'pdfme/parser.py', 'pdfme/fonts.py'],
  [('write loop', 'pdfme/base.py PDFBase.output'), ('trees rebuilt at every save', 'pdfme/pdf.py PDF.output'),
   ('font subsetting at save time', 'pdfme/fonts.py'), ('stream encoding', 'pdfme/parser.py parse_stream')],
  [('root, pages tree', 'rewritten by every save'), ('trailer ID', 'made by the first save')], OUT)

p('P03', 'A paragraph is placed completely, in order, over any sequence of rectangles',
  'However many rectangles, of whatever sizes, on whatever pages, and interleaved in whatever order with other paragraphs, a paragraph is served until it says it is finished, every one of its words is shown exactly once, in order, with the style it was given, and nothing else is shown. '
  'Every line lies inside the rectangle it was given, obeys alignment, indent and list text, and overlaps no other line of that paragraph. '
  'Lines are filled: a line ends where its text does or where the next word does not fit, and no rectangle with room for the next line is left empty. '
  'Underlines and backgrounds are drawn under exactly the words that have them, and the cursor of the page is left where the caller asked.',
  ['schedules', 'inputs', 'histories'],
  'all paragraphs, all interleavings of several paragraphs over rectangles of any sizes and pages',
  'tests run a few fixed paragraphs and compare line counts or only that no exception is raised; splits at every possible line and resumption order are not reached',
  ['pdfme/text.py', 'pdfme/pdf.py', 'pdfme/fonts.py'],
  [('line filling and resumption', 'pdfme/text.py PDFText.run'), ('lines and parts', 'pdfme/text.py PDFTextLine'),
   ('continuing on new pages', 'pdfme/pdf.py PDF.text')],
  [('last part and word placed', 'where the next rectangle resumes')], OUT)

p('P04', 'Every table cell is shown exactly once, inside its own column and rows',
  'A table of any shape, with row spans, column spans, nested paragraphs, images, boxes and tables, continued over any sequence of rectangles or pages, shows the contents of every cell exactly once, in order and with its style, within the horizontal extent of the columns and below the rows it belongs to. '
  'Rows follow each other without overlap, borders and fills are the configured ones at the configured places, the contents of a cell keep clear of its borders, and nothing is drawn outside the rectangle the table was given. The cursor of the page is left where the caller asked.',
  ['inputs', 'schedules', 'histories'],
  'all table descriptions and all sequences of rectangles (heights, pages, turns with other elements)',
  'tests draw a few tables on fixed pages and never read the output; cells and spans cut by a page break at every possible height are not reached',
  ['pdfme/table.py', 'pdfme/pdf.py'],
  [('row loop, delayed cells, spans', 'pdfme/table.py PDFTable.run / add_row / add_cell'), ('borders and fills', 'pdfme/table.py process_borders')],
  [('current row, delayed cells', 'what remains for the next rectangle'), ('span bookkeeping', 'open row spans, their heights and fills')], OUT)

p('P05', 'Everything in a content box is shown exactly once, in reading order',
  'A content box with any nesting of columns, boxes, paragraphs, tables, images and groups, continued over any sequence of rectangles or pages, shows each element exactly once, with its style, inside its column and rectangle, elements following each other in reading order without overlap and with the margins they were given. '
  'The members of a group stay together in one column of one page, an image that does not fit yet does not hold back the texts that follow it, a picture is as wide as its room unless it was allowed to shrink and had to, and discarded layout attempts leave nothing behind on the page. The cursor of the page is left where the caller asked.',
  ['inputs', 'schedules', 'histories'],
  'all content descriptions and all sequences of rectangles and pages',
  'tests compare a few fixed layouts; balancing of columns, nested columns and delayed elements interact with where every page ends',
  ['pdfme/content.py', 'pdfme/pdf.py'],
  [('column balancing by retry', 'pdfme/content.py PDFContentPart.run / reset'), ('delayed elements', 'pdfme/content.py add_delayed'),
   ('nested boxes', 'pdfme/content.py process_child'), ('groups', 'pdfme/content.py process_group')],
  [('section index, delayed, children memory', 'what remains for the next rectangle')], OUT)

p('P06', 'Layout can be rolled back to a saved state and replayed',
  'Paragraphs, tables and content boxes can be asked for their state before a rectangle is tried and set back to it afterwards, any number of times, after attempts with other rectangles and after attempts that were interrupted by an error anywhere. '
  'The final document is then the same as if the abandoned attempts had never been made, and a saved state is not changed by what is done after it was taken.',
  ['histories', 'crash_points', 'schedules'],
  'all sequences of attempts, abandonments, interrupts and rectangles for all elements',
  'the tests roll back at a few hand-picked points and check a few numbers',
  ['pdfme/text.py', 'pdfme/table.py', 'pdfme/content.py'],
  [('checkpoint', 'get_state of PDFText, PDFTable, PDFContent'), ('rollback', 'set_state of PDFText, PDFTable, PDFContent')],
  [('state dictionaries', 'must describe all of what run() consumes')], OUT)

p('P07', 'Every document is finished in a bounded number of pages or an error is raised',
  'Adding an element or building a document always ends: either everything was placed, or an error says that something does not fit. '
  'No description, however large its parts or however small the page, makes pages be added for ever, and no page is spent on which nothing of the element is placed unless the element raises an error.',
  ['inputs', 'configurations', 'histories'],
  'all page sizes and margins, all elements including ones that cannot fit anywhere',
  'tests only use contents that fit; non-termination is not observable by a passing test',
  ['pdfme/pdf.py', 'pdfme/document.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/text.py'],
  [('page loops', 'pdfme/pdf.py text, table, content; pdfme/document.py _process_section'), ('attempt limits', 'pdfme/content.py')],
  [('remaining content', 'must shrink from page to page')],
  ['number of pages and outcome of the operation under a step budget'])

p('P08', 'Footnotes are numbered per page and printed with the page that refers to them',
  'In a built document the references to footnotes on each page are numbered 1, 2, 3, ... in reading order, and at the bottom of that same page each of those notes is printed exactly once, completely, under its own number, below the body and inside the margins. '
  'Adding notes moves body text to later pages when needed but never loses, repeats or reorders it, and a page whose notes cannot fit is an error, not a damaged document.',
  ['inputs', 'histories'],
  'all documents with footnotes anywhere (nested boxes, tables, split paragraphs) over all page breaks',
  'tests build a fixed document and never read it; which notes share a page depends on a rolled back layout attempt',
  ['pdfme/document.py', 'pdfme/content.py', 'pdfme/text.py'],
  [('two-pass page layout', 'pdfme/document.py _add_content'), ('collecting references', 'pdfme/document.py _check_footnotes')],
  [('rolled back section', 'state before the page is tried'), ('context variables', 'number of every reference')], OUT)

p('P09', 'A failed operation leaves the document usable and earlier content intact',
  'When adding something fails - bad arguments, a broken image, an unknown style, no memory, an interrupt at any instant - the error reaches the caller and the document keeps everything added before. '
  'It can still be extended and saved: later additions are shown completely, the saved file is well formed, and of the failed addition at most a part that had already been placed is shown.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every failing operation and every interrupt point in any history of operations',
  'tests check that errors are raised, never what the document is worth afterwards',
  ['pdfme/pdf.py', 'pdfme/page.py', 'pdfme/fonts.py', 'pdfme/image.py', 'pdfme/content.py', 'pdfme/table.py'],
  [('adding parts to the page', 'pdfme/pdf.py _add_text, add_image, _add_parts'), ('font and image registration', 'pdfme/pdf.py _add_or_get_font, add_image')],
  [('pages, used fonts, images, destinations', 'shared by all operations of a document')], OUT)

p('P10', 'Images from unreliable storage are embedded right or reported',
  'An image is shown as its own picture - a JPEG file byte for byte, a PNG file as a JPEG of the same picture without transparency - with its own dimensions and proportions at the place and size asked for, or its addition fails with an error: files that are missing, unreadable, truncated, empty or interrupted while being read never give a wrong picture or a damaged document. '
  'Whatever happens, files opened by the library are closed, streams owned by the caller stay open and can be used again, and an image used many times under one name is stored once.',
  ['fault_sequences', 'inputs', 'histories'],
  'all sequences of storage faults at each open and read, all JPEG and PNG images, all histories of uses',
  'tests embed one or two healthy files',
  ['pdfme/image.py', 'pdfme/pdf.py', 'pdfme/page.py', 'pdfme/content.py', 'pdfme/table.py'],
  [('opening and parsing', 'pdfme/image.py PDFImage'), ('sharing by name', 'pdfme/pdf.py add_image')],
  [('images by name', 'one stored object per name and document')], OUT)

p('P11', 'Documents built at the same time do not influence each other',
  'Any number of documents built one after the other or concurrently in one process, in any interleaving, sharing descriptions, formats, images and registered fonts, each come out with the contents they would have had if built alone. '
  'Registering fonts or failing in one document at any time does not disturb another.',
  ['schedules', 'histories', 'fault_sequences'],
  'all interleavings of threads at source-line granularity and all orders of sequential documents',
  'tests are single-threaded and build unrelated documents',
  ['pdfme/fonts.py', 'pdfme/pdf.py', 'pdfme/document.py', 'pdfme/text.py', 'pdfme/content.py', 'pdfme/utils.py'],
  [('process-wide font registry', 'pdfme/fonts.py PDFFont.registered_fonts'), ('module-level defaults', 'pdfme/text.py, pdfme/pdf.py')],
  [('class attributes, default arguments, shared dicts', 'the only state two documents have in common')], OUT)

p('P12', 'The same program gives the same document in every process',
  'Building and saving the same documents with the same inputs gives the same file, apart from identifiers that are meant to be random, whatever the hash seed of the process, the time of day and the jumps of the clock, and the history of the process. '
  'In particular running sections are drawn in the order they are listed.',
  ['configurations', 'schedules', 'histories'],
  'all hash seeds, clock readings and earlier histories of the process',
  'tests run in one process and compare nothing between processes',
  ['pdfme/document.py', 'pdfme/text.py', 'pdfme/fonts.py', 'pdfme/base.py'],
  [('sets of names', 'pdfme/document.py running sections; pdfme/text.py used fonts'), ('embedded font files', 'pdfme/fonts.py')],
  [('iteration order of sets', 'differs between processes')],
  ['bytes saved by worker processes with different hash seeds and clocks'])

p('P13', 'Descriptions given by the user are not changed and can be reused',
  'The dictionaries, lists and styles a user describes a document, paragraph, table, content box or running section with are the same after use as before, also when the use failed or was interrupted. '
  'Building the same description again, in the same or another document, gives the same result as the first time.',
  ['histories', 'crash_points', 'inputs'],
  'all descriptions, any number of uses, any point of failure',
  'tests use every description once',
  ['pdfme/document.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/pdf.py', 'pdfme/text.py', 'pdfme/utils.py'],
  [('preparing descriptions', 'pdfme/document.py _traverse_document_footnotes, _process_section'), ('styles', 'pdfme/content.py process, pdfme/utils.py process_style')],
  [('user-owned dicts', 'aliased by the library while it lays out')], OUT)

p('P14', 'Links, destinations and outlines lead to the text that was marked',
  'Every link covers exactly the words that were given it, on their page; a reference leads to the place where its label begins, on the page and at the height at which the labelled text is shown, and a web link carries the address it was given. '
  'The outline tree has one entry per marked text, with its title, in document order under the right parent, leading to that text - after any page breaks, column balancing, retries and repeated saves.',
  ['inputs', 'histories'],
  'all placements of marks over paragraphs, tables and boxes, all page breaks and retries, any number of marks and saves',
  'tests only check that documents with links are built',
  ['pdfme/pdf.py', 'pdfme/text.py', 'pdfme/page.py', 'pdfme/document.py'],
  [('marks to rectangles', 'pdfme/text.py ids'), ('annotations and trees', 'pdfme/pdf.py _add_text, _build_dests, _build_outlines')],
  [('destinations, addresses, outlines', 'collected while pages are drawn, written at save')], OUT)

p('P15', 'Every page has its own geometry, running sections and page number',
  'Every page of a document has the size, orientation and margins in force for it and shows each running section in force for it exactly once, at its place, with the number of that page; settings of a page range or of a section hold for these pages only. '
  'Changing settings, adding sections or jumping between pages at any time does not affect pages made before.',
  ['histories', 'configurations', 'inputs'],
  'all histories of settings, pages, ranges and sections',
  'tests check a few constructor arguments; leaks from one page to the next need a history',
  ['pdfme/pdf.py', 'pdfme/document.py', 'pdfme/page.py', 'pdfme/utils.py'],
  [('page setup', 'pdfme/pdf.py setup_page, add_page'), ('per page settings', 'pdfme/document.py _process_section, _set_running_sections')],
  [('current page settings', 'carried from page to page')], OUT)

p('P16', 'Text in the fonts of the user is shown with their glyphs, or reported',
  'Every character of a text written in a font file that was registered, or added to the document, is shown with the glyph that file has for it (its missing-character glyph when there is none), is read back as that character, and takes the width the file gives it, both in the layout and in the saved file. '
  'Every embedded font is complete, is the file that was in force for that family and style when the text was added, and says about itself (name, box, heights, slant, widths) what the file says. '
  'A font file that is missing, unreadable, not embeddable or fails while it is read is reported, what was added before is unharmed, and the same font can be used when the file is well again. '
  'Fonts added to one document do not affect other documents.',
  ['inputs', 'histories', 'fault_sequences'],
  'all font files and characters, all histories of registering, adding and replacing fonts and of texts and saves, all failures of the storage of font files',
  'the tests embed one font file once, from a healthy disk, and never look into the output: names, widths, glyph numbers, the map to characters, replaced fonts and failing reads are not reached',
  ['pdfme/fonts.py', 'pdfme/utils.py', 'pdfme/text.py', 'pdfme/pdf.py'],
  [('font files', 'pdfme/fonts.py PDFTrueTypeFont.load_font, _get_font_descriptor'), ('embedding', 'pdfme/fonts.py PDFTrueTypeFont.add_font, compute_char_widths, get_tounicode_cmap'),
   ('families and styles', 'pdfme/fonts.py PDFFonts'), ('resources of pages', 'pdfme/pdf.py _add_or_get_font, _used_font')],
  [('fonts of the document', 'loaded when first used, replaced when added again')], OUT + ['reads of font files on the simulated disk'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
