PN = ('Every obligation generated from the current source is discharged for all inputs (integers unbounded, strings of any length). '
      'Trusted: the symbolic interpreter and its models of Python built-ins (/verif/pyverif), z3, cvc5; every other assumption is listed in the evidence file.')
prop('C01', 'Text made safe for file names and mark-up never lets a dangerous character by',
     'Making a name safe for a file name replaces each of / \\ : ; # ? * < > by its fixed substitute and keeps every other character, in order; making text safe for XML or HTML does the same with & " < >. '
     'The plain safe-string form replaces < and > likewise. No input, however it combines these characters, leaves one of them in the result (other than the & of an entity).',
     ['inputs'], 'every string', 'Tests try a few names; an order-dependent or partial replacement shows only for certain character combinations.',
     ['BibleOrgSysGlobals.py'], [('makeSafeFilename', 'BibleOrgSysGlobals.py'), ('makeSafeXML', 'BibleOrgSysGlobals.py'), ('makeSafeString', 'BibleOrgSysGlobals.py')],
     claim='proof', note=PN)
prop('C03', 'A book order system is one duplicate-free sequence seen through every query',
     'For every loaded book order system, the position, book-at-position, previous-book, next-book, containment and ordering queries all describe one duplicate-free sequence of valid book codes. '
     'Next and previous are inverse to each other and give nothing only at the two ends; the ordering query is the strict total order of the sequence. A code that is not three characters, or not in the sequence, is refused.',
     ['inputs', 'configurations'], 'every book order table satisfying the loader invariant, every pair of codes',
     'Tests query a few books of one system; first/last positions and inverse laws are not enumerated.',
     ['Reference/BibleBookOrders.py'], [('BibleBookOrderSystem', 'Reference/BibleBookOrders.py'), ('getBookOrderSystem', 'Reference/BibleBookOrders.py')],
     [('book list, position and number tables', 'three views of one sequence')], claim='proof', note=PN + ' The loader invariant is evaluated over every table shipped.')
prop('C04', 'Book code look-ups agree with the code tables in both directions',
     'Reference numbers and three-character book codes correspond one to one; each external abbreviation look-up (short, SBL, OSIS, SWORD, USFM, NET, Unbound, Drupal) ignores letter case and gives the book of the table, raising KeyError exactly when there is none. '
     'Free text resolves to a valid book code or to nothing, and to the code or listed abbreviation it spells when it is one. References compare as sort keys in book, chapter, verse order, and sequence and chapter-count queries agree with the tables.',
     ['inputs', 'configurations'], 'every table satisfying the loader invariant, every string or number looked up',
     'Tests look up a few well-known books; case folding, fall-back order and large chapter or verse numbers are not exercised.',
     ['Reference/BibleBooksCodes.py', 'DerivedDataFiles'], [('BibleBooksCodes', 'Reference/BibleBooksCodes.py')],
     [('loaded data dictionaries', 'code tables indexed by number, code and abbreviation')], claim='proof', note=PN + ' The loader invariant and the abbreviation round trip are evaluated over the tables shipped.')
prop('C05', 'Versification queries answer exactly what the loaded versification table says',
     'For every book in a versification system, the chapter count, verse count of a chapter, total verse count and list of verse counts are those of the table, and an unlisted chapter has no verses. '
     'Omitted-verse queries agree with the omitted-verse list. A reference is accepted as valid exactly when its book and chapter exist and its verse, if given, lies from one to that chapter\'s verse count and is not omitted (extended mode also accepts verse zero, and introduction lines up to 199).',
     ['inputs', 'configurations'], 'every versification table satisfying the loader invariant, every reference',
     'Tests check a handful of references in one system.',
     ['Reference/BibleVersificationSystems.py'], [('BibleVersificationSystem', 'Reference/BibleVersificationSystems.py')],
     [('chapter and omitted-verse tables', 'verses per chapter per book; verses a system leaves out')], claim='proof', note=PN)
prop('C07', 'Absolute verse numbers count the verses of a system in order, without gaps',
     'The absolute number of a verse is the number of verses in all earlier books and earlier chapters of the organisational system, plus its verse number; a verse beyond the chapter has none, and a chapter the system lacks is refused. '
     'Converting a number back gives the verse that has it, or nothing when no verse has it, so that converting there and back returns the same reference. Each system answers from its own verse counts.',
     ['inputs', 'configurations', 'histories'], 'every book list and regular verse table, every reference and number',
     'A test can check a few verses of one system; off-by-one errors at book and chapter ends, and interference between two systems, go unseen.',
     ['Reference/BibleOrganisationalSystems.py', 'Reference/BibleVersificationSystems.py'],
     [('getAbsoluteVerseNumber, convertAbsoluteVerseNumber, __makeAbsoluteVerseList', 'Reference/BibleOrganisationalSystems.py'), ('getNumVersesList', 'Reference/BibleVersificationSystems.py')],
     [('absolute verse table', '(book, chapter) to first and last absolute number')], claim='proof', note=PN + ' Books whose verse table skips a chapter are outside the contracts.')
prop('C13', 'Lists of Bible entries and of extras behave as sequences of records',
     'A processed Bible line (entry) and a note attached to it (extra) give back every value they were made from, by name and by position, and are equal exactly when all their values are. '
     'Entry lists and extras lists are sequences: length, indexing (also negative, with an index error exactly when out of range), slicing, iteration, appending, extending and popping act as on a list; only the right kind of record is accepted; '
     'a copy, slice or sum is a new list that leaves its operands as they were. Searching gives the first line with the marker among the lines asked for, and looking up extras at a position gives exactly those at that position, in order.',
     ['inputs', 'histories'], 'every list content, index and slice, by any sequence of these operations',
     'The tests build a few short lists; aliasing between operands, negative indices, boundary slices and equality of near twins are not exercised.',
     ['Internals/InternalBibleInternals.py'],
     [('InternalBibleEntry, InternalBibleEntryList', 'Internals/InternalBibleInternals.py'), ('InternalBibleExtra, InternalBibleExtraList', 'Internals/InternalBibleInternals.py')],
     [('data lists', 'the entries of a book section; the extras of a line')], claim='proof', note=PN)
prop('C06', 'A reference range expands to exactly the verses of the range, in order',
     'Expanding a range of Bible references in a versification system gives the list that starts at the first reference, continues with the very next verse each time (through chapter ends and, with a book order, through book ends), and ends at the last reference: nothing missing, nothing twice, nothing outside. '
     'An end without a verse means the whole chapter; a verse suffix appears on the end it was given for only. The range is refused exactly when an end is not a valid reference of the system or the ends are out of order.',
     ['inputs', 'configurations'], 'every versification table whose chapters in the range have verses, every pair of references',
     'Tests expand one or two ranges; chapter ends, single verse ends and book crossings are not enumerated.',
     ['Reference/BibleVersificationSystems.py', 'Reference/BibleBookOrders.py'], [('BibleVersificationSystem.expandCVRange', 'Reference/BibleVersificationSystems.py')],
     claim='proof', note=PN + ' Ranges over more than one book are only checked within a stated bound (contract several_books), not proved.')
prop('C08', 'A single verse key keeps its parts, and its text parses back to an equal key',
     'A key made from a book, chapter, verse and suffix or index gives back exactly those parts through every getter, by position and in its text, and an all-digit extra is an index. '
     'The text of a key parses back to a key equal to it, and no other text is accepted as a key. Two keys are equal exactly when all their parts are; equal keys have equal hashes and different keys different hash texts. '
     'The number of a chapter or verse is the one its leading digits spell (-1 for the introduction).',
     ['inputs'], 'every book code, chapter, verse, suffix and index; every text parsed',
     'Tests make and parse a few keys; near twins (same verse with another index) and odd verse strings are not compared.',
     ['Reference/VerseReferences.py'], [('SimpleVerseKey', 'Reference/VerseReferences.py')], claim='proof',
     note=PN + ' Parsing of OSIS reference strings and the choice of which malformed parts the constructor refuses are not covered.')
prop('C02', 'XML and HTML files are written exactly as asked, buffered without loss',
     'The text an MLWriter puts out is, in order, exactly the lines asked for: each is an indent, the mark-up or text given (with its attributes, quoted, in order) and a line end as the layout settings ask; buffering and flushing never lose, double or reorder anything. '
     'The stack of open tags is that of the mark-up written: opening pushes, closing pops, and closing the document writes everything still buffered (automatic closing first closes every open tag). '
     'Tag and attribute names and attribute values that are empty or contain < > or a double quote are refused; checking a text never changes it, and escaping replaces just & " < > by their entities. The file is UTF-8.',
     ['inputs', 'histories'], 'every writer state and setting, every sequence of calls',
     'Tests write one small file and only validate it; flush boundaries, layout modes and attribute forms combine in too many ways to sample.',
     ['InputOutput/MLWriter.py'], [('MLWriter', 'InputOutput/MLWriter.py')], [('_buffer, _openStack', 'text not yet written to the file; tags still open')], claim='proof',
     note=PN + ' Opening the real file, and the whole document read back by an XML parser, are checked within a stated bound only (contract written_file).')
prop('C22', 'Leading numbers, and attributes of words and figures, are read as written',
     'The leading number of a text is the integer its leading digits (after at most one minus sign) spell, and a text without one is refused. '
     'The attributes of a USFM word are its word and lemma, or its named attributes (x- removed), each with exactly the value written; those of a figure go by position in the older form and by name in the newer. No value is cut, merged with its neighbour or lost.',
     ['inputs'], 'every text; every attribute list in the USFM forms',
     'Tests hold a few typical attribute strings; spaces, bars and equal signs inside values, unquoted values and order are not varied.',
     ['Internals/InternalBibleInternals.py'], [('getLeadingInt, parseWordAttributes, parseFigureAttributes', 'Internals/InternalBibleInternals.py')], claim='proof',
     note=PN + ' Negative numbers, named attributes and figures are checked within a stated bound only (contracts leading_minus, word_named, figure_old, figure_new).')
prop('C10', 'A USFM file is read line by line into markers and texts without losing anything',
     'Splitting a USFM line gives its marker (ending before a space or another marker, or with an asterisk or a self-closing \\*) and its text; put together again they are the line, but for the one space between them. A line without a backslash in front has no marker. '
     'Reading a file gives one entry per line that begins with a marker, in order, with exactly that marker and text; any other line is added to the entry before it after a space. Only blank lines, comment lines and the byte order mark are left out.',
     ['inputs'], 'every line shorter than 999,999 characters; every list of lines', 'Tests read a few files; the first line, the byte order mark, continuation after blank or comment lines and unusual marker ends combine freely.',
     ['InputOutput/USFMFile.py'], [('splitUSFMMarkerFromText, USFMFile.read', 'InputOutput/USFMFile.py')], claim='proof',
     note=PN + ' The opened file is represented by the list of its lines; real files and ignored markers are checked within a stated bound (contract read_file).')
prop('C12', 'Removing and replacing USFM character fields takes exactly the fields asked for',
     'Removing a character field from USFM text always ends, and takes out each field of the marker with its content, up to its closing marker, the next marker or the end as asked, and nothing else; text without the marker is unchanged, and no opening marker stays when closing is not required. '
     'Replacing fields replaces each opening and closing marker asked for, plain and embedded, in the order asked for, and nothing else.',
     ['inputs'], 'every text, every marker, every list of replacements', 'Tests use well-formed text; unclosed, repeated, adjacent and embedded fields in every order are what break a scan.',
     ['Reference/USFM3Markers.py'], [('removeUSFMCharacterField, replaceUSFMCharacterFields', 'Reference/USFM3Markers.py')], claim='proof', note=PN)
prop('C11', 'Every query about a USFM marker answers from the one table of markers',
     'For each marker of the table, plain or with a number, the answers whether it is valid, starts a line, is internal, a note, deprecated, compulsory, numberable, nesting or printed, its closing, content, raw and standard forms, name, description and places of use are those of its row; an unknown marker is invalid or refused. '
     'The lists of markers contain exactly the markers with the property asked for. The markers found in a text are those written there, in order, each with its position, kind, context, closing marker and the text up to the next.',
     ['inputs', 'configurations'], 'every marker of the table and every other string; every combination of options of the lists',
     'Tests query a few markers; numbered forms, the closing forms + and *, and every column of the table are not gone through.',
     ['Reference/USFM3Markers.py', 'Reference/Converters/USFM3MarkersConverter.py'],
     [('USFM3Markers queries and lists', 'Reference/USFM3Markers.py'), ('getMarkerListFromText', 'Reference/USFM3Markers.py')],
     [('marker tables', 'rows by raw marker; numbered and combined forms')], claim='proof',
     note=PN + ' Bounded only: the canonical new-line list, the list of character markers, and the markers of a text with backslashes (contracts canonical_list, character_list, text_markers).')
prop('C15', 'Looking up a chapter or verse in the index gives exactly its lines',
     'An index entry keeps its first line, number of lines and context. The index acts as a mapping from (chapter, verse) to its entries, in order. Asking for a verse gives exactly the lines of its entry, in order, with the context of the entry; asking for a chapter gives the lines from its first up to the next chapter (or the end of the book); the introduction ends where the first chapter begins. '
     'A key that is not there is refused. The lenient look-ups give the same for a verse with an entry, and otherwise the first range, list or part of a verse that contains it.',
     ['inputs', 'configurations'], 'every index whose entries are ranges of lines of the book, every chapter and verse',
     'Tests look up a few verses of small books; last chapters, introductions and bridged verses are where the ends go wrong.',
     ['Internals/InternalBibleIndexes.py'], [('InternalBibleBookCVIndexEntry, InternalBibleBookCVIndex', 'Internals/InternalBibleIndexes.py')],
     [('__indexData, givenBibleEntries', 'entry of each (chapter, verse); the lines of the book')], claim='proof',
     note=PN + ' Bounded only: lenient look-ups of a verse that has no entry of its own, and complete look-ups (contracts verse_bridged, context_search, context_complete).')
prop('C14', 'The index of a book puts every line into exactly one entry, under its verse',
     'Building the chapter and verse index of a book gives one entry per chapter start, per verse and per line of the introduction, in the order of the book; the entries follow each other without gap or overlap from the first line to the last. '
     'Headings and paragraph marks in front of a verse go with that verse; other lines stay with the verse before. Each entry keeps the nesting markers that are open where it begins. In a book without chapters every line is an entry.',
     ['inputs'], 'every book whose lines give no chapter and verse twice', 'Tests index a few small books and look at the number of entries; what precedes a verse, closing markers and the last lines of a chapter combine freely.',
     ['Internals/InternalBibleIndexes.py'], [('InternalBibleBookCVIndex.makeBookCVIndex', 'Internals/InternalBibleIndexes.py')],
     [('__indexData', 'entry of each (chapter, verse)')], claim='exploration',
     note='Bounded, not proved: the postconditions (the whole index, spelt out) are checked on seeded books of up to 3 chapters of up to 6 verses with ranges, lists, parts, headings, paragraphs and closing markers in varied places. '
          'The loop that rewrites the entries of the dictionary it goes through is outside the verifier.')
prop('C18', 'Adjusting a text changes exactly the parts asked for',
     'Applying a list of edits to a text makes each edit at its place in the original text, in whatever order they are given, and changes nothing else; no edits leave the text as it is. '
     'Removing endings takes each ending off, in turn, where the text then ends with it. Removing accents replaces each letter of the accent table by its plain letter and keeps every other character. '
     'Stripping the punctuation around a word takes off only punctuation, only from the ends, and keeps a mark whose partner is inside the word.',
     ['inputs'], 'every text, every list of edits that fit it, every list of endings', 'Tests apply one or two edits; edits of differing lengths, at the ends, adjacent, empty or given out of order are not varied.',
     ['BibleOrgSysGlobals.py'], [('applyStringAdjustments, removeStringEndings, removeAccents, stripWordEndsPunctuation', 'BibleOrgSysGlobals.py')], claim='proof',
     note=PN + ' Edits given out of order, and stripping punctuation, are checked within a stated bound only (contracts adjust_any_order, punctuation).')
prop('C16', 'Lines added to a book are kept, each as given, in the order added',
     'Adding a line to a book puts exactly one line, with its marker and its text as given (an absent text is empty), after the lines already there, which stay as they were. '
     'Adding text to the last line puts it at the end of that line, after one space only where it would run into a bare verse number, and touches no other line. '
     'Every unknown marker is in the list of bad markers once, with the number of lines that gave it; an empty marker is refused.',
     ['inputs', 'histories'], 'every state of a book being loaded, every marker and text', 'Tests load whole sample files; unknown and repeated markers, odd texts and the joins after verse numbers come in any order.',
     ['Internals/InternalBibleBook.py'], [('addLine, appendToLastLine', 'Internals/InternalBibleBook.py')],
     [('_rawLines, badMarkers, badMarkerCounts', 'the lines so far; the unknown markers and how often each came')], claim='proof',
     note=PN + ' The marker table is a parameter: any set of known markers, any set of new-line markers.')
prop('C20', 'Backing up a file moves it and its copies one step on and loses no other',
     'Backing up a file before it is overwritten leaves its content under the name of the first copy, and the content of each copy under the name of the next; only the content of the last copy kept is given up, and only when another takes its place. '
     'A name without a file gives none. No other file is touched, and the file itself is out of the way.',
     ['inputs', 'histories'], 'every set of existing files, every file name and extension, one to five copies kept',
     'Tests back up one file at most; gaps between the copies, the last copy and names that begin alike are not varied.',
     ['BibleOrgSysGlobals.py'], [('backupAnyExistingFile', 'BibleOrgSysGlobals.py')], claim='proof',
     note=PN + ' The file system is represented by a mapping from names to contents. Nine copies are checked within a stated bound only (contract backups_9); other numbers are not covered.')
prop('C23', 'Taking marks off Hebrew or Greek text takes off exactly those asked for',
     'Removing accents, vowel points, meteg or siluq, or other marks from Hebrew text takes off each mark of that kind, with the dots of shin and sin or without as asked, and keeps every other character, in order. '
     'The same holds when it is the text of the object itself that is worked on; it then becomes the result, and the original text stays. Kinds may be taken off in any order. '
     'Removing accents from Greek text puts the plain letter for each letter with accents and keeps every other character.',
     ['inputs'], 'every text', 'Tests print a few words; which mark stands where, and which option goes with which text, is not varied.',
     ['OriginalLanguages/Hebrew.py', 'OriginalLanguages/Greek.py'], [('Hebrew.remove...', 'OriginalLanguages/Hebrew.py'), ('Greek.removeAccents', 'OriginalLanguages/Greek.py')],
     [('currentText, originalText', 'the text worked on; the text first given')], claim='proof',
     note=PN + ' Bounded only: meteg or siluq by what stands before it, and the Greek check for accents left over (contracts with meteg, own_cantillation, greek_checked).')
prop('C09', 'A reference of several verses is the same range in every form',
     'A key made from a reference text with ranges and lists of verses holds exactly the verses written, in order, and its text, parsed again, gives an equal key.',
     ['inputs'], 'every reference text of the FlexibleVersesKey and ResultsVersesKey forms', 'Tests hold a handful of references.',
     ['Reference/VerseReferences.py'], [('FlexibleVersesKey, VersesKey', 'Reference/VerseReferences.py')],
     na='The parser tries a cascade of about twenty regular expressions with optional groups, in several nested try/except layers; the verifier over-approximates such matches, so no postcondition on the parts can be discharged, and several forms are marked unfinished (halt) in the code, so there is no settled contract to state.')
prop('C17', 'A Bible acts as one collection of its books',
     'Length, containment, look-up by code or position and iteration over a loaded Bible describe one sequence of books without duplicates, and discovering or loading a book twice changes nothing.',
     ['inputs', 'histories'], 'every set of loaded and available books', 'Tests load whole folders.',
     ['Internals/InternalBible.py'], [('InternalBible.__len__, __getitem__, __contains__, __iter__', 'Internals/InternalBible.py')],
     na='Look-up loads a missing book on demand through a method of one of thirty subclasses that reads files and starts worker processes; its effect on the books is whatever that method does, so a contract here would be an assumption on the subclasses rather than a proof.')
prop('C21', 'Control and list files are read as the entries written in them',
     'Reading a control file gives each name the value on the first line that has one, both without surrounding spaces; names that already have a value keep it, and comment lines, blank lines and lines without a name or an equals sign give nothing. '
     'Reading a list file adds each different line with text once, in the order of the file, to what the list held before. Yes and no words are understood in any case, before a comment or not; anything else is neither, and an absent control counts as no.',
     ['inputs'], 'every file, every state of the list or the values read into', 'Tests read no such file; comments, repeats, missing parts, the last line and values already there combine freely.',
     ['InputOutput/ControlFiles.py'], [('readControlFile, readListFile, booleanControl', 'InputOutput/ControlFiles.py')], claim='exploration',
     note='Yes and no words and booleanControl are proved for every text; reading the files is bounded, not proved (contracts control, list_file, real_file): the names and values of lines go through find, slices and strip, on which the solvers do not decide the loop invariant in time.')
prop('C24', 'Every nesting marker that is opened is closed in its place',
     'After processing, the lines of a book are well nested: each marker that opens a chapter, verse, paragraph, list or section has one closing marker, in the opposite order, before the next one of its level and before the end.',
     ['inputs'], 'every book', 'Tests process some sample books and look at nothing of the nesting.',
     ['Internals/InternalBibleBook.py'], [('_addNestingMarkers', 'Internals/InternalBibleBook.py')],
     na='One function of about 400 lines with a stack, look-ahead over the following lines and some forty marker classes, and known exceptions of its own; the path count is far beyond the symbolic executor and the invariant (nesting by class of marker) is not expressible with its templates.')
prop('C26', 'An organisational system answers from its own tables, then from its base',
     'A value of an organisational system is its own if given, and otherwise that of the system it is based on, however long the chain.',
     ['configurations'], 'every set of systems', 'Tests query a few shipped systems.',
     ['Reference/BibleOrganisationalSystems.py'], [('BibleOrganisationalSystem.getOrganisationalSystemValue', 'Reference/BibleOrganisationalSystems.py')],
     na='Does not hold as stated: shipped data has a chain that comes back to itself (KJV-1795, endless recursion) and one that raises TypeError (ORIGINAL); what the repaired behaviour should be is a choice of data for the maintainer, so there is no contract to hold the code to.')
prop('C27', 'Book name input is expanded exactly when it is unambiguous',
     'Each input for a book name or abbreviation is accepted when it leads to one book only, whatever the order of the tables, and refused otherwise.',
     ['inputs', 'configurations'], 'every table of names', 'Tests try a few abbreviations.',
     ['BibleOrgSysGlobals.py', 'Reference/BibleBooksNames.py'], [('expandBibleNames, expandDivisionsNames', 'Reference/BibleBooksNames.py')],
     na='The expansion deletes and adds entries in nested loops over dictionaries being built, shared between divisions and books; the heap model refuses mutation of a dictionary under iteration, and the order dependence is part of the present behaviour.')
