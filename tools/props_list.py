P('P01', 'Web of Science files survive reading and writing unchanged',
  'Reading any well-formed Web of Science file gives exactly the records, fields, lines and values the file holds, in the file\'s field order. '
  'Writing any collection of Web of Science records, however it was derived, and reading the result gives the same records again. '
  'A record\'s bytes and its own written text are the text it was read from.',
  ['inputs', 'histories'], 'All Web of Science files (any field values, field sets, empty and multi-line values, text that looks like file syntax, non-ASCII) and all collections derived from them.',
  'The tests round-trip one fixed file; field values that look like syntax, Unicode line separators, derived collections and second generations are never tried.',
  ['WOS/wosHandlers.py', 'WOS/recordWOS.py', 'recordCollection.py', 'mkRecord.py'],
  [('wosParser', 'WOS/wosHandlers.py'), ('recordParser', 'WOS/recordWOS.py'), ('writeRecord', 'WOS/recordWOS.py'), ('writeFile', 'recordCollection.py')],
  'round-trip monitor over generated and derived collections, oracle is the abstract description the files were rendered from',
  'Every record of every generated file is compared field by field with the description it was rendered from, after reading, after writing and after a second writing; assurance is that of the sampled workload.')

P('P02', 'Medline files survive reading and writing unchanged',
  'Reading any well-formed Medline file gives exactly the fields, repeated values and continuation lines it holds, with affiliation and identifier lines bound to the author they follow. '
  'Writing any collection of Medline records and reading the result gives the same records with the same values.',
  ['inputs', 'histories'], 'All well-formed Medline files, with repeated fields, continuation lines, empty continuation lines, author-bound fields with and without an owner.',
  'The tests compare the size of one written file; order of repeated values, continuation lines and ownership of affiliations are not looked at.',
  ['medline/medlineHandlers.py', 'medline/recordMedline.py'],
  [('medlineParser', 'medline/medlineHandlers.py'), ('medlineRecordParser', 'medline/recordMedline.py'), ('writeRecord', 'medline/recordMedline.py')],
  'round-trip monitor, oracle is the abstract description the files were rendered from',
  'Every field of every record is compared after reading and after writing; one known finding (two authors spelled the same) is excluded by construction and probed separately.')

P('P03', 'Scopus files survive reading and writing unchanged',
  'Reading any Scopus export gives exactly the values of its columns, whatever the columns\' order and quoting, with empty columns absent. '
  'Writing any collection of Scopus records and reading the result gives the same records with the same values.',
  ['inputs', 'histories'], 'All Scopus csv exports: any column order, values with commas, quotes, semicolons, leading or trailing punctuation, quoted and unquoted, empty quoted fields.',
  'The tests read one file with one column order and compare only counts and a written size.',
  ['scopus/scopusHandlers.py', 'scopus/recordScopus.py'],
  [('scopusParser', 'scopus/scopusHandlers.py'), ('scopusRecordParser', 'scopus/recordScopus.py'), ('writeRecord', 'scopus/recordScopus.py')],
  'round-trip monitor, oracle is the abstract description the files were rendered from',
  'Every column of every record is compared after reading and after writing.')

P('P04', 'Damaged input files lose nothing silently',
  'When a file is cut short or part of it is damaged, every record before and outside the damage is read with its values unchanged. '
  'Any record that cannot be read completely makes its collection, or that record, flagged bad with an error filed under the file it came from. '
  'Reading a damaged file never raises an undocumented exception and never invents a complete record.',
  ['fault_sequences', 'crash_points', 'inputs'], 'Every truncation point and every single-line or single-byte damage of generated Web of Science, Medline, Scopus and ProQuest files.',
  'The tests hold a handful of hand-damaged files and only check that the collection is bad.',
  ['WOS/wosHandlers.py', 'WOS/recordWOS.py', 'medline/medlineHandlers.py', 'medline/recordMedline.py', 'scopus/scopusHandlers.py', 'scopus/recordScopus.py', 'proquest/proQuestHandlers.py', 'recordCollection.py'],
  [('wosParser', 'WOS/wosHandlers.py'), ('medlineParser', 'medline/medlineHandlers.py'), ('scopusParser', 'scopus/scopusHandlers.py'), ('proQuestParser', 'proquest/proQuestHandlers.py')],
  'fault injection into generated files, monitor compares surviving records and error reports with the undamaged description',
  'Every reported outcome is compared with the undamaged description: intact records equal, losses reported, errors keyed by file.', level='fault_enumeration')

P('P05', 'A directory is read as the union of its files',
  'Reading a directory gives exactly the records of the files it holds (only those with the asked extension), each as it is when its file is read alone. '
  'Every file that is damaged has its error filed under its own path and makes the collection bad; no other file appears among the errors. '
  'A file that is no record file is skipped when no extension was asked for and refused when one was. '
  'The collection has the name it was given; without one, that of its file without the extension, or files-from- and the path of its directory, after the extension asked for.',
  ['inputs', 'fault_sequences'], 'All directories of up to six files of the four formats, with damaged files, foreign files, sub-directories, shared IDs, any extension argument.',
  'The tests read one directory once; damage in one of several files, foreign files and shared IDs are never combined.',
  ['recordCollection.py', 'mkCollection.py', 'fileHandlers.py'],
  [('CollectionWithIDs.__init__', 'mkCollection.py'), ('RecordCollection.__init__', 'recordCollection.py')],
  'differential monitor, the directory read against every file read alone and against the description of the files',
  'The records, values, source files, error reports and flags of every directory are compared; assurance is that of the sampled directories.')

P('P06', 'The directory cache is transparent',
  'A cached read of a directory always gives what an uncached read gives at that moment, after any history of adding, removing, renaming, swapping or rewriting files. '
  'A cache that is cut short, emptied, replaced by something else, or written by another version is never trusted and never makes the read fail. '
  'Changing a collection that came from the cache does not change what the next cached read gives. A cached read leaves a cache, and while nothing changes the next one opens none of the files again.',
  ['histories', 'crash_points', 'fault_sequences'], 'All histories of up to six steps of file changes, cache damage at any byte, changes of name and extension, and cached reads.',
  'The tests make one cached read of one unchanging directory.',
  ['mkCollection.py', 'recordCollection.py', 'grantCollection.py'],
  [('CollectionWithIDs.__init__', 'mkCollection.py')],
  'history monitor with crash-point injection into the cache file, oracle is an uncached read at the same moment',
  'Every cached read of every history is compared with an uncached one; cache files are truncated at random bytes and replaced.', level='fault_enumeration')

P('P07', 'Collections behave as mathematical sets',
  'Unions, intersections, differences, symmetric differences and their in-place forms, adding, removing, popping, copying, chunking and splitting give exactly the elements set theory says, after any history. '
  'No operation changes an operand it is not meant to change, and the result of every operation is independent of its operands. '
  'Error reports and the bad flag follow the elements as documented, and the name of a result tells its operands and the operation, that of a part its whole.',
  ['histories', 'inputs'], 'All histories of set operations over record and grant collections with good and bad members of every type.',
  'The tests apply each operator once to two fixed collections and compare sizes.',
  ['mkCollection.py'], [('Collection', 'mkCollection.py'), ('CollectionWithIDs', 'mkCollection.py')],
  'model-based history monitor against plain sets',
  'Every live collection is compared with its model after every operation.')

P('P08', 'Looking up and removing by ID finds exactly the right entries',
  'Membership, retrieval, removal and discarding by ID act on exactly the entry with that ID and on nothing else, after any history of changes. '
  'Removing or asking for an ID that is not there fails or gives the default as documented and changes nothing. '
  'Listing, splitting off or dropping bad entries partitions the collection into exactly its bad and good entries.',
  ['histories', 'inputs'], 'All histories of ID operations over record and grant collections of every type.',
  'The tests look up two IDs in one collection.',
  ['mkCollection.py', 'recordCollection.py'], [('CollectionWithIDs', 'mkCollection.py')],
  'model-based history monitor against a dictionary by ID',
  'Every operation\'s result and the state after it are compared with the model.')

P('P09', 'A record answers the same whatever was asked of it before',
  'Every way of asking a record for a field (indexing, defaulting lookup, membership, iteration, bulk lookup, raw access) gives one consistent answer. '
  'No sequence of questions, copies, pickles or writings changes any later answer, the record\'s own text, its identity or its hash. '
  'Absent fields raise or give the default consistently.',
  ['histories', 'inputs'], 'All sequences of up to thirty accesses on records of the four formats, by tag, long name, common name or unknown name.',
  'The tests read each field once in one order.',
  ['mkRecord.py', 'WOS/recordWOS.py', 'medline/recordMedline.py', 'scopus/recordScopus.py', 'proquest/recordProQuest.py'],
  [('ExtendedRecord', 'mkRecord.py'), ('Record', 'mkRecord.py')],
  'history monitor, every answer against that of a freshly read record',
  'Every answer in every history is compared with the first answer of a fresh record and with the raw fields.')

P('P10', 'Citations parse into their parts and compare by identity',
  'Any citation text decodes to exactly the author, year, journal, volume, page and DOI it spells. '
  'Two citations are equal, and hash alike, exactly when their author, year and journal agree, regardless of case, other parts, pickling, process or memory-saving mode. '
  'A citation that cannot be read completely is flagged and keeps its text.',
  ['inputs', 'histories'], 'All citation texts rendered from any subset of parts in any spelling, all pairs among up to 25 of them, Scopus references, any process and mode.',
  'The tests compare a handful of citations from one file in one process.',
  ['citation.py'], [('Citation', 'citation.py')],
  'parser monitor against the parts the texts were rendered from, pairwise equality and hash monitor, cross-process replay',
  'Every part of every citation and every pair is judged.')

P('P31', 'Every field decodes to the value its format documents',
  'Every field of a Web of Science, Medline, Scopus or ProQuest record decodes to the documented value and type, under its tag, its long name and the common names shared by all formats. '
  'Fields a record does not have are absent under all of these names.',
  ['inputs'], 'All well-formed records of the four formats with any set of documented fields.',
  'The tests check a few fields of a few records.',
  ['WOS/tagProcessing/tagFunctions.py', 'medline/tagProcessing/tagFunctions.py', 'scopus/tagProcessing/tagFunctions.py', 'medline/tagProcessing/specialFunctions.py', 'proquest/tagProcessing/tagFunctions.py', 'mkRecord.py'],
  [('tag functions', 'WOS/tagProcessing/tagFunctions.py'), ('ExtendedRecord', 'mkRecord.py')],
  'value monitor against an independent decoder written from the documentation',
  'Every field of every generated record is compared; one known finding of the Medline decoder is excluded by construction and probed separately.')

P('P11', 'Co-occurrence networks count exactly what occurs together',
  'A one-mode, multi-level, two-mode or multi-mode network of any collection has one node per distinct value and one edge per pair of values found together in a record, and nothing else. '
  'Its counts, weights, node types and attributes are exactly the occurrences in the records, whatever the stemmer and options. '
  'Values that are absent or repeated are treated the same everywhere.',
  ['inputs'], 'All record and grant collections, all fields as modes, all stemmers, counts, weights, directions and attribute options.',
  'The tests compare three counts of each network of one collection.',
  ['mkCollection.py', 'recordCollection.py'],
  [('networkOneMode', 'mkCollection.py'), ('networkTwoMode', 'mkCollection.py'), ('networkMultiMode', 'mkCollection.py'), ('networkMultiLevel', 'mkCollection.py')],
  'result monitor, every network against occurrence counts made from the described records',
  'Every node, edge and attribute of every network is compared.')

P('P12', 'Co-author networks connect exactly those who wrote together',
  'A co-author network has one node per author of the collection and an edge between two authors exactly when they wrote a record together, weighted by how often. '
  'Counts, details and citation profiles of an author are those of the author\'s records. '
  'Options limit or add exactly what they document.',
  ['inputs'], 'All collections of three formats with shared, repeated, single and missing authors and all options.',
  'The tests compare the size of a few networks of one collection.',
  ['recordCollection.py'], [('networkCoAuthor', 'recordCollection.py')],
  'result monitor, every network against counts over the described author lists', 'Every node, edge and attribute of every network is compared.')

P('P13', 'Co-citation networks connect exactly works cited together',
  'A co-citation network has one node per cited work, author, journal or year and an edge between two exactly when one record cites both, weighted by how often. '
  'Different spellings of a work are one node, and filters and keywords drop exactly the citations they describe. '
  'Node information and the marks of core records are those of the works.',
  ['inputs'], 'All collections of Web of Science and Scopus records that cite each other, themselves and shared works, and all combinations of options.',
  'The tests compare the size of a few networks of one collection.',
  ['recordCollection.py', 'citation.py'], [('networkCoCitation', 'recordCollection.py')],
  'result monitor, every network against counts over the described citations', 'Every node, edge and attribute of every network is compared; with expanded cores only the guaranteed part is.')

P('P14', 'Citation networks connect every record with what it cites',
  'A citation network has an edge between a record and each work it cites, in the asked direction, weighted by how often, and nothing else. '
  'Filters, node types, keywords and core options drop or mark exactly the citations they describe. '
  'Asking who cites a work gives exactly the records that do.',
  ['inputs'], 'All collections of Web of Science and Scopus records that cite each other, themselves and shared works, and all combinations of options.',
  'The tests compare the size of a few networks of one collection.',
  ['recordCollection.py', 'citation.py'], [('networkCitation', 'recordCollection.py'), ('localCitesOf', 'recordCollection.py')],
  'result monitor, every network against the described citations', 'Every node, edge and attribute of every network is compared; with expanded cores only the guaranteed part is.')

P('P15', 'Bibliographic coupling weighs the works two records share',
  'A coupling network connects two records exactly when they cite a common work, weighted by the number of distinct works they share. '
  'Node information and citation lists are those of the records.',
  ['inputs'], 'All collections of Web of Science and Scopus records that share citations in several spellings, repeat citations and cite each other.',
  'The tests compare the size of one network.',
  ['recordCollection.py'], [('networkBibCoupling', 'recordCollection.py')],
  'result monitor, every network against the described citations', 'Every node, edge and attribute of every network is compared.')

P('P16', 'Rankings, time series and glimpses agree with the records',
  'Ranked series, time series and co-occurrence counts of any field hold exactly the values the records hold, with their true counts, years and ranks, in the asked order. '
  'The written file says the same as the returned value. '
  'A glimpse shows true counts of true values.',
  ['inputs'], 'All collections of three formats, all fields, limits, orders and output forms.',
  'The tests look at the lengths of a few series of one collection.',
  ['mkCollection.py'], [('rankedSeries', 'mkCollection.py'), ('timeSeries', 'mkCollection.py'), ('cooccurrenceCounts', 'mkCollection.py'), ('glimpse', 'mkCollection.py')],
  'result monitor, every series against counts over the described records', 'Every value, count, rank and year is compared.')

P('P17', 'Citation statistics count every citation once',
  'Citation statistics by work, journal, year or author count each citation of each record once, whatever its spelling. '
  'Citation tables list each cited work once with its true parts, counts and fractions, limited exactly to the asked field values.',
  ['inputs'], 'All collections and single records with repeated, incomplete and differently spelled citations and all filters.',
  'The tests look at the length of two tables of one collection.',
  ['recordCollection.py', 'mkRecord.py'], [('localCiteStats', 'recordCollection.py'), ('getCitations', 'recordCollection.py'), ('getCitations', 'mkRecord.py')],
  'result monitor, every table against counts over the described citations', 'Every row is compared.')

P('P18', 'Graphs survive being written to files and read back',
  'A graph written to edge and node lists has one row per edge and node with all their attributes, in columns of the documented names, and reading the files back gives the same graph. '
  'A two-mode graph written as a tnet file lists each edge once, between the numbers of its nodes. '
  'Existing files are only overwritten when asked to.',
  ['inputs'], 'All graphs, directed or not, with any names, attributes, missing attributes, loops, parallel edges and isolated nodes.',
  'The tests write two graphs and compare the sizes of the files.',
  ['graphHelpers.py'], [('writeGraph', 'graphHelpers.py'), ('writeEdgeList', 'graphHelpers.py'), ('readGraph', 'graphHelpers.py'), ('writeTnetFile', 'graphHelpers.py')],
  'file monitor, every row against the graph; round trip', 'Every row and attribute is compared.')

P('P19', 'Filtering, merging and describing graphs is exact',
  'Dropping edges or nodes by weight, count or degree removes exactly those outside the asked bounds and nothing else. '
  'Merging adds the counts and weights of shared nodes and edges and adds every element that is new. '
  'Degrees, degree distributions and statistics are those of the graph.',
  ['inputs'], 'All graphs, directed or not, simple or multi, with loops and missing weights, and all bounds.',
  'The tests filter and merge a few graphs and compare their sizes.',
  ['graphHelpers.py'], [('dropEdges', 'graphHelpers.py'), ('dropNodesByDegree', 'graphHelpers.py'), ('dropNodesByCount', 'graphHelpers.py'), ('mergeGraphs', 'graphHelpers.py'), ('graphStats', 'graphHelpers.py')],
  'result monitor, every graph against one worked out from lists of nodes and edges', 'Every node, edge and attribute is compared.')

P('P20', 'Diffusion counts every citation between two collections',
  'Diffusion counts give for each source record, or value of its field, how often the targets cite it, split by the values of a second field when asked. '
  'Diffusion graphs have an edge for each cited and citing value. '
  'Tables and node attributes made from the counts say the same.',
  ['inputs'], 'All source and target collections, apart, overlapping or the same, all fields and options.',
  'The tests compare a few totals of one pair of collections.',
  ['diffusion.py'], [('diffusionGraph', 'diffusion.py'), ('diffusionCount', 'diffusion.py'), ('diffusionAddCountsFromSource', 'diffusion.py')],
  'result monitor, every count against the described citations', 'Every count is compared; node types that are a known finding are excluded by construction and probed separately.')

P('P21', 'Tables of records have one row per record and its values in each column',
  'A table or dictionary of columns made from a collection holds every record once, each cell being the value of the record for the field at the head of its column, whatever delimiters, column choices, names and splits are asked for. '
  'Splitting by a field gives one file per value with exactly the records having it.',
  ['inputs'], 'All collections of three formats, all choices of columns, delimiters, names and splits.',
  'The tests compare the sizes of a few files.',
  ['recordCollection.py', 'mkRecord.py'], [('writeCSV', 'recordCollection.py'), ('makeDict', 'recordCollection.py'), ('subDict', 'mkRecord.py')],
  'file monitor, every cell against the described records', 'Every cell of every table is compared.')

P('P22', 'BibTeX output states every field of every record',
  'A BibTeX file made from a collection is well formed and has one entry per record, with its identifier, and each field once with its value or the list of its values. '
  'The options for common fields, identifiers, braces and string lengths change only what they describe.',
  ['inputs'], 'All collections of four formats, malformed records among them, and all options.',
  'The tests compare the size of one file.',
  ['mkRecord.py', 'recordCollection.py'], [('bibString', 'mkRecord.py'), ('writeBib', 'recordCollection.py')],
  'file monitor, a BibTeX reader against the described records', 'Every field is compared; the end of strings that are cut into pieces is a known finding and probed separately.')

P('P23', 'Filters of collections keep exactly the records they describe',
  'Choosing records by a range of years, by what they cite or by their type of publication gives exactly the records that fit, malformed ones only where asked for. '
  'The collection chosen from changes only when asked to be.',
  ['inputs'], 'All collections, all bounds, citation parts, keys and publication types.',
  'The tests compare the sizes of a few results of one collection.',
  ['recordCollection.py'], [('yearSplit', 'recordCollection.py'), ('citeFilter', 'recordCollection.py'), ('dropNonJournals', 'recordCollection.py')],
  'result monitor, every choice against the described records', 'Every record is compared.')

P('P24', 'Reference spectroscopy counts the cited years exactly',
  'The reference spectrum of a collection gives for every year between the asked bounds, apart from dropped ones, how many counted citations are of works of that year, in year order. '
  'Its deviation from the median of the years around it and its rank follow from the counts.',
  ['inputs'], 'All collections with citations of clustered, scattered, missing and implausible years, all bounds and options.',
  'The tests compare the size of two spectra of one collection.',
  ['recordCollection.py'], [('rpys', 'recordCollection.py')],
  'result monitor, every year against counts over the described citations', 'Every year, count, deviation and rank is compared.')

P('P32', 'Texts prepared for analysis are those of the records',
  'Word lists by year and tables of cleaned texts hold the words of every record that has a text, without what cleaning is asked to drop and with everything else, and with the record\'s own year and other columns. '
  'A copyright statement and the text before it are together the abstract. '
  'The written file says the same as the returned value.',
  ['inputs'], 'All texts with digits, signs, odd spaces and letters of other scripts, and all cleaning options.',
  'The tests compare the sizes of two results of one collection.',
  ['recordCollection.py', 'mkRecord.py'], [('forBurst', 'recordCollection.py'), ('forNLP', 'recordCollection.py'), ('findProbableCopyright', 'recordCollection.py')],
  'result monitor, every text against one cleaned character by character', 'Every text is compared; which statements are found is a heuristic and only common ones are demanded.')

P('P25', 'Grant files are read as the grants they list',
  'Reading a grant file gives every grant it lists with every field, and reading a directory the union of its files, rows and files about one NSERC grant being joined. '
  'Files that are damaged or hold no grants are reported, or skipped when a whole directory is read, and never end in another error.',
  ['inputs', 'fault_sequences'], 'All NSERC, CIHR, NSF and other csv files, directories of them, and files cut or spoiled at any byte.',
  'The tests read three files and compare counts.',
  ['grantCollection.py', 'grants/nsercGrant.py', 'grants/nsfGrant.py', 'grants/cihrGrant.py', 'grants/baseGrant.py'], [('GrantCollection', 'grantCollection.py'), ('parserNSERCfile', 'grants/nsercGrant.py'), ('parserNSFfile', 'grants/nsfGrant.py')],
  'result monitor, every grant against the described file; damage at random bytes', 'Every field of every grant is compared.')

P('P26', 'Investigator networks connect those who share a grant',
  'The investigators and institutions of a grant are all the names its fields list. '
  'Their networks have a node for each name, counting its occurrences, and an edge between names in one grant, weighted by how often they occur together.',
  ['inputs'], 'All collections of grants of five types with repeated, shared and missing names, extra fields and separators.',
  'The tests compare the size of two networks of one file.',
  ['grantCollection.py', 'grants/baseGrant.py', 'grants/nsercGrant.py', 'grants/nsfGrant.py'], [('networkCoInvestigator', 'grantCollection.py'), ('getInvestigators', 'grants/baseGrant.py')],
  'result monitor, every network against the described grants', 'Every node, edge and attribute is compared; blank names are a known finding and probed separately.')

P('P27', 'Asking changes nothing and answers do not depend on earlier questions',
  'Making networks, series, tables, filters, statistics or files of a collection or graph leaves the collection, its records, the graph, the arguments and all other files as they were. '
  'The answer is the one a fresh equal collection gives, whatever was asked before.',
  ['inputs', 'histories'], 'All collections and graphs and all sequences of questions.',
  'The tests ask each thing once of a collection shared by many tests and compare sizes.',
  ['recordCollection.py', 'mkCollection.py', 'graphHelpers.py', 'diffusion.py'], [('RecordCollection', 'recordCollection.py'), ('CollectionWithIDs', 'mkCollection.py')],
  'state monitor around every question; differential against a fresh collection', 'Every answer of 45 kinds of questions is compared.')

P('P28', 'Author genders are those listed for their first names',
  'The gender given for an author is the one listed for the first name, in any case, and unknown when there is none. '
  'Counts and fractions of a record or collection count each author of each record once.',
  ['inputs'], 'All records and collections with listed, unlisted, repeated, incomplete and missing names.',
  'The tests need the network for the list of names.',
  ['genders/nameGender.py', 'mkRecord.py', 'recordCollection.py'], [('nameStringGender', 'genders/nameGender.py'), ('authGenders', 'mkRecord.py'), ('genderStats', 'recordCollection.py')],
  'result monitor against a stand-in list of names', 'Every count is compared; the list of names is a stand-in.')

P('P30', 'ProQuest files are read as the documents they list',
  'Reading a ProQuest report gives every document with every field and all its paragraphs. '
  'A report that ends early keeps its whole documents and is reported.',
  ['inputs'], 'All reports with titles holding colons, full stops and numbers, several paragraphs, links and missing fields.',
  'The tests read one file.',
  ['proquest/proQuestHandlers.py', 'proquest/recordProQuest.py'], [('proQuestParser', 'proquest/proQuestHandlers.py'), ('proQuestRecordParser', 'proquest/recordProQuest.py')],
  'result monitor, every field against the described document', 'Every field is compared.')

P('P33', 'The journal database knows exactly what was put into it',
  'A journal added to the manual database is a journal with its given name, an excluded one is not, and all others are as the downloaded list says. '
  'This holds in later processes, and changes made through citations at once. Manual databases of other names stand by themselves.',
  ['histories', 'inputs'], 'All sequences of adding, excluding and asking over several processes.',
  'The tests need the network for the list of journals.',
  ['journalAbbreviations/backend.py', 'citation.py'], [('addToDB', 'journalAbbreviations/backend.py'), ('getj9dict', 'journalAbbreviations/backend.py'), ('isJournal', 'citation.py')],
  'history monitor against a model of the two databases, over several processes', 'Every answer is compared; the downloaded list is a stand-in.')

P('P29', 'Showing progress changes no answer and leaves nothing behind',
  'With progress shown every read, question and file is the same as without, including the errors. '
  'Once the call is over, however it ended, no thread runs on, no thread failed, and the line of the bar is ended; without progress nothing is written. '
  'What is shown fits the width of the terminal, tells percentages that were set, from 0 to 100, and the texts given, shortened in the middle where they do not fit.',
  ['schedules', 'inputs', 'fault_sequences'], 'All interleavings of the working and the showing thread, and all calls, those that fail included.',
  'The tests switch progress off, or write one graph with a bar, and run on one schedule.',
  ['progressBar.py', 'recordCollection.py', 'graphHelpers.py', 'diffusion.py'], [('_ProgressBar', 'progressBar.py'), ('writeEdgeList', 'graphHelpers.py'), ('diffusionCount', 'diffusion.py')],
  'differential monitor of quiet and shown runs under randomised thread switches; monitors of threads, thread errors and the written text', 'The calls of 45 kinds of questions and 8 kinds of reads are compared; schedules are randomised by shortened waits and switch intervals, not enumerated.')

P('P34', 'A session at the command line does what its answers say',
  'The files a session writes are those the same steps in Python give, wrong and empty answers are asked for again, and files that exist are replaced only when told so or when the name was given as an argument. '
  'Quitting, an interrupt or the end of the input at any question leaves the files of the finished steps and nothing else. '
  'Going over citations asks once about each unknown journal and records every answer in the chosen database. Every menu names all its choices, and the sizes shown are those of the collection and network at hand.',
  ['histories', 'inputs', 'fault_sequences'], 'All arguments, collections and sequences of answers, ended at any question.',
  'The tests answer eight fixed sessions and compare the size of what they give; four of them do not run on this platform.',
  ['bin/metaknowledgeCLI.py'], [('mkCLI', 'bin/metaknowledgeCLI.py'), ('getOutputName', 'bin/metaknowledgeCLI.py'), ('inputMenu', 'bin/metaknowledgeCLI.py')],
  'history monitor of scripted sessions, every file and database against the same steps in Python', 'Every file of a session is compared; the terminal is a scripted user.')

P('P35', 'A failing disk is never passed over in silence',
  'When opening, reading, writing or closing a file fails part way, the failure is raised or the collection is flagged bad with an error for that file, and everything it then holds is what the files hold; nothing returns as if all was well with part missing. '
  'Collections and graphs being written and files being read stay as they were, and asking again once the disk works gives the whole answer, also through the directory cache.',
  ['fault_sequences', 'inputs'], 'All files, directories, collections and graphs, with every operation on a file failing once or from then on, and with reads and writes of a few bytes at a time.',
  'The tests never see a disk fail.',
  ['WOS/wosHandlers.py', 'medline/medlineHandlers.py', 'scopus/scopusHandlers.py', 'grants/nsercGrant.py', 'mkCollection.py', 'recordCollection.py', 'graphHelpers.py'],
  [('wosParser', 'WOS/wosHandlers.py'), ('parserNSERCfile', 'grants/nsercGrant.py'), ('_createCache', 'mkCollection.py'), ('writeFile', 'recordCollection.py'), ('writeGraph', 'graphHelpers.py')],
  'fault injection under open(), oracle is the same action over a disk that works', 'Every answer, flag, file and later answer is compared; journal databases and the standard library\'s own files are not failed.', 'fault_enumeration')

P('P36', 'An interrupt ends what runs and does no harm',
  'An interrupt or request to exit that comes at any point while files are read, questions are answered or things are changed ends it: it is never swallowed and nothing is returned as if all was well with part missing. '
  'Questions and readings leave collections, records, graphs, arguments and read files as they were, and asking again gives the whole answer. A change in place keeps everything that was there before and stays after, and adds nothing else.',
  ['crash_points', 'inputs', 'histories'], 'All files, collections, graphs and actions, interrupted at every line of the package.',
  'The tests are never interrupted.',
  ['WOS/wosHandlers.py', 'grants/baseGrant.py', 'mkRecord.py', 'mkCollection.py', 'recordCollection.py', 'citation.py', 'genders/nameGender.py'],
  [('wosParser', 'WOS/wosHandlers.py'), ('RecordCollection', 'recordCollection.py'), ('addToNetwork', 'recordCollection.py'), ('getMapping', 'genders/nameGender.py')],
  'interrupts injected at traced lines, oracle is the same action without one', 'Every outcome, state and later answer is compared; interrupts come between lines.', 'fault_enumeration')

P('P37', 'Threads that work at the same time get the answers each would get alone',
  'When threads put questions to collections, records, grants and graphs they share, read the same files and directories, with the cache or without, or use the journal and name lists for the first time, every one of them gets what it would get alone. '
  'What they share stays as it was, and nothing fails that would not fail alone.',
  ['schedules', 'inputs'], 'All interleavings, between lines of the package, of two or more threads that ask or read; changing the same collection from several threads is left out.',
  'The tests run in one thread.',
  ['mkRecord.py', 'mkCollection.py', 'recordCollection.py', 'citation.py', 'genders/nameGender.py', 'grants/baseGrant.py'],
  [('ExtendedRecord', 'mkRecord.py'), ('_loadFromCache', 'mkCollection.py'), ('Citation', 'citation.py'), ('getMapping', 'genders/nameGender.py')],
  'controlled thread schedules at traced lines, oracle is each thread alone', 'Every answer is compared; interleavings are sampled by random hand-overs between lines, not enumerated.')

P('P38', 'Plots show every node and edge of their graph',
  'quickVisual draws each node once, with its label when asked, in one colour per type that is named in the legend, and each edge between its two nodes, also for graphs that are empty, directed or partly typed. '
  'graphDensityContourPlot draws a surface that counts the nodes at each place, and every node at the place it is counted at. Neither changes the graph.',
  ['inputs'], 'All graphs, with and without types, layouts and options.',
  'The tests draw one graph and look at nothing that was drawn; the density plot is not tested.',
  ['contour/plotting.py'], [('quickVisual', 'contour/plotting.py'), ('graphDensityContourPlot', 'contour/plotting.py')],
  'result monitor over what is handed to the plotting library, against the graph', 'Points, lines, arrows, colours, labels and the surface are compared; the pixels are left to the plotting library.')

P('P39', 'Notebooks made from markdown hold all of its text and code',
  'metaknowledgeMdToNb turns any markdown file into a valid notebook whose cells hold every line of the text and, in cells of code, every numbered code line, in their order and unchanged.',
  ['inputs'], 'All text files, whatever characters and line ends they hold.',
  'The tests do not run the command.',
  ['bin/metaknowledgeMdToNb.py'], [('mkMdToNb', 'bin/metaknowledgeMdToNb.py'), ('convertString', 'bin/metaknowledgeMdToNb.py')],
  'result monitor of notebooks against an independent reading of the lines', 'Every cell is compared; blank lines at the ends of a cell are open.')

P('P40', 'What is read and written does not depend on the machine',
  'Files of records, grants and graphs, lists of names and markdown texts read the same, and collections, graphs, tables, notebooks and sessions write files that say the same, whatever the default encoding and line end of the machine, '
  'the order in which it lists folders and its time zone: no character is dropped, changed or refused and no row is added, and files carried from one machine to another read the same on both.',
  ['configurations', 'inputs'], 'All files, collections and graphs, on machines with any default encoding, line end, folder order and time zone.',
  'The tests run on one machine, whose default encoding is UTF-8.',
  ['graphHelpers.py', 'recordCollection.py', 'mkCollection.py', 'WOS/wosHandlers.py', 'scopus/scopusHandlers.py', 'medline/medlineHandlers.py', 'proquest/proQuestHandlers.py', 'grants/baseGrant.py', 'genders/nameGender.py', 'bin/metaknowledgeMdToNb.py', 'bin/metaknowledgeCLI.py'],
  [('writeEdgeList', 'graphHelpers.py'), ('readGraph', 'graphHelpers.py'), ('timeSeries', 'mkCollection.py'), ('forNLP', 'recordCollection.py'), ('writeFile', 'recordCollection.py'), ('getMapping', 'genders/nameGender.py')],
  'the same action on a stand-in for another machine under open(), oracle is this machine', 'Answers and files are compared; file name rules of other systems are not emulated.')

P('P41', 'Downloaded lists are used whole or not at all',
  'Updating the list of journals adds every abbreviation with all its names, from whichever of the pages list them, to what was known, repeating none that was listed once; a missing list is downloaded when it is first needed, and one that is there is not downloaded again. '
  'The list of first names is that of the asked country. '
  'When a connection, page, file or disk fails, the lists and the working directory stay as they were and nothing else is left beside the lists, the failure is raised, and asking again once it works gives the whole list. '
  'A manual database holds only what was put into it.',
  ['fault_sequences', 'histories', 'inputs'], 'All histories of downloading, updating and using the lists, with connections, pages, archives, the disk or the user failing at any point.',
  'No test downloads anything.',
  ['journalAbbreviations/backend.py', 'genders/nameGender.py'], [('updatej9DB', 'journalAbbreviations/backend.py'), ('getj9dict', 'journalAbbreviations/backend.py'), ('downloadData', 'genders/nameGender.py')],
  'fault injection at the network, disk and interrupts with a model of the lists as oracle', 'The sites are stand-ins behind urllib, the code that fetches, parses and stores is the real one.', level='fault_enumeration')
P('P42', 'Records and grants know where they came from',
  'The source file of every record and grant read from a file is that file, and its source line, counting from one, is the first line of its own text there, for every record and grant format, whether or not it could be read, '
  'after other records, bad ones and blank lines, in rows over several lines, and in directories, caches, copies, pickles, subsets and unions. '
  'Grants that are rows of a file keep the whole row as their original text, merged rows that of the first. '
  'A record made by hand is where its maker says, and the error for writing a record that could not be read names its place.',
  ['inputs', 'histories'], 'All files of the supported formats and all ways of getting records from them.',
  'No test looks at where records came from.',
  ['mkRecord.py', 'WOS/wosHandlers.py', 'medline/medlineHandlers.py', 'scopus/scopusHandlers.py', 'proquest/proQuestHandlers.py', 'grants/baseGrant.py'],
  [('Record', 'mkRecord.py'), ('wosParser', 'WOS/wosHandlers.py'), ('medlineParser', 'medline/medlineHandlers.py'), ('scopusParser', 'scopus/scopusHandlers.py'), ('proQuestParser', 'proquest/proQuestHandlers.py'), ('csvAndLinesReader', 'grants/baseGrant.py')],
  'record provenance compared with where the generator wrote each text', 'A ProQuest record starts at its "Document n of m" line and an NSF award with its file.')
P('P43', 'What cannot be done is refused and leaves everything as it was',
  'A request that cannot be granted (members of the wrong type, absent members and IDs, tags that are no strings, unknown node, key and edge types, unknown names, files that are missing, unknown, of another extension or must not be overwritten, '
  'graphs without the weights, counts or modes asked for, malformed records to be written) raises the documented kind of exception, whatever the collection, record, grant or graph it is put to. '
  'Afterwards collections, records, grants, graphs, arguments, the working directory and every file are as they were, except that a file whose writing was refused because of what was to be written in it may be left unfinished; '
  'and later requests are answered as if nothing had been asked.',
  ['inputs', 'histories'], 'All refused requests of the kinds listed, in any order, on any collections, grants and graphs.',
  'The tests make a few wrong requests and look only at the exception.',
  ['mkCollection.py', 'recordCollection.py', 'grantCollection.py', 'graphHelpers.py', 'diffusion.py', 'mkRecord.py', 'grants/baseGrant.py', 'mkExceptions.py'],
  [('Collection', 'mkCollection.py'), ('RecordCollection', 'recordCollection.py'), ('GrantCollection', 'grantCollection.py'), ('dropEdges', 'graphHelpers.py'), ('writeTnetFile', 'graphHelpers.py'), ('diffusionCount', 'diffusion.py'), ('Record', 'mkRecord.py')],
  'exceptions compared with the documented ones and full snapshots around every refused request', 'Only kinds of wrong requests whose exception is documented or raised on purpose are made.')
P('P44', 'Grants are dictionaries that keep their identity, and copies stand on their own',
  'A grant answers every history of setting, deleting, popping, defaulting, clearing, updating and reading exactly as a dictionary of its fields would, with strings for keys only. '
  'Whatever is done to the fields of a well-formed grant, its ID, hash, source and original stay, equal copies stay equal, and the collections it is in find it. Names of investigators and all answers of its collections are those of its current fields. '
  'Copies and pickles of grants and records are equal to them and decoupled from them: nothing done to one, or to the lists it gives, shows in the other.',
  ['histories'], 'All histories of dictionary operations on up to seven grants of six types and their copies, in collections; records of the four formats and their copies.',
  'The tests set no field of any grant and change no copy.',
  ['grants/baseGrant.py', 'grants/nsercGrant.py', 'mkRecord.py', 'mkCollection.py'],
  [('Grant', 'grants/baseGrant.py'), ('update', 'grants/nsercGrant.py'), ('copy', 'mkRecord.py'), ('GrantCollection', 'grantCollection.py')],
  'a dictionary run through the same operations and grants made of its contents', 'Shallow copies (copy.copy) of lists are left open; what updating an NSERC grant from one of another type does is left open.')
