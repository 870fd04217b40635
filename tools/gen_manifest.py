"""Writes properties.jsonl and MANIFEST.json from the table below: python tools/gen_manifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "UnicodeData/"
B = "module_builder/"
TESTS = "The tests sample a handful of inputs"

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note))


SETNOTE = ("Histories are sampled; after each operation the monitor compares everything observable about the changed set with a "
           "bit-set model over the history's cut points. Trusts the model (60 lines) and Python's integers.")
SETWHY = ("The tests build a few small sets and apply one or two operations to each; how lists merge depends on the relative "
          "position of every range border of both operands, and on what earlier operations left behind.")
SETTECH = "reference-model monitor over random operation histories"
SETFILES = [U + "UnicodeSet.py"]
LOOKNOTE = ("Exhaustive over all 0x110000 code points in one order; sampled in orders, mixtures and arguments outside the code "
            "space. Trusts the recorded reference tables (Unicode 13.0.0), which tools/crossvalidate.py compares with Java 17, "
            "Python's unicodedata and ICU 74.")
LOOKWHY = ("The tests look up a few dozen characters; the answer for a code point depends on table blocks shared by others, on "
           "which range of the code space it lies in and on special cases, so that a slip can hit a single block.")
LOOKTECH = "oracle monitor over exhaustive and random lookup workloads"

prop("C01", "Set operations have the mathematical meaning of their names",
     "After any sequence of operations on code point sets (adding, removing, retaining, complementing of single code points, "
     "ranges and other sets, the operators and their in-place forms, copying, clearing), each set contains exactly the code "
     "points that set algebra says. Membership of a code point, and of a whole range, answers accordingly.",
     ["histories", "inputs"], "every sequence of set operations on every choice of code points, inclusive ranges and operand sets",
     SETWHY, SETFILES,
     [("inversion-list merge for union, intersection, difference and symmetric difference", U + "UnicodeSet.py:_addList,_retainList,_exclusiveOrList"),
      ("single code point and range entry points", U + "UnicodeSet.py:add,addRange,remove,retain,complement"),
      ("binary search for membership", U + "UnicodeSet.py:_findCodePoint,contains")], SETTECH, SETNOTE)
prop("C02", "Equal sets are indistinguishable; every set is kept in canonical form",
     "Two code point sets are equal exactly when they have the same members, however they were built. The ranges a set reports, "
     "their number, starts and ends, and its printed form are those of the maximal runs of its members in ascending order, "
     "without empty, overlapping or adjacent ranges.",
     ["histories", "inputs"], "every pair of sets reached by any two sequences of operations", SETWHY, SETFILES,
     [("merges close ranges that touch", U + "UnicodeSet.py:_addList,add,addRange"), ("equality by comparing lists", U + "UnicodeSet.py:__eq__"),
      ("range views", U + "UnicodeSet.py:getRanges,getRangeCount,getRangeStart,getRangeEnd,__str__")], SETTECH, SETNOTE)
prop("C03", "Set operations change only their receiver and return what they promise",
     "Operations that change a set change no other set and return the changed set itself; operations that combine sets leave "
     "their operands alone and return a new set that shares nothing with them. A set used as its own operand behaves like an equal copy.",
     ["histories"], "every sequence of operations over a pool of sets, with aliased operands and changes made after each operation",
     "Aliasing shows only when a set is changed after it took part in another operation; the tests compare a result at once and throw it away.",
     SETFILES, [("list copying in the constructor and in merges", U + "UnicodeSet.py:__init__,addAll,complementAll"),
                ("mutators return self, combinators copy first", U + "UnicodeSet.py:union,__or__,__ior__")], SETTECH, SETNOTE)
prop("C04", "Code points outside U+0000..U+10FFFF and wrong types cannot damage a set",
     "Code points beyond either end of the code space act as the nearest code point when they are given to operations that change a set, "
     "and are never members. Reversed inclusive ranges change nothing as an addition, removal or complement, and arguments of a type that is not accepted raise TypeError and change nothing; a set never equals an "
     "object that is not a set.",
     ["inputs", "histories"], "every operation with arguments inside and outside the code space, reversed ranges and foreign objects",
     "The tests stay inside the code space; what a bad argument leaves behind is seen only by later operations.", SETFILES,
     [("pinning", U + "UnicodeSet.py:_pinCodePoint"), ("argument checks", U + "UnicodeSet.py:__init__,complement,contains,__contains__,__eq__")],
     SETTECH, SETNOTE)
prop("C05", "Size, indexing and iteration of a set agree with its sorted members",
     "For every set, its size is the number of members, iteration yields them all once in ascending order, the member at index i is "
     "the i-th smallest, and the index of a member is the inverse of that. Indexes out of range and non-members give None.",
     ["histories", "inputs"], "every set reached by operations, every index and every code point", SETWHY, SETFILES,
     [("range walk with running offsets", U + "UnicodeSet.py:indexOf,charAt,size,__iter__")], SETTECH, SETNOTE)

TRIENOTE = ("Tries are written by an independent encoder (lib/tries.py) that varies sharing, null blocks, alignment, high start and "
            "value widths; tries and probe points are sampled.")
prop("C06", "A two-stage trie returns the value stored for every code point",
     "For every well-formed UTrie2 data array, looking up any code point from U+0000 to U+10FFFF gives the value the data stores "
     "for it, in the ASCII, two-byte, BMP, surrogate, supplementary and high ranges alike; lookups beyond the code space give the error value.",
     ["inputs"], "every trie layout (block sharing, null blocks, high start) and every code point", LOOKWHY, [U + "Utrie2.py"],
     [("index arithmetic per range of the code space", U + "Utrie2.py:indexRaw,indexFromSupp,indexFromCodePoint,get")],
     "differential monitor against an independent trie encoder", TRIENOTE)
prop("C07", "Enumerating a UTrie2 yields exactly the maximal runs of its mapped values",
     "Enumerating a trie over any span of code points, with or without a value function, yields consecutive, non-overlapping ranges that cover the span "
     "exactly, each as long as the mapped value stays the same, with the value that looking up any code point of the range and "
     "applying the function gives.",
     ["inputs"], "every trie layout, every span (also starting or ending inside a block) and every value function",
     "The tests enumerate the shipped tries from start to end; block borders, shared and null blocks and the surrogate gap matter only for other tries and spans.",
     [U + "Utrie2.py"], [("block walk with null-block and repeated-block shortcuts", U + "Utrie2.py:enumerator")],
     "differential monitor against run lists, on generated tries", TRIENOTE)
prop("C08", "A code point trie returns the stored value for all types and widths",
     "For every well-formed code point trie, of fast and small type and with 8-, 16- and 32-bit values, built from its arrays or read from its serialized bytes, "
     "each code point gives the value the data stores for it, and what lies beyond the code space gives the error value.",
     ["inputs"], "every trie layout, type, value width, high start and code point", LOOKWHY, [U + "CPTrie.py"],
     [("three- and four-stage index", U + "CPTrie.py:internalSmallIndex,fastIndex,get"), ("header parsing", U + "CPTrie.py:createFromData")],
     "differential monitor against an independent trie encoder", TRIENOTE)
prop("C09", "Enumerating a code point trie yields exactly the maximal runs of its values",
     "Enumerating a code point trie over any span yields consecutive ranges that cover the span exactly, each "
     "maximal for its mapped value, with the value that looking up its code points gives, for all trie types and value widths.",
     ["inputs"], "every trie layout, type, width, span and value function",
     "The tests enumerate whole shipped tries; null blocks, 18-bit indexes, the change from fast to small blocks and spans that start inside blocks need other tries.",
     [U + "CPTrie.py"], [("range search with null-block shortcuts", U + "CPTrie.py:getRange,enumerator")],
     "differential monitor against run lists, on generated tries", TRIENOTE)

prop("C10", "General category and character predicates are right for every code point",
     "For every code point the general category is the one Unicode 13.0.0 assigns, and each predicate (letter, digit, "
     "white space, control, printable, punctuation, identifier start or part, and their POSIX and Java variants) answers as ICU defines it.",
     ["inputs", "histories"], "every code point, in every order of questions", LOOKWHY, [U + "CharProps.py", U + "CharPropsData.py", U + "GeneralCategories.py"],
     [("packed words and category masks", U + "CharProps.py:getGeneralCategory..isJavaIDPart")], LOOKTECH, LOOKNOTE)
prop("C11", "Script, block, age, width, break and decomposition type are right everywhere",
     "For every code point the script, block, age, East Asian width, line, sentence, word and grapheme cluster break values "
     "and the decomposition type are those of Unicode 13.0.0, and the version that the package reports is that of its newest characters.",
     ["inputs", "histories"], "every code point, in every order of questions", LOOKWHY, [U + "CharProps.py", U + "CharPropsData.py"],
     [("bit fields of the property vectors", U + "CharProps.py:*FromVecIndex")], LOOKTECH, LOOKNOTE)
prop("C12", "Numeric types and values are right for every character and every encoding",
     "Digit value, numeric type and numeric value are those of Unicode 13.0.0 for every code point. Every encoded numeric value that a data word can hold "
     "(decimal, digit, integer, fraction, large, base-60, twentieths and thirty-seconds) decodes to the number it stands for.",
     ["inputs", "histories"], "every code point and every encodable numeric type-value", LOOKWHY, [U + "CharProps.py"],
     [("decoding by range of the encoded value", U + "CharProps.py:numericValueFromProps,numericTypeFromProps,digitValue")], LOOKTECH,
     LOOKNOTE + " All 0x34C encodings are decoded.")
prop("C13", "Binary and emoji properties are right for every code point",
     "For every code point each binary property (White_Space to Prepended_Concatenation_Mark, and the emoji properties) has "
     "the value Unicode 13.0.0 gives it, through the generic query and through the named emoji predicates.",
     ["inputs", "histories"], "every code point and every property, in every order of questions", LOOKWHY, [U + "CharProps.py", U + "uprops_h.py"],
     [("bit positions in two vector columns", U + "CharProps.py:getBinaryProp,binaryPropFromVecIndex")], LOOKTECH, LOOKNOTE)
prop("C14", "Bidi classes, mirroring, brackets and joining are right and consistent",
     "For every code point the bidi class, mirrored flag, mirror image, paired bracket and its type, joining type and joining group and the control flags are those of "
     "Unicode 13.0.0. Mirror images and paired brackets are symmetric, and every code point without one maps to itself.",
     ["inputs", "histories"], "every code point, in every order of questions", LOOKWHY, [U + "BidiProps.py", U + "BidiPropsData.py"],
     [("packed words with mirror deltas and a mirror table", U + "BidiProps.py:mirror,getMirror,getPairedBracket"),
      ("joining group arrays", U + "BidiProps.py:getJoiningGroup")], LOOKTECH, LOOKNOTE)
prop("C15", "Simple case mappings are right for every code point",
     "For every code point the simple lowercase, uppercase and titlecase mappings are the single code points that Unicode 13.0.0 defines, "
     "and a code point without a mapping maps to itself.",
     ["inputs", "histories"], "every code point, in every order of questions", LOOKWHY, [U + "CaseProps.py", U + "CasePropsData.py"],
     [("deltas and exception slots", U + "CaseProps.py:toLower,toUpper,toTitle,getSlotValue")], LOOKTECH, LOOKNOTE)
prop("C16", "Full case mappings are right for every code point",
     "For every code point the full lowercase, uppercase and titlecase mappings are the strings that Unicode 13.0.0 defines "
     "without language or context conditions, and a code point without a special mapping gives the string of its simple mapping.",
     ["inputs", "histories"], "every code point, in every order of questions", LOOKWHY, [U + "CaseProps.py", U + "CasePropsData.py"],
     [("full-mapping strings in the exception data", U + "CaseProps.py:toFullLower,toFullUpper,toFullTitle")], LOOKTECH, LOOKNOTE)
prop("C17", "Property lookups are total and all views of a property agree",
     "Any non-negative integer can be asked about: what lies beyond U+10FFFF has each property's default value and maps to itself, "
     "and disturbs no later answer. A property decoded from the packed word or vector index of a code point equals the direct lookup, and "
     "vector columns and property bits that do not exist read as absent.",
     ["inputs"], "every lookup with every non-negative integer, every code point through every view, every column and bit number",
     "The tests pass assigned characters to the direct lookups only.", [U + "CharProps.py", U + "BidiProps.py", U + "CaseProps.py"],
     [("error values of the tries", U + "Utrie2.py:indexFromCodePoint"), ("range checks", U + "CharProps.py:getUnicodeProperties,getScript,getBinaryProp")],
     LOOKTECH, LOOKNOTE)
prop("C18", "Names, aliases and numbers of property values agree across all tables",
     "The numeric constants of the package are those of ICU's headers, and the dictionaries of names and aliases assign to every property value "
     "its Unicode names, in both directions where a reverse dictionary exists, and to no other value. Every value that a property lookup can return has a name.",
     ["inputs"], "every entry of every dictionary, every constant, and every value returned for any code point",
     "The tests read a few entries; the tables are long, partly hand-written lists in which a swapped or misspelt line disturbs nothing else.",
     [U + f for f in ("Blocks.py", "Scripts.py", "GeneralCategories.py", "Boundaries.py", "CharDirection.py", "JoiningTypesAndGroups.py",
                      "LayoutTypes.py", "EastAsianWidth.py", "DecompositionType.py", "UCDTypeDictionaries.py", "uchar_h.py", "uscript_h.py", "uprops_h.py", "ucase_h.py", "Characters.py")],
     [("constants, name dictionaries, alias dictionaries and their inversions", U + "Blocks.py and its siblings")],
     "oracle monitor over every table entry", "Exhaustive over entries. Trusts recorded names, compared with ICU 74's property value names and gcc's evaluation of ICU headers.")
prop("C19", "UTF-16 and bit utilities compute what they document for every input",
     "Surrogate tests, splitting a supplementary code point into surrogates and joining them are right for all code points and inverse to each other, and no larger 32-bit value is a surrogate. "
     "Noncharacter tests, the sign-extending shift of a word's top bits, the highest set bit of a value up to 64 bits and the "
     "formatting of code lists give what their documentation says.",
     ["inputs"], "every code point and surrogate pair, every word and field width, every value up to 64 bits", TESTS + " of each helper.",
     [U + "Utilities.py"], [("shifts and masks", U + "Utilities.py")], "oracle monitor over exhaustive and random arguments",
     "Exhaustive over code points and over 16-bit words; sampled over wider words. Trusts Python's UTF-16 codec and int.bit_length.")
prop("C20", "Every character has the right name, for any well-formed names file",
     "For every code point the character name, the alias and the extended name are those the names data file encodes, whether the name is stored with one- or two-byte tokens, "
     "generated from a range's prefix and hexadecimal digits, or built from factors as for Hangul. Code points without a name, and integers beyond U+10FFFF, give the empty string, or as an extended name "
     "a label made from their category and number.",
     ["inputs", "configurations"], "every names file layout, every code point and every kind of name",
     "The tests read some names from the one data file of their Unicode version; token widths, nibble lengths, group borders and factor ranges appear there in few combinations.",
     [U + "CharNames.py"], [("group search and nibble-coded lengths", U + "CharNames.py:getGroup,expandGroupLengths"),
                            ("token expansion", U + "CharNames.py:Tokens.expandString"), ("algorithmic ranges", U + "CharNames.py:AlgorithmicRange")],
     "differential monitor on real and generated names files", "All code points of ICU 74's file; generated files are sampled. Trusts lib/names.py's encoder and Python's unicodedata.")
prop("C21", "Iterating names lists each named character once; looking up by name inverts it",
     "Iterating over names or aliases yields every code point that has one, exactly once, in ascending order, with the name a direct query gives. "
     "Looking up a name gives the smallest code point that bears it, or the documented not-found value; iterators are independent of each other and of queries.",
     ["inputs", "configurations", "histories"], "every names file layout, every name, and interleavings of several iterators and queries",
     "The tests look up a few names; stored groups and generated ranges can interlock in ways the shipped file does not show.",
     [U + "CharNames.py"], [("walk over groups and ranges", U + "CharNames.py:nameIterator"), ("search", U + "CharNames.py:charFromName")],
     "differential monitor on real and generated names files", "As C20.")
prop("C22", "Indic positional, syllabic and vertical orientation lookups are right",
     "For every code point the Indic positional category, Indic syllabic category and vertical orientation are those stored in the layout data file, and the defaults beyond the code space.",
     ["inputs", "histories", "configurations"], "every code point, in every order of questions, on ICU's and on other well-formed layout files", LOOKWHY, [U + "LayoutProps.py", U + "CPTrie.py"],
     [("three tries cut from one file", U + "LayoutProps.py")], LOOKTECH, LOOKNOTE)
prop("C23", "Canonical decompositions are right for every code point",
     "For every code point the full canonical decomposition and the raw (one-step) mapping are those of Unicode 13.0.0, Hangul "
     "syllables included; applying raw mappings until nothing changes gives the full decomposition, and code points without a mapping, and integers beyond the code space, give None.",
     ["inputs", "histories"], "every code point, both mappings, in every order of questions", LOOKWHY, [U + "Normalizer2.py", U + "Norm2NFCData.py"],
     [("norm16 thresholds, algorithmic mappings and extra data", U + "Normalizer2.py:getDecomposition,getRawDecomposition")], LOOKTECH,
     "Exhaustive over code points. Trusts the recorded mappings, compared with Python's unicodedata and ICU 74.")
prop("C24", "Compatibility and case-folding mappings read from the data file are right",
     "For every code point the full and the raw compatibility mapping and NFKC case folding mapping are those of the data files they are read from, Hangul syllables and "
     "mappings to supplementary characters or to nothing included. This holds for the files ICU ships and for any other well-formed normalization file.",
     ["inputs", "histories", "configurations"], "every code point, both mappings, both tables, in every order of questions", LOOKWHY, [U + "Normalizer2.py"],
     [("file layout", U + "Normalizer2.py:createFromFileData"), ("mappings", U + "Normalizer2.py:getDecomposition,getRawDecomposition,stringFromData")], LOOKTECH,
     "Exhaustive over code points for ICU 74's files. Trusts the recorded mappings, compared with ICU 74 and Python's unicodedata.")
prop("C25", "Character data objects report the attributes of the UCD XML faithfully",
     "An object made from a character element and its enclosing group reports each attribute of the character, or of the group where the character has none, decoded as its kind requires (Y/N flags, numbers and fractions, code point "
     "sequences, and # for the character itself). Attribute order, other characters and other groups make no difference.",
     ["inputs"], "every combination of attributes on character and group, and every attribute value", "The tests read an XML file that is not there when they run here; a wrong attribute name or a wrong fallback shows only for characters where group and character differ.",
     [U + f for f in ("CharacterData.py", "UCDProperties.py", "BidiProperties.py", "BinaryProperties.py", "CaseProperties.py", "DecompProperties.py", "IndicProperties.py")],
     [("attribute inheritance", U + "UCDProperties.py:getCharProperty"), ("decoders", U + "UCDProperties.py:getBooleanProperty,getCodePointsProperty")],
     "oracle monitor over generated XML documents", "Documents are sampled; each attribute is exercised on the character, on the group, on both and on neither.")
prop("C26", "The data package reader finds every item, whatever the package's layout",
     "For every well-formed ICU data package, each item's offset, header fields, bytes and strings are read as stored, and asking for a name that is not in it raises KeyError. A failed attempt "
     "to open a package leaves nothing behind: later attempts fail again or succeed completely.",
     ["inputs", "configurations", "fault_sequences"], "every package layout, and sequences of failed and successful attempts to open it",
     "The tests need the one package of the installation; a failed first load is not tested at all.", [U + "ICUDataFile.py"],
     [("table of contents walk", U + "ICUDataFile.py:_readTOC"), ("load once", U + "ICUDataFile.py:_populateData")],
     "differential monitor on generated packages with injected read failures", "Packages and failure sequences are sampled. Trusts lib/repo.py's package writer.")
prop("C27", "Translated C headers define the values the C compiler gives",
     "A header in ICU's style translated to a Python module defines every macro and enumerator with the value a C compiler gives it, with explicit, implicit and computed values, continued lines and comments of all kinds. "
     "Function-like macros, names to be ignored and parts hidden by the deprecation guard are left out, and nothing else is added but the extra code asked for.",
     ["programs", "configurations"], "every header in the supported style, several translated one after the other", "The tests do not run the translator.",
     [B + "HeaderToPtyhon.py"], [("line-based translation with patterns", B + "HeaderToPtyhon.py:HeaderFile.translate")],
     "differential monitor against gcc on generated headers", "Headers are sampled; 37 of ICU 74's own headers are included with values recorded from gcc.")
prop("C28", "Data modules hold exactly the arrays and tries of their C sources",
     "The Python module made from a C data source holds every array, scalar and trie parameter asked for, with the values and the order of the source, and nothing else. The shipped data, "
     "written as C and read back, comes out as it was.",
     ["programs"], "every data source in the format of ICU's tools", "The tests do not run the builder.", [B + "ModuleBuilder.py"],
     [("pattern search and rewriting of declarations", B + "ModuleBuilder.py:arrayToPython,scalarToPython,trieValues")],
     "round-trip and differential monitor on generated sources", "Sources are sampled.")
prop("C29", "Generated value dictionaries match the preparsed UCD file",
     "The dictionaries generated from a preparsed UCD file map every property value number listed there to its name, for every property that is asked for and no other, and record the file's Unicode version.",
     ["programs", "inputs"], "every preparsed UCD file: any order, any subset of properties and values, other lines in between", "The tests do not run the reader.",
     [B + "UCDReader.py"], [("line parser and number lookup", B + "UCDReader.py")], "differential monitor on generated UCD files",
     "Files are sampled. Trusts the numbers recorded from ICU 74's headers.")
prop("C30", "Building from an ICU tree and installing yields a package that answers from it",
     "Given an ICU source and build tree, building and installing puts every generated module and data file in its place, changes no other file of the package, and the installed package answers every lookup "
     "and reports every table as that tree has it. Command lines with a missing, repeated, unknown or incomplete option are rejected with status 1 before anything is written.",
     ["programs", "configurations"], "every ICU tree (tries, vectors, constants, value names, versions) and every command line", "The tests do not run the builder.",
     [B + "ModuleBuilder.py", B + "ModuleInstaller.py", B + "HeaderToPtyhon.py", B + "UCDReader.py"],
     [("build script", B + "ModuleBuilder.py:build"), ("install script", B + "ModuleInstaller.py:install"), ("options", B + "ModuleBuilder.py:ModuleBuilderArgs")],
     "end-to-end differential monitor on generated ICU trees", "Trees and command lines are sampled; FontDocTools' argument iterator is stood in for.")
prop("C31", "Answers depend on the question alone: not on history, callers or threads",
     "A lookup, name, mapping, enumeration, set or utility question gets the same right answer whatever was asked before, whatever callers did to earlier answers, whichever questions before it were interrupted or asked wrongly, and whatever other threads ask in the meantime. "
     "Asking changes none of the package's tables.",
     ["histories", "schedules"], "every order of questions, every mutation of returned values, every interleaving of threads asking questions",
     "The tests ask each question once, alone, in one thread.", [U + "CharProps.py", U + "BidiProps.py", U + "CaseProps.py", U + "CharNames.py", U + "Normalizer2.py", U + "UnicodeSet.py", U + "Utrie2.py", U + "CPTrie.py"],
     [("no state outside arguments and read-only tables", U + "CharProps.py"), ("fresh lists as answers", U + "CharProps.py:ageFromProps")],
     "history and line-preemption schedule monitor with answer oracle", "Histories are sampled; of each sampled question every line (at most 60) is preempted by another thread's questions, and four free-running threads are sampled.")
prop("C32", "Enumerating the shipped tries agrees with the property lookups",
     "Enumerating a shipped trie with a property's value function, over the whole code space or any span, yields exactly the maximal ranges of code points for which the property's lookup gives that value.",
     ["inputs"], "every shipped trie, every property view, every span of code points", "The tests enumerate whole tries for a few values.",
     [U + "Utrie2.py", U + "CPTrie.py", U + "CharProps.py", U + "BidiProps.py", U + "LayoutProps.py"],
     [("enumerators with value functions", U + "Utrie2.py:enumerator"), ("value functions", U + "CharProps.py:*FromVecIndex,*FromProps")],
     "oracle monitor over whole and partial enumerations", LOOKNOTE)
prop("C33", "First use of the data package is safe from several threads",
     "When several threads use the package's data file for the first time at once, each sees the complete table of contents and the right data, whichever of them loads it and wherever it is interrupted; none hangs.",
     ["schedules"], "every interleaving of threads that open the data file or import the modules that read it", "The tests use one thread.",
     [U + "ICUDataFile.py", U + "CharNames.py", U + "LayoutProps.py", U + "Normalizer2.py"],
     [("lock around loading", U + "ICUDataFile.py:ICUData.__init__")], "line-preemption schedule monitor", "The loading thread is stopped at every line in turn while another thread loads; parallel imports are sampled.")

prop("C34", "Case mappings are decoded right from any well-formed case data",
     "For every case property data set that ICU's data builder can produce, not only the shipped one, the simple and full lowercase, uppercase and titlecase mappings of each code point are those the data encode: by delta or by exception record, with any combination of its optional slots, narrow or wide, and with full mappings of any length. Code points without data map to themselves.",
     ["inputs"], "every well-formed case data set and every code point", "The tests see one data set, whose records use few of the possible combinations of slots.",
     [U + "CaseProps.py"],
     [("exception slots", U + "CaseProps.py:slotOffset,getSlotValue"), ("full mapping strings", U + "CaseProps.py:toFullLower,toUpperOrTitle")],
     "generated data modules, model comparison", "Generated data sets; the space of data sets is sampled.")

prop("C35", "Bidi properties are decoded right from any well-formed bidi data",
     "For every bidi property data set that ICU's data builder can produce, the class, flags, joining type, joining group, mirror image, paired bracket and its type of each code point are those the data encode, whether a mirror image is stored as a distance or in the mirror table and wherever the joining group ranges lie.",
     ["inputs"], "every well-formed bidi data set and every code point", "The tests see one data set.",
     [U + "BidiProps.py"],
     [("mirror deltas and table", U + "BidiProps.py:getMirrorFromProps"), ("joining group arrays", U + "BidiProps.py:getJoiningGroup")],
     "generated data modules, model comparison", "Generated data sets; the space of data sets is sampled.")

prop("C36", "Character properties are decoded right from any well-formed property data",
     "For every property data set that ICU's data builder can produce, the category, the predicates ICU derives from it, numeric type and value, script (direct or through script extensions), block, age, break and width values and binary properties of each code point are those its words and vectors encode, through the lookups and through enumeration.",
     ["inputs"], "every well-formed set of property words and vectors and every code point", "The tests see one data set.",
     [U + "CharProps.py", U + "GeneralCategories.py"],
     [("words and masks", U + "CharProps.py:getGeneralCategory..isJavaIDPart"), ("vector fields", U + "CharProps.py:*FromVecIndex")],
     "generated data modules, model comparison", "Generated data sets; the space of data sets is sampled.")

prop("C37", "Canonical mappings are decoded right from any well-formed built-in data",
     "For every built-in normalization data set that ICU's data builder can produce, the full and the raw mapping of each code point are those the data encode, Hangul syllables, algorithmic mappings and mappings to supplementary characters or to nothing included.",
     ["inputs"], "every well-formed normalization data set in array form and every code point", "The tests see one data set.",
     [U + "Normalizer2.py"],
     [("tables to normalizer", U + "Normalizer2.py:createFromHardCodedData"), ("mappings", U + "Normalizer2.py:getDecomposition,getRawDecomposition")],
     "generated data modules, model comparison", "Generated data sets; the space of data sets is sampled.")

prop("C38", "The same answers however Python runs and wherever the package is installed",
     "Every module of the package can be imported first and in any order, only those that read the data file need it, and the answers are the same right ones under any optimisation level, hash seed, locale, working directory, garbage collection and directory of installation. Headers and data translated under such settings come out right too, and one ICU tree built by any two interpreters gives the same modules, but for the date.",
     ["configurations", "histories"], "every order of imports, every setting of the interpreter and its environment, every place of installation",
     "The tests run in one interpreter with default settings, in the repository's directory, importing in one order.",
     [U + "ICUDataFile.py", U + "CharProps.py", U + "CharNames.py", U + "Normalizer2.py", U + "LayoutProps.py", B + "ModuleBuilder.py", B + "UCDReader.py"],
     [("place of the data file", U + "ICUDataFile.py:_dataFilePath"), ("imports among modules", U + "*.py"), ("no work done in assert statements", U + "*.py")],
     "monitors of the other checks in fresh interpreters with random settings", "Settings and orders are sampled (each module is first in at least one interpreter); the cases are drawn from those of the other checks.")

prop("C39", "A build that cannot be completed says so and does not spoil the next one",
     "A build or an installation that meets a missing file, a source without a declaration or a version it needs, or a file it cannot write, ends with an error and not with success; wherever it fails or is interrupted, its inputs and the files it does not generate stay as they were; and repeating it once the cause is gone gives the same complete result as if nothing had happened.",
     ["crash_points", "fault_sequences"], "every missing input, every refused write, every point of interruption, and what is run after it",
     "No test runs the builder or the installer at all.",
     [B + "ModuleBuilder.py", B + "ModuleInstaller.py", B + "HeaderToPtyhon.py", B + "UCDReader.py"],
     [("outputs are written whole and closed", B + "ModuleBuilder.py:ModuleBuilder.writeFile"), ("required inputs are opened unconditionally", B + "ModuleBuilder.py:build"),
      ("installation copies everything", B + "ModuleInstaller.py:install")],
     "fault injection (missing inputs, limits on file size, interruptions at any line) with comparison against an undisturbed build",
     "Power failures and what the file system loses then are out of reach; a directory in the place of the data file counts as unspecified.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c \"import fontTools\"",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python -B run.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python -B run.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "The checks need no hooks: they observe the package through its public interface, sys.settrace and sys.monitoring.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
