"""What each property's check explores.

A scenario runs one harness (/verif/harness/src) with its parameters. `about`
states the bounds, `reach` the witnesses that must be reached for the run not
to be vacuous.
"""


def sc(name, harness, params, about, **kw):
    return dict(name=name, harness=harness, params=params, about=about, **kw)


ASSUMPTIONS = [
    "the encoding is LLVM IR compiled from the current /repo/rust, its dependencies and the standard library at "
    "opt-level 1 with overflow checks on, before LLVM optimisation",
    "memchr, memrchr and character counting of the standard library are replaced by simple loops",
    "allocation never fails and more than 1 MiB at once counts as a violation",
    "hash values are fixed or, where stated, arbitrary; strings are hashed by value",
    "the file system is simulated; giving up with a panic after a real I/O error is not taken as reporting success",
]

OUTSIDE = {}

SCENARIOS = {}

CONTEXTS = ["alone", "inside plain text", "between escapes", "between non-ASCII characters", "after 77 characters"]
SCENARIOS["C01"] = [
    sc("text-%d" % k, "h_c01", [5 if k == 0 else 3, k], "every UTF-8 text of up to %d bytes, %s" % (5 if k == 0 else 3, c),
       thorough=[6 if k == 0 else 5, k])
    for k, c in enumerate(CONTEXTS)
]
OUTSIDE["C01"] = ["longer texts with more open bytes than stated"]
SCENARIOS["C02"] = [
    sc("text-%d" % k, "h_c02", [6 if k == 0 else 4, k],
       "every UTF-8 text of up to %d bytes in surrounding text %d" % (6 if k == 0 else 4, k), reach=3,
       thorough=[7 if k == 0 else 6, k])
    for k in range(4)
] + [
    sc("letter", "h_c02_letter", [], "each of the eight escapes"),
]

AROUND = ["alone", "between words", "at the end of a text", "before line ends", "between escapes",
          "between non-ASCII characters", "after 77 characters"]
ENTRY = "in each string field, obsolete or not, at wrap widths 0, 1, 2, 7, 20 and 78"
SCENARIOS["C03"] = [
    sc("utf8-%d" % k, "h_c03", [2, k, 0], "every UTF-8 text of up to 2 bytes %s, %s" % (c, ENTRY))
    for k, c in enumerate(AROUND)
] + [
    sc("ascii", "h_c03", [3, 0, 1, 1], "every ASCII text of up to 3 bytes alone, at wrap widths 2 and 78 "
       "(all six in the thorough tier)", thorough=[3, 0, 1]),
    sc("wide", "h_c03", [0, 1, 2], "each character of 20 blocks of 64 between words, " + ENTRY),
    sc("together", "h_c03_all", [1, 1], "one open ASCII byte in each string field at once, all presences, one plural form "
       "(two in the thorough tier)", thorough=[1, 2]),
] + [
    sc("ascii-%d" % k, "h_c03", [3, k, 1], "every ASCII text of up to 3 bytes %s, %s" % (c, ENTRY), thorough_only=True)
    for k, c in enumerate(AROUND) if k
] + [
    sc("mixed-%d" % k, "h_c03", [1, k, 3], "a character of 20 blocks and an ASCII one %s, %s" % (c, ENTRY), thorough_only=True)
    for k, c in enumerate(AROUND)
]
OUTSIDE["C03"] = ["texts with more open bytes than stated", "other wrap widths (see C13)"]

SCENARIOS["C04"] = [
    sc("previous", "h_c04_previous", [2, 0, 0], "previous texts: every UTF-8 text of up to 2 bytes in one, the others there or not"),
    sc("previous-wide", "h_c04_previous", [0, 5, 2], "previous texts: each character of 20 blocks of 64 among non-ASCII text"),
    sc("comment", "h_c04_comment", [2, 1, 0], "comments of one line of up to 2 bytes of UTF-8", thorough=[3, 1, 1]),
    sc("comment-wide", "h_c04_comment", [0, 1, 2], "comments with each character of 20 blocks of 64"),
    sc("comment-lines", "h_c04_comment", [1, 2, 1], "comments of up to two lines with one open ASCII byte each"),
    sc("flags", "h_c04_flags", [2, 2, 1], "up to two flags of up to two ASCII bytes", thorough=[2, 3, 1]),
    sc("flags-wide", "h_c04_flags", [0, 1, 2], "a flag with each character of 20 blocks of 64"),
    sc("references", "h_c04_references", [2, 1, 0], "a reference of up to two bytes of UTF-8, with or without line"),
    sc("references-two", "h_c04_references", [1, 2, 1], "up to two references of one open ASCII byte"),
    sc("references-many", "h_c04_references", [0, 4, 0], "up to four references, long and short, so that lines wrap"),
    sc("together", "h_c04_all", [], "every combination of the fields, one open byte in each"),
]
OUTSIDE["C04"] = [
    "comment lines that are empty or have whitespace at an end, flags with commas, reference names with whitespace or colons "
    "(the format or a stable test of the repository gives them another meaning)",
]

SCENARIOS["C05"] = [
    sc("entries", "h_c05_entries", [3, 78], "files of up to 3 entries of 8 shapes in every order, each with open letters",
       thorough=[4, 78]),
    sc("entries-narrow", "h_c05_entries", [2, 12], "files of up to 2 entries of 8 shapes at wrap width 12"),
    sc("header", "h_c05_header", [3, 1, 0], "headers of one line of up to 3 bytes of UTF-8", thorough=[4, 1, 0]),
    sc("header-lines", "h_c05_header", [2, 3, 1], "headers of up to 3 lines of up to 2 ASCII bytes"),
    sc("header-wide", "h_c05_header", [0, 1, 2], "headers with each character of 20 blocks of 64"),
    sc("metadata", "h_c05_metadata", [2, 0, 1], "one metadata pair, well known or not, value with up to 2 open bytes of UTF-8"),
    sc("metadata-two", "h_c05_metadata", [1, 1, 2], "two metadata pairs, values with one open ASCII byte"),
    sc("metadata-wide", "h_c05_metadata", [0, 2, 1], "one metadata pair with each character of 20 blocks of 64"),
    sc("strings", "h_c05_strings", [2, 1, 0], "files with a message or translation of up to 2 open bytes of UTF-8 between words"),
    sc("comments", "h_c05_comments", [2, 1], "comments of several words with up to 2 open ASCII bytes at three wrap widths",
       thorough=[3, 1]),
    sc("comments-utf8", "h_c05_comments", [1, 0], "comments of several words with any UTF-8 text of one byte"),
    sc("comments-wide", "h_c05_comments", [0, 2], "comments of several words with each character of 20 blocks of 64"),
]
OUTSIDE["C05"] = [
    "header lines with trailing whitespace, metadata values with whitespace at an end or line ends: the format drops those",
]

SCENARIOS["C06"] = [
    sc("text", "h_c06_any", [6, 0], "every UTF-8 content of up to 6 bytes", reach=3, thorough=[8, 0]),
    sc("bytes", "h_c06_any", [7, 1], "every content of up to 7 bytes", reach=3, thorough=[9, 1]),
] + [
    sc("line-%d" % k, "h_c06_line", [4 if k == 0 else 3, k],
       "24 starts of lines, %d open bytes after them and 3 continuations, %s" % (4 if k == 0 else 3, c), reach=3,
       thorough=[5 if k == 0 else 4, k])
    for k, c in enumerate(["at the start", "after metadata", "after a message", "after an entry"])
] + [
    sc("quoted", "h_c06_quoted", [4], "4 open bytes between quotes in ten kinds of lines", reach=3, thorough=[6]),
    sc("lines-2", "h_c06_lines", [2, 0], "two lines out of 25 kinds in any order, an open byte in each", reach=3, thorough=[3, 0]),
    sc("lines-3", "h_c06_lines", [3, 1], "three lines out of 25 kinds in any order, an open letter or digit in each", reach=3,
       thorough=[4, 1]),
    sc("index", "h_c06_index", [4], "plural form numbers of up to 4 open digits, alone or after many digits", reach=3),
]
OUTSIDE["C06"] = ["contents with more open bytes than stated"]

SCENARIOS["C07"] = [
    sc("comments", "h_c07", [1, 3, 1, 0], "one entry after up to 3 comment lines of 7 kinds, one string continued"),
    sc("strings", "h_c07", [1, 0, 2, 2, 1, 0, 1], "one entry, two strings continued, up to 2 plural forms, a blank line anywhere, "
       "any printable byte in one string", thorough=[1, 1, 2, 2, 1, 0, 1]),
    sc("two", "h_c07", [2, 1, 1, 1], "two entries, each after up to one comment line, one string continued, plural or not",
       thorough=[2, 1, 1, 1, 0, 0, 1]),
    sc("blank", "h_c07", [2, 0, 1, 1, 1, 1], "two entries after metadata, one blank line anywhere", thorough=[2, 0, 1, 1, 2, 1]),
    sc("three", "h_c07", [3, 0, 0, 1], "three entries, plural or not, current or obsolete", thorough=[3, 1, 0, 1]),
    sc("space", "h_c07_space", [0, 1, 1, 0, 0, 0, 0], "other whitespace between and after tokens, Windows line ends"),
]
OUTSIDE["C07"] = ["longer sequences of lines", "previous texts of obsolete entries (`#~|`), which are not kept"]

SCENARIOS["C08"] = [
    sc("order", "h_c08_order", [1, 0], "one of 7 kinds of lines at one of 12 places where it does not belong", reach=3, thorough=[2, 1]),
    sc("order-blank", "h_c08_order", [1, 1], "the same with a blank line anywhere before", reach=3),
    sc("word", "h_c08_word", [1, 0, 1], "a known word with one byte changed, added or dropped", reach=3, thorough=[1, 0, 0]),
    sc("quotes", "h_c08_quotes", [1, 0], "a string with missing or unescaped quotes in 7 kinds of lines", reach=3, thorough=[1, 1]),
    sc("other", "h_c08_other", [1, 0], "bad plural numbers, markers, escapes, previous texts and bytes that are not UTF-8", reach=3,
       thorough=[1, 1]),
]
OUTSIDE["C08"] = [
    "malformed lines the parser tolerates on purpose: a translation after a comment line, an escaped quote at the end of a string"
]

SCENARIOS["C09"] = [
    sc("any", "h_c09_any", [9, 0], "every content of up to 9 bytes"),
    sc("magic", "h_c09_any", [20, 1], "every content of up to 20 bytes after either magic number", reach=3),
    sc("counted", "h_c09_any", [12, 2], "up to 12 arbitrary bytes after magic number, revision and a count of up to 2", reach=3,
       thorough=[17, 2]),
] + [
    sc("%s-%d" % (w, n), "h_c09_numbers", [k, n], "an image of %d entries with arbitrary %s, both byte orders" % (n, w), reach=3)
    for k, w in enumerate(["revision", "count", "place of keys", "place of values", "key", "value", "lengths", "places"])
    for n in (1, 2)
] + [
    sc("cut", "h_c09_cut", [], "images of one or two entries cut at every byte", reach=3),
    sc("texts", "h_c09_texts", [2], "an image whose key and value are any two bytes each", reach=2, thorough=[3]),
]
OUTSIDE["C09"] = ["images of more than 20 entries", "more than two of the numbers arbitrary at once in complete images"]

CAT = "both byte orders and revisions, with or without metadata"
SCENARIOS["C10"] = [
    sc("one", "h_c10", [1, 2, 0, 3], "up to one entry, key parts of up to 2 bytes of UTF-8, up to 3 plural forms, " + CAT,
       thorough=[1, 3, 0, 3]),
    sc("two", "h_c10", [2, 2, 1, 1], "up to two entries, key parts of up to 2 ASCII bytes, " + CAT, thorough=[2, 2, 1, 2]),
    sc("two-utf8", "h_c10", [2, 2, 0, 0, 1], "two entries, key parts of up to 2 bytes of UTF-8, " + CAT),
    sc("three", "h_c10", [3, 1, 1, 0, 1], "three entries, key parts of up to one ASCII byte, " + CAT, thorough=[3, 2, 1, 0, 1]),
    sc("texts", "h_c10_texts", [3, 0, 0], "three entries, any UTF-8 text of up to 3 bytes in any of the texts", thorough=[4, 0, 0]),
    sc("texts-wide", "h_c10_texts", [0, 2, 5], "three entries, each character of 20 blocks of 64 in any of the texts"),
    sc("large", "h_c10_large", [1], "40 and 300 entries, and a text of 70000 bytes, with an open key", limits={"max_steps": 500000000}),
]
OUTSIDE["C10"] = ["texts with more open bytes", "plural entries without any form"]
SCENARIOS["C11"] = [
    sc("one", "h_c11", [1, 2, 0, 3], "up to one entry, key parts of up to 2 bytes of UTF-8, up to 3 plural forms, " + CAT,
       thorough=[1, 3, 0, 3]),
    sc("two", "h_c11", [2, 2, 1, 1], "up to two entries, key parts of up to 2 ASCII bytes, " + CAT, thorough=[2, 2, 1, 2]),
    sc("two-utf8", "h_c11", [2, 2, 0, 0, 1], "two entries, key parts of up to 2 bytes of UTF-8, " + CAT),
    sc("three", "h_c11", [3, 1, 1, 0, 1], "three entries, key parts of up to one ASCII byte, " + CAT, thorough=[3, 2, 1, 0, 1]),
    sc("large", "h_c10_large", [0], "40 and 300 entries, and a text of 70000 bytes, with an open key", limits={"max_steps": 500000000}),
    sc("ways", "h_c11_ways", [2, 0], "the bytes of PO and MO files of up to two entries with keys of up to 2 bytes of UTF-8"),
]
OUTSIDE["C11"] = OUTSIDE["C10"]
SCENARIOS["C12"] = [
    sc("two", "h_c12", [2, 2], "two entries with any marks, any flag of 5 letters, translations of up to one byte, up to 2 forms", reach=3,
       thorough=[3, 1]),
    sc("forms", "h_c12", [1, 3], "one entry with any marks and up to 3 plural forms, each empty or not", reach=3),
    sc("entry", "h_c12_entry", [4, 0], "conversion of entries with any UTF-8 text of up to 4 bytes"),
    sc("bytes", "h_c12_bytes", [2], "the bytes of PO files of two entries with any marks, read back"),
]

SCENARIOS["C13"] = [
    sc("utf8", "h_c13", [2, 1, 0, 20], "a text of words with up to 2 open bytes of UTF-8, every width up to 20", reach=7,
       thorough=[3, 1, 0, 20]),
    sc("wide", "h_c13", [0, 1, 2, 20], "a text of words with each character of 20 blocks of 64, every width up to 20", reach=7),
    sc("ascii", "h_c13", [2, 5, 1, 30], "a text with escapes and 2 open ASCII bytes, every width up to 30", reach=7, thorough=[3, 5, 1, 30]),
    sc("short", "h_c13", [3, 0, 1, 10], "every ASCII text of up to 3 bytes, every width up to 10", reach=7, thorough=[4, 0, 1, 10]),
    sc("long", "h_c13", [2, 6, 1, 90], "a long text with 2 open ASCII bytes, every width up to 90", reach=7, thorough=[3, 6, 1, 90]),
    sc("kinds", "h_c13_kinds", [4, 10], "4 characters of 11 kinds (letters, spaces, wide, combining, escaped …), every width up to 10",
       reach=7, thorough=[5, 10]),
    sc("words", "h_c13_words", [4, 3, 20], "up to 4 words of up to 3 letters with 3 kinds of separators, every width up to 20", reach=7,
       thorough=[5, 3, 24]),
    sc("file", "h_c13_file", [80], "the width of a file used for its entries, every width up to 80"),
]
OUTSIDE["C13"] = ["widths above the stated ones except the largest number", "texts with more open characters"]

SCENARIOS["C14"] = [
    sc("back", "h_c14_back", [2, 0, 1], "one pair, well known or with up to 2 open bytes of UTF-8 in key and value", thorough=[3, 0, 1]),
    sc("back-two", "h_c14_back", [1, 1, 2], "up to two pairs, well known or with one open ASCII byte in key and value"),
    sc("order-any", "h_c14_order", [1, 0], "three keys of one ASCII byte, every order of insertion", thorough=[2, 0]),
    sc("order-words", "h_c14_order", [2, 1], "three keys of up to 2 letters and digits, every order of insertion", thorough=[3, 1]),
    sc("order-numbers", "h_c14_order", [2, 2], "three keys of up to 2 of the digits 0-2 and separators, every order of insertion",
       thorough=[3, 2]),
    sc("hashing", "h_c14_hashing", [2], "five sets of three keys in maps with any hashing to 2 buckets", hash=True, thorough=[3]),
    sc("places", "h_c14_places", [3, 1], "three keys, well known or with one open letter or digit: order in the text"),
    sc("natural", "h_c14_places", [2, 3], "two keys, well known or with up to 3 open letters and digits: order in the text"),
]
OUTSIDE["C14"] = ["several open pairs among more than three", "order among keys with spaces or zeros in front of numbers (only that it is one order)"]

SCENARIOS["C15"] = [
    sc("find", "h_c15_find", [3, 2, 0], "three entries searched by each of 8 fields, values of up to 2 bytes of UTF-8", reach=3,
       thorough=[3, 3, 0]),
    sc("find-context", "h_c15_find", [2, 2, 2], "two entries searched by each field and context", reach=3, thorough=[3, 1, 2]),
    sc("find-mo", "h_c15_find_mo", [2, 1, 2], "two MO entries searched by each field and context", reach=3, thorough=[3, 2, 2]),
    sc("first", "h_c15_first", [3, 2, 2], "the first of three entries by message, with or without context", reach=7),
    sc("views", "h_c15_views", [3, 1], "up to three entries with any marks, one plural form: views and percentage", reach=3),
    sc("views-forms", "h_c15_views", [2, 2], "up to two entries with any marks and two plural forms", reach=3),
    sc("remove", "h_c15_remove", [3, 2, 0], "removal from three entries by message or entry", reach=3),
    sc("remove-context", "h_c15_remove", [3, 1, 2], "removal from three entries by message and context", reach=3, thorough=[3, 2, 2]),
    sc("equal", "h_c15_equal", [1], "removal of an entry that occurs twice, once or not", thorough=[2]),
    sc("history", "h_c15_history", [5], "five additions and removals in any order", reach=3),
]
OUTSIDE["C15"] = ["files of more than 100 entries, several open ones among more than four"]

SCENARIOS["C16"] = [
    sc("pairs", "h_c16_pairs", [2, 1], "two entries that differ in one field of up to 2 bytes of UTF-8, all 256 options", reach=3,
       thorough=[3, 1]),
    sc("pairs-two", "h_c16_pairs", [1, 2], "two entries that differ in two fields of one open byte, options of those and of all others",
       reach=3, thorough=[2, 2]),
    sc("triples", "h_c16_triples", [2, 1], "three entries that differ in one field of up to 2 bytes of UTF-8", reach=3, thorough=[3, 1]),
    sc("triples-two", "h_c16_triples", [1, 2, 1], "three entries that differ in two fields of one open byte", reach=3,
       thorough=[1, 2, 0]),
    sc("lists", "h_c16_lists", [1], "lists of three words of up to one ASCII byte in any order", thorough=[2]),
    sc("options", "h_c16_options", [], "options set by name, one by one or all at once", reach=3),
]
OUTSIDE["C16"] = ["texts that contain NUL", "lists of more than 30 items", "more than two differing fields at once"]

SCENARIOS["C17"] = [
    sc("context", "h_c17", [2, 2, 1, 2], "two entries merged with two, messages and contexts of up to one byte", reach=7),
    sc("message", "h_c17", [2, 2, 2, 0], "two entries merged with two, messages of up to 2 bytes", reach=7),
    sc("more", "h_c17", [3, 2, 1, 0], "three entries merged with two", reach=7, thorough=[3, 3, 1, 0]),
    sc("reference", "h_c17", [2, 3, 1, 0], "two entries merged with three", reach=7, thorough=[2, 3, 1, 1]),
    sc("none", "h_c17", [0, 2, 1, 2], "nothing merged with two entries", reach=5),
    sc("again", "h_c17_again", [2, 2, 1, 0], "two merges in a row, of the same or another reference", reach=7, thorough=[2, 2, 1, 2]),
    sc("again-context", "h_c17_again", [2, 1, 1, 2], "two merges in a row with contexts", reach=7),
    sc("entry", "h_c17_entry", [3], "an entry merged with another one with any UTF-8 text of up to 3 bytes"),
]
OUTSIDE["C17"] = ["files of more than 100 entries, several open ones among more than four"]

CONTENTS = ["alone", "between metadata and an entry", "inside a string", "among comments", "between two entries"]
SCENARIOS["C18"] = [
    sc("ways-%d" % k, "h_c18", [n, k], "every UTF-8 text of up to %d bytes %s, by text, bytes, path and options" % (n, c), reach=3,
       thorough=[n + 1, k])
    for k, (c, n) in enumerate(zip(CONTENTS, [5, 4, 4, 4, 4]))
] + [
    sc("form-%d" % k, "h_c18_form", [n, k], "every UTF-8 text of up to %d bytes %s, with byte order mark, other line ends, other end"
       % (n, c), reach=3, thorough=[n + 1, k])
    for k, (c, n) in enumerate(zip(CONTENTS, [5, 4, 4, 4, 4]))
] + [
    sc("invalid-%d" % k, "h_c18_invalid", [4, k], "any 4 bytes %s" % c, reach=3, thorough=[5, k]) for k, c in enumerate(CONTENTS)
] + [
    sc("large", "h_c18_large", [130], "contents of 8 KiB with a character across the border of a buffer", reach=2,
       limits={"max_steps": 500000000}),
    sc("mo", "h_c18_mo", [18], "any 18 bytes after the magic number of a MO image", reach=3),
    sc("mo-texts", "h_c18_mo", [2, 1], "images with any two bytes anywhere in their texts", reach=2, thorough=[3, 1]),
]
OUTSIDE["C18"] = ["contents with more open bytes", "carriage returns that are part of the content when line ends are compared"]

FAULTS = "%d short transfers and %d interruptions at any calls"
SCENARIOS["C19"] = [
    sc("save", "h_c19_save", [2, 3, 2], "two entries saved in every way with " + FAULTS % (3, 2), thorough=[2, 4, 3]),
    sc("save-error", "h_c19_save", [2, 2, 1, 1], "the same with " + FAULTS % (2, 1) + " and one error", thorough=[2, 3, 2, 1]),
    sc("load-po", "h_c19_load_po", [2, 3, 2], "a PO file loaded with " + FAULTS % (3, 2), reach=1, thorough=[2, 3, 3]),
    sc("load-po-error", "h_c19_load_po", [2, 2, 1, 1], "the same with " + FAULTS % (2, 1) + " and one error", reach=3),
    sc("load-mo", "h_c19_load_mo", [2, 1, 1], "a MO file of two entries loaded with " + FAULTS % (1, 1), reach=1, thorough=[2, 2, 1]),
    sc("load-mo-one", "h_c19_load_mo", [1, 2, 1], "a MO file of one entry loaded with " + FAULTS % (2, 1), reach=1),
    sc("load-mo-error", "h_c19_load_mo", [2, 1, 1, 1], "the same with " + FAULTS % (1, 1) + " and one error", reach=3),
]
OUTSIDE["C19"] = ["crashes between system calls", "files over 64 KiB", "faults after the first 90 transfers of a save or load"]

SCENARIOS["C20"] = [
    sc("texts-%d" % k, "h_c20", [2 if k < 2 else 1, k, 0], "every UTF-8 text of up to %d bytes %s in each text, six wrap widths"
       % (2 if k < 2 else 1, c), thorough=[2, k, 0])
    for k, c in enumerate(AROUND)
] + [
    sc("wide", "h_c20", [0, 1, 2], "each character of 20 blocks of 64 between words in each text, six wrap widths"),
    sc("metadata", "h_c20_metadata", [3], "a metadata value of up to 3 bytes of UTF-8", thorough=[4]),
    sc("shapes", "h_c20_shapes", [2], "up to two entries of six shapes with an open character each, three wrap widths"),
    sc("loaded", "h_c20_loaded", [2], "an entry of six shapes loaded from an image, up to 2 bytes of UTF-8"),
]
OUTSIDE["C20"] = ["texts with more open bytes than stated", "wrap widths other than 0, 1, 2, 7, 20 and 78 (see C13)"]

# long texts and many items, of which a few bytes are open
KINDS = "of six kinds (words, letters, escapes, CJK, lines, combining) with %d open bytes at the start, in the middle or at the end"
SCENARIOS["C01"] += [
    sc("long", "h_c01_long", [3, 300], "texts of 300 bytes " + KINDS % 3, thorough=[4, 300]),
    sc("longer", "h_c01_long", [2, 1500], "texts of 1500 bytes " + KINDS % 2),
]
SCENARIOS["C02"] += [sc("long", "h_c02_long", [3, 400], "texts of 400 bytes " + KINDS % 3, reach=3, thorough=[4, 1200])]
SCENARIOS["C03"] += [
    sc("long", "h_c03_long", [1, 200, 0], "texts of 200 bytes " + KINDS % 1 + " in each text, two wrap widths", thorough=[1, 600, 0]),
    sc("forms", "h_c03_forms", [12], "up to 12 plural forms, an open byte in one of them"),
]
SCENARIOS["C04"] += [
    sc("many", "h_c04_many", [30], "30 flags, references or comment lines, an open byte in one of them"),
    sc("long", "h_c04_long", [1, 150, 0], "comment lines, flags and references of 150 bytes with an open byte", thorough=[2, 300, 0]),
]
SCENARIOS["C05"] += [sc("many", "h_c05_many", [12], "12 entries of all shapes, one of any shape with open letters", thorough=[24])]
SCENARIOS["C06"] += [
    sc("long-line", "h_c06_long", [2], "two arbitrary bytes inside or at the end of long lines of each kind", reach=3, thorough=[3]),
]
SCENARIOS["C07"] += [
    sc("forms", "h_c07_forms", [3, 1], "up to 3 plural forms in several orders, a string continued, other entries around"),
    sc("forms-many", "h_c07_forms", [12, 0], "up to 12 plural forms in several orders, other entries around"),
    sc("many", "h_c07_many", [12, 1], "12 entries, one of any shape after a comment line", thorough=[20, 1]),
    sc("comments-many", "h_c07_comments", [12], "12 comment lines of one kind before an entry", thorough=[30]),
]
SCENARIOS["C08"] += [
    sc("previous", "h_c08_word", [1, 0, 1, 1], "a known word with one byte changed, added or dropped after `#|`", reach=3,
       thorough=[1, 0, 0, 1]),
] + [
    sc("far-%d" % n, "h_c08_far", [n], "a malformed line after %d to %d lines of six kinds" % (n, n + 5), reach=3) for n in (6, 95, 253)
]
SCENARIOS["C09"] += [
    sc("%s-20" % w, "h_c09_numbers", [k, 20], "an image of 20 entries with arbitrary %s, both byte orders" % w, reach=3)
    for k, w in ((1, "count"), (2, "place of keys"), (3, "place of values"), (8, "key length"), (9, "key place"),
                 (10, "value length"), (11, "value place"))
]
SCENARIOS["C12"] += [sc("many", "h_c12_many", [12], "12 entries, one of them open, converted and written", thorough=[20])]
SCENARIOS["C13"] += [
    sc("long-%d" % w, "h_c13_long", [1, n, 0, w], "texts of %d bytes " % n + KINDS % 1 + ", widths %d to %d" % (w, w + 15), reach=7)
    for n, w in ((120, 20), (330, 70), (330, 250))
]
SCENARIOS["C14"] += [
    sc("colons", "h_c14_back", [1, 1, 1, 0, 1], "one pair whose value contains colons and one open ASCII byte"),
    sc("near", "h_c14_near", [], "a well-known key with one byte changed or added at any place or cut, beside others"),
    sc("all", "h_c14_all", [23], "all well-known keys and 24 others, one of them open, in three orders of insertion"),
    sc("all-known", "h_c14_all", [0], "all well-known keys and an open one, in three orders of insertion"),
]
SCENARIOS["C15"] += [
    sc("many", "h_c15_many", [12], "12 entries, one of them and the searched message open: searches, views, removal", reach=7),
]
SCENARIOS["C16"] += [
    sc("lists-%d" % n, "h_c16_long", [n], "lists of %d words in several orders, an open one in each" % n) for n in (4, 30)
]
SCENARIOS["C17"] += [
    sc("many-%d" % n, "h_c17_many", [n], "%d entries merged with as many, one open on each side, twice" % n, reach=7) for n in (6, 13)
]
SCENARIOS["C18"] += [
    sc("larger", "h_c18_large", [1030], "contents of 64 KiB with a character across the border of a buffer", reach=2,
       limits={"max_steps": 500000000}),
]
SCENARIOS["C19"] += [
    sc("save-large", "h_c19_save", [3, 1, 1, 1, 4], "a file of 12 KiB saved in every way with " + FAULTS % (1, 1) + " and one error"),
    sc("load-po-large", "h_c19_load_po", [3, 1, 1, 1, 4], "a PO file of 12 KiB loaded with " + FAULTS % (1, 1) + " and one error", reach=3),
    sc("load-mo-large", "h_c19_load_mo", [3, 1, 1, 1, 4], "a MO file of 12 KiB loaded with " + FAULTS % (1, 1) + " and one error", reach=3),
]
SCENARIOS["C20"] += [
    sc("many", "h_c20_many", [12], "12 entries of all shapes, an open byte in one of them, three wrap widths"),
    sc("long", "h_c20_long", [1, 200], "texts of 200 bytes " + KINDS % 1 + " in each text, two wrap widths", thorough=[1, 600]),
]

SCENARIOS["C09"] += [
    sc("magic-%d" % n, "h_c09_numbers", [12, n], "an image of %d entries with an arbitrary magic number" % n, reach=3) for n in (1, 2)
]
SCENARIOS["C10"] += [
    sc("forms", "h_c10_forms", [6], "an entry of up to 6 plural forms, each of them empty or not", thorough=[8]),
]
SCENARIOS["C13"] += [
    sc("options", "h_c13_options", [40], "a width of up to 40 or none given with a content in six ways, PO and MO", reach=3),
]

SCENARIOS["C22"] = [
    sc("comments", "h_c22", [1, 2, 1, 1, 1], "one entry after up to 2 comment lines of 7 kinds, a blank line anywhere",
       thorough=[1, 3, 1, 0, 1]),
    sc("metadata", "h_c22", [1, 1, 1, 1, 1, 1], "the same after metadata and up to one comment line"),
    sc("two", "h_c22", [2, 1, 1, 1, 0], "two entries, each after up to one comment line, one string continued, plural or not",
       thorough=[2, 1, 1, 1, 1]),
    sc("blank", "h_c22", [2, 0, 1, 1, 2, 1], "two entries after metadata, two blank lines anywhere"),
    sc("three", "h_c22", [3, 0, 0, 1, 1], "three entries, plural or not, current or obsolete, a blank line anywhere"),
    sc("space", "h_c22_space", [0, 0, 1], "two entries, Windows line ends and whitespace at the ends of lines", thorough=[0, 1, 1]),
] + [
    sc("far-%d" % n, "h_c22_far", [n], "three entries with %d to %d lines of seven kinds before or inside each" % (n, n + 5))
    for n in (3, 95, 253)
]
OUTSIDE["C22"] = ["empty comment lines and lines with `#~|` at the start of an entry, which are not taken as part of it"]

SCENARIOS["C23"] = [
    sc("lines", "h_c23_path", [3], "any text of up to 3 bytes of UTF-8 in malformed lines of 9 kinds, by text, bytes and path", reach=3,
       thorough=[4]),
    sc("bytes", "h_c23_bytes", [3], "any 3 bytes that are not UTF-8 in three kinds of lines, by bytes and path", reach=3, thorough=[4]),
    sc("quote", "h_c23_quote", [3], "a stray quote after any text of up to 3 bytes of UTF-8 in 18 kinds of lines", reach=3, thorough=[4]),
    sc("quote-wide", "h_c23_quote", [0, 2], "a stray quote after each character of 20 blocks of 64", reach=3),
    sc("escape", "h_c23_escape", [5], "unescaping of any text of up to 5 bytes of UTF-8", reach=15, thorough=[6]),
    sc("mo", "h_c23_mo", [], "any wrong magic number and any unknown revision of a MO image", reach=7),
    sc("mo-message", "h_c23_mo_text", [], "messages about wrong numbers of which one byte is open", reach=7),
]
OUTSIDE["C23"] = ["the wording of messages", "errors of the operating system"]

SCENARIOS["C24"] = [
    sc("unescape", "h_c24_unescape", [4], "any text of up to 4 bytes of UTF-8 in each text of an entry", reach=7, thorough=[5]),
    sc("absent", "h_c24_absent", [], "any presence of the fields of an entry"),
    sc("key", "h_c24_key", [3, 3], "messages and contexts of up to 3 bytes of UTF-8"),
    sc("entry", "h_c24_entry", [3], "entries made of texts of up to 3 bytes of UTF-8 in each way"),
    sc("file", "h_c24_file", [3], "files made of entries with messages of up to 3 bytes"),
]

SCENARIOS["C20"] += [
    sc("forms", "h_c20_forms", [12], "up to 12 plural forms, an open byte in one of them, of an entry that is built or loaded"),
]

FAR = {"max_steps": 4000000000, "alloc_limit": 200000000}
for p in ("C08", "C22"):
    SCENARIOS[p] += [
        sc("very-far", "h_c08_very_far", [65533], "an entry and a malformed line after 65533 to 65536 lines", reach=3, limits=FAR),
    ]
SCENARIOS["C10"] += [
    sc("count", "h_c10_count", [65540], "65540 entries, the last of them with an open byte, both byte orders", limits=FAR),
]

SCENARIOS["C25"] = [
    sc("three", "h_c25", [3], "every sequence of three operations of 13 kinds, each with a letter or digit of its own",
       thorough=[4]),
    sc("kept", "h_c25_kept", [2], "a file, a catalogue and texts kept during two operations of 13 kinds", thorough=[3]),
    sc("repeat", "h_c25_repeat", [40], "any of 13 operations 40 times, then any other", thorough=[300], limits={"max_steps": 1000000000}),
]
OUTSIDE["C25"] = ["several threads", "longer histories of different operations"]

SCENARIOS["C26"] = [
    sc("text-%d" % k, "h_c26_text", [n, k, a], "any text of up to %d bytes of %s in any of 17 fields%s, any of six widths, obsolete or not"
       % (n, "ASCII" if a == 1 else "UTF-8", "" if k == 0 else ", in the middle of text %d" % k), reach=3, thorough=[t, k, a])
    for n, k, a, t in ((2, 0, 0, 3), (1, 2, 0, 2), (1, 4, 0, 2), (1, 5, 1, 2))
] + [
    sc("two", "h_c26_two", [1, 1], "up to one ASCII byte in any two of 17 fields", reach=3, thorough=[2, 1]),
    sc("missing", "h_c26_missing", [2], "an entry of which any part is missing or empty, perhaps beside one of eight shapes", reach=3),
    sc("mo", "h_c26_mo", [2, 1], "catalogues with any text of up to 2 bytes of UTF-8 in any field", reach=3, thorough=[3, 1]),
    sc("long", "h_c26_long", [1, 100], "texts of 100 bytes of six kinds with an open byte in any of 17 fields", reach=3,
       thorough=[1, 300]),
]
OUTSIDE["C26"] = ["catalogues of 4 GiB and more", "texts with more open bytes"]

SCENARIOS["C05"] += [
    sc("full", "h_c05_full", [0], "an entry with up to two of each kind of comment, reference, flag and previous text before a plain one"),
    sc("twice", "h_c05_full", [1], "the same entry twice"),
]
SCENARIOS["C11"] += [sc("wide", "h_c11_wide", [], "two keys of characters of 20 blocks of 64 each")]
SCENARIOS["C16"] += [
    sc("references", "h_c16_references", [1], "references with any text of one ASCII byte after the file name", reach=3, thorough=[2]),
]
SCENARIOS["C22"] += [
    sc("shapes", "h_c22_shapes", [3], "three entries of eight shapes, with or without a blank line between", thorough=[4]),
    sc("ends", "h_c22_ends", [1], "an entry or malformed line after a line of 12 kinds that ends with any ASCII byte", reach=3, thorough=[2]),
]
SCENARIOS["C08"] += [
    sc("ends", "h_c22_ends", [1], "a malformed line after a line of 12 kinds that ends with any ASCII byte", reach=3, thorough=[2]),
]

# more of the same
BIG = {"max_steps": 900000000}
SCENARIOS["C01"] += [sc("far", "h_c01_long", [1, 9000], "texts of 9000 bytes " + KINDS % 1, limits=BIG)]
SCENARIOS["C03"] += [
    sc("forms-all", "h_c03_forms", [256, 1], "256 plural forms, as many as there may be, an open byte in one of them", limits=BIG),
    sc("longer", "h_c03_long", [1, 1000, 0], "texts of 1000 bytes " + KINDS % 1 + " in each text, two wrap widths", limits=BIG,
       thorough=[1, 3000, 0]),
]
SCENARIOS["C04"] += [
    sc("many-300", "h_c04_many", [300], "300 flags, references or comment lines, an open byte in one of them", limits=BIG),
    sc("longer", "h_c04_long", [1, 2000, 0], "comment lines, flags and references of 2000 bytes with an open byte", limits=BIG),
]
SCENARIOS["C05"] += [
    sc("huge-%d" % w, "h_c05_huge", [9000, w], "a field of 9000 bytes with an open letter in seven fields, wrap width %d" % w, limits=BIG)
    for w in (78, 100000)
]
SCENARIOS["C05"] += [sc("many-300", "h_c05_many", [300], "300 entries of all shapes, one of any shape with open letters", limits=BIG)]
SCENARIOS["C07"] += [sc("many-100", "h_c07_many", [100, 0], "100 entries, one of any shape", limits=BIG, thorough=[300, 0])]
SCENARIOS["C12"] += [sc("many-300", "h_c12_many", [300], "300 entries, one of them open, converted and written", limits=BIG)]
SCENARIOS["C15"] += [
    sc("many-100", "h_c15_many", [100], "100 entries, one of them and the searched message open", reach=7, limits=BIG, thorough=[300]),
]
SCENARIOS["C17"] += [
    sc("many-100", "h_c17_many", [100], "100 entries merged with as many, one open on each side, twice", reach=7, limits=BIG,
       thorough=[300]),
]
SCENARIOS["C20"] += [
    sc("many-60", "h_c20_many", [60], "60 entries of all shapes, an open byte in one of them, three wrap widths", limits=BIG,
       thorough=[300]),
]

SCENARIOS["C27"] = [
    sc("text-%d" % k, "h_c27_text", [n, k, a], "any text of up to %d bytes of %s in any of nine strings%s, six widths, obsolete or not"
       % (n, "ASCII" if a == 1 else "UTF-8", "" if k == 0 else ", in the middle of text %d" % k), thorough=[t, k, a])
    for n, k, a, t in ((2, 0, 0, 3), (1, 1, 0, 2), (2, 2, 1, 2), (1, 3, 0, 2), (1, 4, 0, 2), (1, 5, 0, 2), (1, 6, 0, 2))
] + [
    sc("wide", "h_c27_text", [0, 1, 2, 1], "each character of 20 blocks of 64 in any of nine strings"),
    sc("shapes", "h_c27_shapes", [3], "up to three entries of eight shapes in every order, header and fuzzy metadata", thorough=[4]),
    sc("comments", "h_c27_comments", [3, 0], "any text of up to 3 bytes of UTF-8 in a comment, header, flag or reference", thorough=[4, 0]),
    sc("metadata", "h_c27_metadata", [3, 0], "any text of up to 3 bytes of UTF-8 as metadata", thorough=[4, 0]),
    sc("forms", "h_c27_forms", [12], "up to 12 plural forms, an open byte in one of them"),
    sc("long", "h_c27_long", [1, 200], "texts of 200 bytes of six kinds with an open byte in any of six strings", thorough=[2, 200]),
    sc("mo", "h_c27_mo", [2, 1, 0], "the text of catalogues with any text of up to 2 bytes of UTF-8 in any of six strings",
       thorough=[3, 1, 0]),
]
OUTSIDE["C27"] = [
    "U+0011 and U+0012, for which the known findings of C02 apply",
    "texts that the format cannot hold, like line ends in flags or references",
]

SCENARIOS["C28"] = [
    sc("lines-1-1", "h_c28", [1, 1, 8], "a line of 25 kinds before one of 8 entries in each of two texts", reach=7),
    sc("lines-2-1", "h_c28", [2, 1, 1], "two lines and one line of 25 kinds before an entry", reach=7, thorough=[2, 2, 1]),
    sc("lines-1-2", "h_c28", [1, 2, 1], "one line and two lines of 25 kinds before an entry", reach=7, thorough=[1, 3, 1]),
    sc("text", "h_c28_text", [2], "any text of up to 2 bytes of UTF-8 in one of eight lines, eight other entries before or after", reach=7,
       thorough=[3]),
]
OUTSIDE["C28"] = [
    "second texts that begin with a line that can only continue an entry",
    "entries with an empty message, which may be taken as metadata",
    "texts of more than two lines of arbitrary kinds before an entry",
]

SCENARIOS["C29"] = [
    sc("entries", "h_c29", [3], "up to 3 entries of eight shapes in every order, with or without header and metadata", thorough=[4]),
    sc("text", "h_c29_text", [1, 0, 0], "an entry with any text of up to one byte of UTF-8 in one of nine fields among others, three widths",
       thorough=[2, 0, 0]),
    sc("text-1", "h_c29_text", [1, 1, 0], "the same between words", thorough=[2, 1, 0]),
    sc("text-6", "h_c29_text", [1, 6, 0], "the same in text longer than a line"),
    sc("text-wide", "h_c29_text", [0, 5, 2], "each character of 20 blocks of 64 among non-ASCII text"),
    sc("mo", "h_c29_mo", [1, 0, 0], "the same for MO files: up to one byte of UTF-8 in one of six fields", thorough=[2, 0, 0]),
    sc("mo-1", "h_c29_mo", [1, 6, 0], "the same in text longer than a line", thorough=[2, 1, 0]),
    sc("metadata", "h_c29_metadata", [1], "metadata with an open byte of ASCII in key and value", thorough=[2]),
]
OUTSIDE["C29"] = ["more than three entries", "several open texts at once"]

SCENARIOS["C30"] = [
    sc("layouts", "h_c30", [1, 1, 0], "an image with metadata and an entry, parts in every order, gaps, shared strings, hash table, both byte orders and revisions"),
    sc("text", "h_c30", [1, 2, 0, 1], "the same with any text of up to 2 bytes of UTF-8 and fewer layouts", thorough=[1, 3, 0, 1]),
    sc("three", "h_c30", [3, 1, 1, 1], "three entries in any order of their keys"),
    sc("gaps", "h_c30_gap", [20], "gaps of up to 20 bytes before each part, any bytes in those of up to 4, any hash table"),
    sc("many", "h_c30_many", [100], "a hundred entries of six shapes, one with an open byte of ASCII", limits=BIG),
    sc("long", "h_c30_long", [70000], "strings of 70000 bytes with an open letter in one of six places", limits=BIG),
]
OUTSIDE["C30"] = ["more than a hundred entries", "strings that overlap without being the same", "images that are not valid (C02, C24)"]

SCENARIOS["C31"] = [
    sc("entries", "h_c31", [0, 8], "each of eight entries in eight variations at every line"),
    sc("lines-1", "h_c31", [1, 4], "a line of 25 kinds before one of four entries, well-formed or not, varied at every line", reach=3),
    sc("lines-2", "h_c31", [2, 1], "two lines of 25 kinds before an entry", reach=3, thorough=[2, 3]),
    sc("text", "h_c31_text", [2], "any text of up to 2 bytes of UTF-8 in one of eight lines", reach=3, thorough=[3]),
    sc("long", "h_c31_long", [70000], "strings of 70000 bytes with an open letter, in one line or two", limits=BIG),
]
OUTSIDE["C31"] = ["more than one variation at a time (but all line ends at once)", "splits other than before or after the first byte of a string"]
