"""Level, technique and note of each check (used by mkmanifest.py and by the evidence files)."""
SHAPES = " The reader's obligations hold for all contents but for the given shapes (which items occur, how often) only: not a proof over all shapes; larger shapes are sampled on the real code."
XSD = " Trusts xsdata's parser and serializer and ElementTree.XML by contract."
LEVELS = {
    "P01": ("proof", DEDUCTIVE, "Every text and format: contracts of _identify_data_format, from_string, to_string, from_path, from_bytes and to_file of NdmIo, discharged on the source."),
    "P02": ("proof", DEDUCTIVE, "All paths, texts, bytes and arguments through the three interfaces, over a ghost file system. Trusts open/read/write, pathlib and UTF-8 coding by contract; files hold no carriage return."),
    "P03": ("proof", DEDUCTIVE, "XML: all texts and call histories. KVN: every header keyword; objects read for the minimal shapes of each type." + XSD),
    "P04": ("proof", DEDUCTIVE, "All combinations of numbers of members (lists of symbolic length)." + XSD),
    "P05": ("proof", DEDUCTIVE, "NdmXmlIo hands the tree to the serializer and the text to the parser unchanged, after every history of calls; that a tree which follows the (pinned) class metadata survives xsdata is trusted and sampled." + XSD),
    "P06": ("proof", DEDUCTIVE, "Every parser the reader uses, after every history of calls, refuses unknown elements; that xsdata then does refuse them is trusted and sampled." + XSD),
    "P07": ("proof", DEDUCTIVE, "XML interface: every history of calls. KVN writing: all object trees (writes nothing older than the call); KVN reading: frame shown for given shapes." + XSD),
    "P08": ("other", DEDUCTIVE, "Every line of every text is split as the rules say (all contents, no bound); what becomes of column data and blank lines is proved for given shapes." + SHAPES),
    "P09": ("proof", DEDUCTIVE, "All keywords, values, units and comments of any length: the written line read by the reader's own line splitter gives them back."),
    "P10": ("proof", DEDUCTIVE, "All object trees of the eight types: every value symbolic, every optional item possibly absent, lists of symbolic length."),
    "P11": ("proof", DEDUCTIVE, "All object trees with column data (AEM, OEM, TDM): every value symbolic, lists of symbolic length, every attitude type and convention."),
    "P12": ("other", DEDUCTIVE, "Every attitude type, quaternion convention, rotation sequence, covariance layout and observable, any white space between columns, all contents." + SHAPES),
    "P13": ("proof", DEDUCTIVE, "All object trees of the eight types, lists of symbolic length."),
    "P14": ("other", DEDUCTIVE, "Writer and reader executed symbolically on the same tree." + SHAPES),
    "P15": ("other", DEDUCTIVE, "Writing: all lists of parameters. Reading back: all names and values, given numbers of parameters." + SHAPES),
    "P16": ("proof", DEDUCTIVE, "Every text: variants of all while loops, finite unextended collections of for loops, decreasing measure of each recursion; contracts inferred as the largest consistent set, checked path by path, cross-checked on real calls. Trusts that calls into Python, lxml, xsdata and copy end."),
    "P17": ("proof", "ground obligations on the class contracts (model classes against the pinned schema)", "Every class, item and enumeration fact is decided by exhaustive evaluation; trusts the pinned schema snapshot data/schema.json."),
    "P18": ("other", DEDUCTIVE, "Given numbers of blocks and distributions of optional items, all contents." + SHAPES),
}
