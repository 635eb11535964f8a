"""Writes properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
K, X, I = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
M = "ccsds_ndm/models/ndmxml2"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}})

p("P01", "Format recognition is total and exact",
  "After ignoring surrounding white space, the unified reader treats a text starting with CCSDS_ as KVN, otherwise a text starting with < and ending with > as XML, otherwise a text starting with [ and ending with ] as JSON, which is refused with NotImplementedError; every other text is refused with ValueError. The text given to the format-specific reader is the one the caller gave, and the caller gets that reader's result. Writing dispatches the same way on the requested format, and JSON output is refused with NotImplementedError.",
  ["inputs"], "every text and every requested format", "Tests read one well-formed sample file per message type and format; the boundary texts (blank, one character, mixed brackets, leading white space) are never tried.",
  [I], [("_identify_data_format", I), ("NdmIo.from_string", I), ("NdmIo.to_string", I)], ["NdmIo.from_string", "NdmIo.to_string", "NdmIo.to_file"])
p("P02", "Path, bytes and text entry points agree; files hold the written text",
  "Reading from a string path or path-like object, or reading the UTF-8 bytes of a text, gives the same object as reading the text itself, through the unified interface and through the KVN and XML interfaces. Writing to a string path or path-like object leaves in the file exactly the text the string writer returns for the same arguments, schema locations included. When the conversion is refused (JSON, or a combined message to KVN), the target file is neither created nor changed.",
  ["inputs", "configurations"], "every entry point, path form, object and argument combination", "Tests use pathlib paths only, check one sample per type, and never look at a file after a refused write.",
  [I, X, K], [("from_path / from_bytes / to_file", f) for f in (I, X, K)], ["NdmIo", "NdmXmlIo", "NdmKvnIo"])
p("P03", "Each message type is selected by exactly its own header keyword or root tag",
  "For each of the eight message types (AEM, APM, CDM, OEM, OMM, OPM, RDM, TDM) a KVN text headed by its CCSDS_xxx_VERS keyword, or an XML text with its root tag, is read as an object of exactly that type. The header keyword and version, or root tag, id and version, written for an object are those of its type. A KVN text whose header keyword, or an XML text whose root tag, belongs to no message type is refused with an error.",
  ["inputs"], "every message type, every header keyword and every root tag", "Tests only use the correct headers of the samples; look-alike or unknown headers are never tried.",
  [K, X, M], [("_NdmDataType.find_element", K), ("_NdmDataType.find_element", X), ("_identify_data_type", K), ("_identify_data_type", X)], ["NdmIo.from_string", "NdmIo.to_string"])
p("P04", "A combined message keeps every contained message; a single one is unwrapped",
  "Reading a combined instantiation (ndm) gives every contained message, of its full message type, in document order within its kind, together with the comments and message ids; if it contains exactly one message in total, that message itself is returned instead. Writing a combined object to KVN writes its only message if it has exactly one, and is refused with NotImplementedError if it has none or several, of the same or of different kinds.",
  ["inputs"], "every combination of numbers of messages of each kind", "Tests have one combined sample and one single-message sample.",
  [X, K], [("NdmXmlIo.from_string (downcast)", X), ("_strip_multi_ndm", X), ("_is_multi_ndm", X), ("NdmKvnIo.to_string", K)], ["NdmIo.from_string", "NdmIo.to_string"])
p("P05", "XML writing followed by reading gives the same object tree",
  "For every object tree which follows the schema, of each of the eight message types and of the combined type with zero or several messages, the written XML text read back gives an equal tree: same types, texts, decimal values, units, enumerations, and list lengths and order. This holds with and without schema locations.",
  ["inputs"], "every schema-conforming object tree", "Tests compare the sample files only: most optional elements, enumeration values and list lengths never occur in them.",
  [X, M], [("NdmXmlIo.from_string", X), ("NdmXmlIo.to_string", X), ("field metadata", M)], ["NdmXmlIo", "NdmIo"])
p("P06", "Unknown XML elements are rejected, never dropped",
  "An XML message with an element that the schema does not define at that place is refused with an error, for every message type, nesting level and reading entry point, and regardless of what was read before.",
  ["inputs", "histories"], "every message, every place of the unknown element, every earlier use of the reader", "No test reads an invalid XML file.",
  [X], [("NdmXmlIo.__init_parser (fail_on_unknown_properties)", X)], ["NdmIo.from_string", "NdmXmlIo.from_string", "NdmXmlIo.from_path", "NdmXmlIo.from_bytes"])
p("P07", "Calls are independent of each other and writing never alters the object",
  "The outcome of a read or write call depends only on its own arguments: earlier calls on the same or another reader or writer, successful or failed, with other messages, formats or schema locations, never change it. Writing, in any format, to text or to file, leaves the given object tree unchanged. Objects from separate reads share no mutable part.",
  ["histories"], "every sequence of read and write calls", "Tests build a new reader for each call and never look at the object after writing it.",
  [I, X, K], [("NdmXmlIo.to_string", X), ("NdmKvnIo._pre_process_kvn_data", K), ("NdmKvnIo._init_object_map", K), ("NdmKvnIo._collate_str_out", K)], ["NdmIo", "NdmXmlIo", "NdmKvnIo"])
p("P08", "KVN layout never changes what is read",
  "Blank lines, indentation, trailing white space, LF or CRLF line ends, and any amount of white space around a keyword, its equals sign, its value, and a trailing unit in square brackets never change the object which is read. The value is everything after the first equals sign (without the trailing unit), and a comment is everything after COMMENT and one optional equals sign; text inside values and comments is kept as it is.",
  ["inputs"], "every line of every KVN text", "The sample files use one layout each.",
  [K], [("NdmKvnIo._pre_process_kvn_data", K)], ["NdmIo.from_string", "NdmKvnIo.from_string"])
p("P09", "A written KVN line reads back as the same keyword, value and unit",
  "For every keyword, value and unit, whatever their lengths, the KVN line written for them is a single line which reads back as exactly that keyword, value and unit (or no unit), and the line written for a comment reads back as exactly that comment. Keywords are KVN keywords (no white space, no equals sign, not beginning with COMMENT), values and comments are texts without line breaks or surrounding white space, values do not end with a closing square bracket, and a value which has a unit is a number.",
  ["inputs"], "every keyword, value, unit and comment", "Tests see only the values of the samples, which fit the default column widths and have no equals signs or brackets.",
  [K], [("_fill_str_out_kvn", K), ("NdmKvnIo._pre_process_kvn_data", K)], ["NdmIo.to_string", "NdmIo.from_string"])
p("P10", "KVN output holds every populated item exactly once, in schema order",
  "The KVN text of a message consists of the header line and then, in schema order, exactly one entry for each populated item of the object tree (keyword value, comment, list entry, user-defined parameter), with the item's schema keyword, the exact text of its value (decimal digits unchanged, zero included) and its unit if the object has one. Items which are not set give no entry. The tree's fixed-column data and section markers are the only other content.",
  ["inputs"], "every object tree of the eight message types", "The samples populate a small part of the optional items, and never a zero, an empty list next to a filled one, or a value without its unit.",
  [K, M], [("NdmKvnIo.to_string", K), ("NdmKvnIo._collate_str_out", K), ("NdmKvnIo._collate_str_out_subclasses", K), ("_fill_str_out_kvn", K)], ["NdmIo.to_string"])
p("P11", "Fixed-column KVN data lines are written in the standard's column order",
  "Ephemeris lines list epoch, position, velocity and, if present, acceleration; covariance matrices list the lower triangle row by row after their comments, epoch and frame; attitude lines list epoch and the columns of the segment's attitude type, with the scalar quaternion component (and its derivative) first or last as QUATERNION_TYPE says; tracking data lines list the one observable's keyword, epoch and value. Each value appears as the exact text of the object's value, zero included, one line per list entry.",
  ["inputs"], "every data line object, attitude type, quaternion convention, rotation sequence and observable", "Samples cover one attitude type with one quaternion convention and a few observables.",
  [K], [("_collate_special_data_str_out", K)], ["NdmIo.to_string"])
p("P12", "Fixed-column KVN data lines are read into the fields they stand for",
  "Reading puts each column of an ephemeris, covariance, attitude or tracking data line into the field which the standard assigns to that column: with or without accelerations, with or without a covariance frame, for each attitude type, quaternion convention and rotation sequence announced by the segment's metadata, in upper or lower case, and for each observable keyword. No column is dropped, shifted or altered, whatever white space separates them.",
  ["inputs"], "every data line, attitude type, quaternion convention, rotation sequence, covariance layout and observable", "Samples cover one attitude type with one quaternion convention, no covariance frame variations and a few observables.",
  [K], [("NdmKvnIo.__build_special_objects", K), ("NdmKvnIo.__prepare_aemsegment_sub_objects", K), ("NdmKvnIo.__xmlify_att_segment_data", K), ("_identify_special_sub_segments", K)], ["NdmIo.from_string"])
p("P13", "KVN section markers are balanced and correctly placed",
  "In the KVN text of AEM, OEM and TDM messages each segment's metadata is enclosed in one META_START / META_STOP pair; the data of each AEM and TDM segment is enclosed in one DATA_START / DATA_STOP pair; the covariance matrices of each OEM segment that has any are together enclosed in one COVARIANCE_START / COVARIANCE_STOP pair. Pairs never nest or overlap, each marker is alone on its line, and no other message type has markers.",
  ["inputs"], "every object tree: any number of segments, data lines and covariance matrices, including none", "Tests compare a few sample outputs.",
  [K], [("_collate_special_header_str_out", K), ("NdmKvnIo._collate_str_out_subclasses", K)], ["NdmIo.to_string"])
p("P14", "KVN writing followed by reading gives back the same data",
  "For every message whose texts, epochs and structure KVN can represent (see the design notes), the written KVN text read back gives an equal object tree: every text, number, unit, enumeration, comment and list in place and in order. Excepted are only what KVN does not carry: units of fixed-column data, empty blocks, and to which of two adjoining blocks a comment between them belongs.",
  ["inputs"], "every representable message of the eight types", "Tests compare the sample files only, each with one combination of optional blocks.",
  [K, M], [("NdmKvnIo.from_string", K), ("NdmKvnIo.to_string", K)], ["NdmIo.from_string", "NdmIo.to_string"])
p("P15", "User-defined parameters keep name, value and order in KVN",
  "Any number of user-defined parameters are written as USER_DEFINED_name lines, one each, in order, and are read back with exactly the same names (also when a name itself contains the prefix), values (also empty ones) and order, together with the comments of their block.",
  ["inputs"], "every list of parameter names and values", "Only one or two sample parameters occur in the tests.",
  [K], [("_xmlify_list", K), ("NdmKvnIo._collate_str_out_subclasses", K), ("_get_min_max_indices", K)], ["NdmIo.to_string", "NdmIo.from_string"])
p("P16", "KVN reading always terminates",
  "For every text, valid or not, reading it as KVN ends: it either returns a message or raises an exception. Every pass over the lines makes progress, and never goes beyond the lines of the text.",
  ["inputs"], "every KVN text, including truncated, reordered, duplicated and random lines", "Tests only read valid files.",
  [K], [("NdmKvnIo.__identify_list", K), ("NdmKvnIo.__identify_sub_sub_segments", K), ("NdmKvnIo.__identify_sub_segments", K), ("_get_min_max_indices", K), ("_identify_special_sub_segments", K)], ["NdmIo.from_string"])
p("P17", "Keywords, units, enumerations and structure follow the NDM 2.0 schema",
  "For every model class, the names, order, types, multiplicities, defaults, restrictions and XML names of its items, the unit strings and enumeration values, and the message ids and versions are those of the NDM XML 2.0.0 schema. The KVN keyword of every item is its schema name.",
  ["inputs"], "every item of every model class and every enumeration value", "Tests touch only the items and values present in the samples.",
  [M], [("field metadata and enumerations", M)], ["ccsds_ndm.models.ndmxml2"])
p("P18", "Repeated KVN blocks stay separate and in order",
  "For every number of segments, manoeuvres, ephemeris, covariance, attitude or tracking data entries and CDM objects, KVN reading gives exactly one list entry per block, in file order. Each entry gets only the values of its own block: an item or comment that one block has and another lacks never moves between blocks, and is never lost, whichever blocks have it.",
  ["inputs"], "every number of blocks and every distribution of optional items over them", "Samples have two or three blocks with the same items each.",
  [K], [("NdmKvnIo.__identify_list", K), ("_get_list_elem_end", K), ("_get_min_max_indices", K), ("NdmKvnIo.__build_object_tree", K)], ["NdmIo.from_string"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
