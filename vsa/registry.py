"""Which function decides which property, and the rule it applies."""
from . import checks_codec as codec
from . import checks_reader as reader
from . import checks_values as values
from . import checks_writer as writer

BASE = ("Abstract interpretation of the library's source: byte strings are sequences of segments with symbolic bounds, integers are "
        "affine terms with interval and difference facts, every branch is followed on both sides unless the facts decide it. ")

def c14(P, chk):
    values.c14(P, chk)
    writer.c14_writer(P, chk)


CHECKS = {
    "C01": (codec.c01, BASE + "For every record class and nested structure, unpack() is followed over a symbolic well-formed byte string and "
            "pack() over the resulting abstract object; every field's byte range of the output must be the same range of the input, all other "
            "bytes must be zero or unchanged, and the length must lie between the end of the contents and the declared size."),
    "C02": (codec.c02, BASE + "pack() is followed over an abstract object with one symbol per field and unpack() over the resulting bytes; every "
            "field of the decoded object must be that symbol again."),
    "C03": (codec.c03, BASE + "The byte range, width, signedness and order that decoding reads for each field and encoding writes for it are "
            "compared with the format table in vsa/spec.py; every struct format that takes part must be independent of the host."),
    "C04": (reader.c04, BASE + "The reading loop is followed from an arbitrary position for a symbolic object: for each type code 0..128 and for all "
            "codes above, the paths that are consistent with the code must deliver the class of the format's table; for codes without a class they "
            "must deliver a placeholder, without any path that raises, whose encoding is the object's byte range."),
    "C05": (codec.c05, BASE + "For every record with optional parts and every presence scenario allowed by the declared size and extension offset, "
            "absent parts must decode as 0 without reading outside the record and must leave no byte in the encoding; present parts must be read "
            "and written at their place."),
    "C06": (reader.c06, BASE + "Induction over the reading loops, for the file and for container contents: one pass from an arbitrary loop head must "
            "deliver exactly one object, made of the bytes from the head position to head position + declared size, and continue right behind it; "
            "a container's contents must be the kept rest followed by the payload; a pass may end the loop only after a short read, and then the "
            "bytes from the head position to the end are what is kept."),
    "C07": (reader.c07, BASE + "On every pass from an arbitrary loop head: the position grows; bytes are skipped only where the branch facts exclude an "
            "object signature; no path delivers an object whose declared size may be below 16; every read has a non-negative limit."),
    "C08": (writer.c08, BASE + "Induction over any sequence of writes, from an arbitrary reachable writer with an arbitrary buffer and an object of which only "
            "the header and the encoding's length are known: on every path of write() and close(), stored contents + kept buffer must be, piece by piece, "
            "the buffer before + fewer than 8 zero bytes + the object (accepted objects only, once); every pass of a loop must conserve the bytes and "
            "shorten the buffer; close() must leave none; the constructor must refuse a buffer size with which this fails."),
    "C09": (writer.c09, BASE + "Paths of write() from an arbitrary reachable writer: a path that returns must have the branch fact 'encoding as long as "
            "declared'; every other path must end in ValueError, without a write, with the buffer unchanged but for padding, and with the counters "
            "that close() would then write unchanged."),
    "C10": (writer.c10, BASE + "The bytes that close() writes at position 0 are compared, field by field, with the facts at that point: file length, "
            "level, signature, size; count and summed size by induction (closing after one more write must give one more, and its length more); "
            "the last time must be the UTC view of a clock reading made by that write; nothing may be written after the header."),
    "C11": (writer.c11, BASE + "Every container that a path writes is parsed: contents are compressed where the branch facts give level > 0 and stored "
            "where they give level 0, with the given level, in one piece; the recorded level is the given one; the reader decompresses the whole "
            "payload under the same fact on the recorded level; for numbers 0..9 and for members of Compression."),
    "C12": (writer.c12, BASE + "Every appended byte string is parsed into zero padding and containers; position modulo 8, signature, type, sizes, method "
            "and uncompressed size are compared as terms with what the path stored."),
    "C13": (writer.c13, BASE + "Typestate of the file on every path of __enter__, __exit__, close() and of the constructors, with and without an exception in "
            "flight, and with a failure injected at every operation on the file, of zlib and of the clock."),
    "C20": (writer.c20, BASE + "The constructor's writes must make up one complete header with the level; from an arbitrary reachable writer every write "
            "must start at the end of the file, except the final header of close(); files are opened new."),
    "C18": (reader.c18, BASE + "Every path through the constructors, for file-like, str, bytes, PathLike and other arguments: success needs the facts "
            "'144 bytes read' and 'signature equal', every other path must end in the required exception, and all kinds of argument must lead to "
            "the same object source."),
    "C19": (reader.c19, BASE + "The sources that __iter__ and read_object draw from are identified by alias analysis and must be one stored "
            "source; every call must take exactly one object and hand it on."),
    "C14": (c14, BASE + "Effects of every encode and decode are collected on all paths: no object, class or module state that existed before "
            "may change, no clock, file or other outside source may be used, results depend only on the record's own symbols, decoded objects share "
            "no mutable part, encoding again gives the same bytes, and nothing stale is left after fields change."),
    "C15": (values.c15, BASE + "Every factory is followed over symbolic arguments: each argument must arrive in the field of its name, signature, header "
            "size, version and type code must be the format's, and the declared size must equal the length of the abstract encoding."),
    "C16": (values.c16, BASE + "The terms that the conversions build for every component are compared with the required ones; ranges by interval "
            "analysis, weekday and millisecond terms by tabulating the term itself."),
    "C17": (values.c17, BASE + "Member tables are compared with the format's; every enumerated field is decoded from an unrestricted number, and on "
            "every path the result must be that number, or the documented unknown value or an error only where no named value is possible."),
    "C21": (values.c21, BASE + "== is followed over pairs of abstract objects that share all field symbols or all but one; the branch facts must "
            "make the result equivalent to the equality of that field."),
}

TECHNIQUE = {
    "C04": "abstract interpretation: path facts of type dispatch",
    "C06": "abstract interpretation: inductive loop invariants over stream positions",
    "C07": "abstract interpretation: inductive progress and guard rules on the reading loop",
    "C08": "abstract interpretation: conservation of bytes by induction over writes",
    "C09": "abstract interpretation: path facts and effects of rejection",
    "C10": "abstract interpretation: inductive header counters, term comparison",
    "C11": "abstract interpretation: path facts of compression on both sides",
    "C12": "abstract interpretation: parsing of appended terms, congruence of positions",
    "C13": "abstract interpretation: typestate of files with injected failures",
    "C20": "abstract interpretation: append-only positions",
    "C18": "abstract interpretation: path facts of the constructors",
    "C19": "abstract interpretation: alias analysis of the object source",
    "C01": "abstract interpretation: byte provenance through decode and encode",
    "C02": "abstract interpretation: value provenance through encode and decode",
    "C03": "abstract interpretation: byte layout against a format table, host-order lint",
    "C05": "abstract interpretation: path facts of optional parts",
    "C14": "abstract interpretation: effect and alias analysis",
    "C15": "abstract interpretation: value provenance through factories",
    "C16": "abstract interpretation: term comparison and interval analysis",
    "C17": "abstract interpretation: path facts of enum conversions, table comparison",
    "C21": "abstract interpretation: branch facts of equality",
}
