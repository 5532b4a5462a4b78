#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that it is easy to review and edit)."""
import json, os
S = "src/vblf/"
CODECS = [S + f for f in ("general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py")]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    **({"state": state} if state else {}),
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {}),
                    "hook_needed": None}})


prop("C01", "Re-encoding a decoded record reproduces its bytes",
     "For every record type, nested structure and the file header, decoding a well-formed record and encoding the result "
     "yields the original bytes: each fixed field, each variable-length text or data part and each optional extension returns "
     "to its own position in its own width, and the result is as long as the record's contents. Well-formed means that the "
     "length and offset fields describe parts that lie inside the declared size and do not overlap; only bytes that no field "
     "covers (gaps and trailing padding) may come back as zero or be left off.",
     ["inputs"], "all well-formed byte strings of every decodable record type, at any buffer offset for the offset-taking variants",
     "One sample file per type; equal test values, one length per string and a single record size per type leave almost all inputs untried.",
     CODECS, [("unpack/pack, unpack_from/pack_into pairs of every record class", "src/vblf/*.py")],
     observe=["pack(unpack(b)) compared with b"])

prop("C02", "Decoding an encoded record returns the same field values",
     "For every record object whose field values fit their slots and whose length, offset and size fields describe its contents, "
     "encoding it and decoding the result returns an object with the same value in every field. This includes objects without "
     "their optional parts.",
     ["inputs"], "all consistent field assignments of every record class",
     "Tests only start from one stored sample per type; objects a program builds itself, with other values or without optional parts, are not tried.",
     CODECS, [("pack then unpack of every record class", "src/vblf/*.py")],
     observe=["unpack(pack(o)) compared with o, field by field"])

prop("C03", "Every field sits where the BLF format puts it, on every host",
     "Each public field of each record, of the object headers and of the file header is read from and written to the byte position, "
     "width, signedness and little-endian order that the BLF format defines for it, and text parts use the format's character "
     "encoding. This does not depend on the byte order, alignment or word size of the machine that runs the library.",
     ["inputs", "configurations"], "all field values of all record types; all host platforms",
     "Samples with repeated byte patterns cannot tell swapped fields apart and the suite only runs on one little-endian host; a change made "
     "consistently in reader and writer still round-trips.",
     CODECS, [("struct formats and field order of unpack/pack", "src/vblf/*.py"), ("constants", S + "constants.py")],
     observe=["field values for given bytes", "bytes for given field values"])

prop("C04", "Every object type code is decoded by its own record class",
     "Reading an object whose type code the library implements yields an instance of the record class that the format assigns to that code. "
     "Reading any other type code, known or unknown, never fails and never skips the object: it yields a placeholder that holds the object's "
     "complete raw bytes and re-encodes to exactly these bytes. The numeric codes are those of the BLF format.",
     ["inputs"], "all 2^32 type codes",
     "The round-trip test derives the expected class from the same table it tests, and no test reads an unimplemented or unknown type.",
     [S + "reader.py", S + "constants.py", S + "general.py"],
     [("type table", S + "reader.py:OBJ_MAP"), ("object type enumeration", S + "constants.py:ObjType"), ("raw placeholder", S + "general.py:NotImplementedObject")],
     observe=["class and bytes of the objects a reader yields"])

prop("C05", "Optional record parts follow the declared size exactly",
     "A record part that only some versions of a record carry is decoded and encoded exactly when the record's declared size (and, where the "
     "format has one, its non-zero extension offset) says that it is present. When it is absent its fields decode as zero, no byte outside the record "
     "is read, and encoding writes no byte of it over other parts of the record.",
     ["inputs"], "all declared sizes and extension offsets of the versioned records",
     "The samples contain one size per versioned record, so the absent and boundary cases are never run.",
     [S + "can.py", S + "lin.py"],
     [("extension guard", S + "can.py:CanFdMessage64"), ("extension guard", S + "can.py:CanFdErrorFrame64"), ("version guards", S + "lin.py:LinMessage2")],
     observe=["optional fields after decoding; bytes after encoding"])

prop("C06", "The reader yields every complete object exactly once, in order",
     "Iterating over a file yields exactly the complete objects stored in it, each once, with all of its bytes, in file order, wherever container boundaries "
     "cut the object data (inside padding, a signature, a header or a body, across any number of containers). Bytes left over at the end "
     "of one container are continued with the next container's data, and reading stops only when the data is exhausted.",
     ["inputs", "histories"], "all files and all placements of container boundaries",
     "Only the boundaries that five 128 KiB buffers of one record size happen to produce are tried.",
     [S + "reader.py"], [("object generator and carried-over bytes", S + "reader.py:BlfReader._generate_objects")],
     state=[{"name": "_incomplete_data", "meaning": "tail of an object continued in the next container", "where": S + "reader.py"}],
     observe=["sequence of objects yielded by iteration"])

prop("C07", "The reader resynchronises, always advances, and refuses bad sizes",
     "Bytes between objects that do not start an object signature are skipped one at a time, so that no signature is ever stepped over. "
     "Every step of the reader consumes at least one byte, so reading any input ends. A declared size too small to hold the object's own header is "
     "refused with ValueError instead of swallowing data that follows; no read is unbounded.",
     ["inputs"], "all byte strings, including corrupt and truncated files",
     "Tests only read files that the library has just written itself.",
     [S + "reader.py"], [("signature scan and object size handling", S + "reader.py:BlfReader._generate_objects")],
     observe=["objects yielded, termination, exceptions on corrupt files"])

prop("C08", "The writer stores every accepted object's bytes once, in order",
     "After a writer is closed, the concatenated (decompressed) contents of its containers are the encodings of all accepted objects, complete, once each, in the order written, "
     "separated by nothing but fewer than eight zero bytes; with a buffer size divisible by eight every object starts at a multiple of eight of these contents. This holds for every buffer size, object size, compression level and sequence of writes, including objects larger than "
     "the buffer; closing always terminates, and a buffer size with which it could not is refused with ValueError. An object that is written after closing is refused, not silently lost.",
     ["inputs", "histories", "configurations"], "all write sequences, object sizes, buffer sizes and compression levels",
     "Tests use one buffer size and objects far smaller than the buffer.",
     [S + "writer.py"], [("buffering, alignment and container flush", S + "writer.py:BlfWriter.write, _flush_container, close")],
     state=[{"name": "_buffer", "meaning": "accepted bytes not yet in a container", "where": S + "writer.py"}],
     observe=["file contents after close"])

prop("C09", "An object whose size is misdeclared is rejected without a trace",
     "Writing an object whose encoding is not exactly as long as its declared size raises ValueError. No byte of it reaches the buffer or the file, the object and size counters are unchanged, "
     "and the writer remains usable.",
     ["inputs", "histories"], "all objects, at any point of any write sequence",
     "No test writes an inconsistent object.",
     [S + "writer.py"], [("size check before buffering", S + "writer.py:BlfWriter.write")],
     observe=["exception, file contents and file header after a rejected write"])

prop("C10", "The file header written at close describes the file",
     "After close, the header at the start of the file is complete and states the number of accepted objects, the initial header size plus the summed sizes of the accepted objects as uncompressed size, "
     "the actual length of the file, the compression level in use, the time at which the writer was created as start time and the time of the last accepted object, both in UTC. It is written after all object data and over the first header only.",
     ["inputs", "histories", "configurations"], "all write sequences and configurations",
     "No test looks at the header of a written file.",
     [S + "writer.py", S + "general.py"], [("statistics upkeep", S + "writer.py:BlfWriter"), ("header codec", S + "general.py:FileStatistics")],
     observe=["first 144 bytes of a closed file"])

prop("C11", "Writer and reader agree on compression at every level",
     "The writer compresses container contents exactly when the compression level recorded in the file header is greater than zero, with the level it was given, and over the whole content; the reader "
     "decompresses the whole container content exactly under the same condition on the recorded level. This holds for every level from 0 to 9, named or not.",
     ["inputs", "configurations"], "all compression levels and container contents",
     "Only the levels 0, 1, 6 and 9 are tested.",
     [S + "writer.py", S + "reader.py"], [("compression decision", S + "writer.py:_flush_container"), ("decompression decision", S + "reader.py:_generate_objects")],
     observe=["round trip through a file at each level"])

prop("C12", "Every container the writer emits is a well-formed BLF container",
     "Every container in a written file starts at a file position that is a multiple of eight, preceded only by zero padding. Its header carries the object signature, "
     "the container type code, a declared size equal to header plus stored data, the compression method actually used for the data (0 none, 2 zlib) and the size of the data before compression, "
     "and zero in its reserved bytes; no container holds more than the writer's buffer size. So "
     "any BLF reader can unpack it on its own.",
     ["inputs", "configurations"], "all written containers at all levels, sizes and positions",
     "The library's own reader ignores most of the container header, so the round-trip tests cannot see it.",
     [S + "writer.py", S + "general.py"], [("container construction", S + "writer.py:_flush_container"), ("container record", S + "general.py:LogContainer")],
     observe=["bytes of a written file, parsed by the BLF container layout"])

prop("C13", "Readers and writers close their file on every exit",
     "Leaving the context of a reader or writer closes its file whether or not an exception is in flight, never swallows that exception, and for a writer first stores all buffered objects and the final header. "
     "Closing a writer twice does nothing the second time, the file is closed even when the final flush fails, and a constructor that fails closes the file it had opened itself and leaves open a file object it was given.",
     ["fault_sequences", "histories"], "all exits, normal and exceptional, including failing I/O at any point",
     "Tests only leave contexts normally and never make I/O or construction fail.",
     [S + "writer.py", S + "reader.py"], [("context manager and close", S + "writer.py, " + S + "reader.py")],
     observe=["file object closed state, propagated exceptions"])

prop("C14", "Encoding and decoding are pure",
     "Encoding a record depends on nothing but the record's own fields and changes neither the record nor any state shared between calls or records; encoding the same record twice gives the same bytes. "
     "Decoding depends on nothing but the given bytes and offset and does not modify them; writing an object to a file does not change the object.",
     ["inputs", "histories"], "all records and all interleavings of encode and decode calls",
     "Tests encode each object once and cannot observe state that leaks between calls.",
     CODECS + [S + "writer.py"], [("all codec methods", "src/vblf/*.py")],
     observe=["object fields and repeated results before and after calls"])

prop("C15", "Factory constructors build self-consistent objects",
     "Every factory constructor of a record returns an object that carries each argument in the field of the same name, the object signature, the header size and version of the format, the type code that dispatches "
     "back to this record class, a declared size equal to the length of its encoding, and zero in reserved fields and in header fields that no argument fills. Every call returns an object of its own, which shares no mutable part with the objects "
     "of other calls. A new file header describes an empty file: valid "
     "signature, its own size as header and file size, no objects, no restore points, zero reserved bytes.",
     ["inputs"], "all arguments of all factory constructors",
     "No factory constructor is called with non-default values by a test.",
     [S + "can.py", S + "general.py"], [("new()", S + "can.py, " + S + "general.py")],
     observe=["fields and encoding of objects returned by the factories"])

prop("C16", "Calendar times convert field by field and stay in range",
     "Converting a date-time to the file header's calendar time maps year, month, day, hour, minute and second to the fields of the same name, the weekday counted from Sunday = 0, and microseconds to milliseconds; "
     "converting back restores the same fields. Every produced component lies in its legal range for every input date-time, so neither conversion can fail or roll over.",
     ["inputs"], "all date-times",
     "No test converts a time, in particular none near a rounding boundary.",
     [S + "general.py"], [("SystemTime conversions", S + "general.py:SystemTime")],
     observe=["SystemTime fields, resulting datetime"])

prop("C17", "Enumerated values are decoded losslessly or not at all",
     "A decoded enumerated field or flag set has the numeric value that is in the data, including flag bits the library does not name. Values without a name either raise an error or, for the object type and the "
     "recording application only, become the documented unknown value; for compression levels the number itself is kept. The numeric values of all enumerations are those of the BLF format.",
     ["inputs"], "all raw values of all enumerated fields",
     "Tests use one named value per enumeration.",
     [S + "constants.py"] + CODECS, [("enumerations and from_int", S + "constants.py")],
     observe=["decoded enumerated fields"])

prop("C18", "Only BLF input is accepted",
     "Opening a reader succeeds only if the input provides a complete file header that starts with the BLF file signature; shorter or other input raises ValueError before any object is delivered. An argument that is neither a path nor "
     "a file-like object raises TypeError, for readers and for writers. A path (text, bytes or path-like) names the file that is opened, by readers for reading only. Path and file-like arguments are treated alike otherwise.",
     ["inputs"], "all inputs and argument types",
     "Tests only open valid files by path.",
     [S + "reader.py", S + "writer.py"], [("constructor checks", S + "reader.py:BlfReader.__init__, " + S + "writer.py:BlfWriter.__init__")],
     observe=["exceptions raised by the constructors"])

prop("C19", "All ways of reading share one position in the file",
     "Iterating over a reader and asking it for the next object draw from the same position: in any mixture of both, every object is delivered exactly once and in order. At the end, asking for the next object returns None, "
     "and keeps doing so.",
     ["histories"], "all interleavings of iteration and single reads",
     "Each test uses one way of reading only.",
     [S + "reader.py"], [("shared generator", S + "reader.py:BlfReader.read_object, __iter__")],
     observe=["objects obtained by mixed access"])

prop("C20", "What has been flushed stays readable without close",
     "From construction on, a writer's file starts with a complete header that already records the compression level in use, and until close the file is only ever appended to, padding and container in stream order. A write that fills the buffer stores a container before it returns. "
     "A process that stops before close therefore leaves a file whose fully written containers can all be read.",
     ["crash_points", "histories"], "all points between construction and close at which the process can stop",
     "Every test closes its writer.",
     [S + "writer.py"], [("header first, append-only writes", S + "writer.py:BlfWriter.__init__, _flush_container")],
     observe=["order and positions of write calls on the file"])

prop("C21", "Records are equal exactly when all their fields are equal",
     "Two records of the same class compare equal if and only if every one of their fields, headers and nested structures included, is equal. Records of different classes never compare equal.",
     ["inputs"], "all pairs of records",
     "Tests only ever compare records expected to be equal.",
     CODECS, [("dataclass-generated equality", "src/vblf/*.py")],
     observe=["== on records"])

prop("C22", "Decoded values mean what Vector's tools show for the same recording",
     "For recordings made by Vector products, the physical meaning of decoded values (bus, channel, time base, direction, identifiers) agrees with what those products display.",
     ["inputs"], "all recordings made by Vector tools",
     "There is one synthetic sample per type and no recording with known contents.",
     CODECS, [("record classes", "src/vblf/*.py")], observe=["comparison with Vector tools"])

prop("C23", "Flushed containers survive power loss",
     "A container that the writer has flushed is on stable storage and survives a crash of the operating system or loss of power.",
     ["crash_points", "fault_sequences"], "all crash points of the host",
     "No test crashes the host.",
     [S + "writer.py"], [("container flush", S + "writer.py:_flush_container")], observe=["file after power loss"])

prop("C24", "Reading and writing run in memory and time bounded by the container size",
     "Reading or writing a file of any length needs memory proportional to the largest container and object, and time linear in the file size.",
     ["inputs"], "all files", "Tests use small files and measure nothing.",
     [S + "reader.py", S + "writer.py"], [("streaming generator and buffer", S + "reader.py, " + S + "writer.py")], observe=["peak memory, run time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
