#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Reflection databases survive a write/read round trip, in memory and in files",
 "Writing any reflection database, to memory or to a file, and reading it into a new database yields the same declarations (kind, properties, name, links, attributes, quantity), the same names and the same root, and writing it again yields byte-identical output. The size reported beforehand is exactly the number of bytes written, and a memory buffer that is too small makes the write fail without touching anything beyond the buffer.",
 ["inputs", "histories"], "Every database that holds declarations, built through the declaration and name API (the root being its first declaration, as the writer documents): any graph shape, any names (any length, any non-NUL bytes), any number of nodes including growth steps, any root; every output buffer size.",
 "Existing tests only feed .refl files from 69 fixed headers through the dump tool and never compare a reloaded database with the original.",
 ["src/db.cc", "src/model.cc", "include/crefl/db.h", "include/crefl/util.h"],
 [("crefl_db_write_mem / crefl_db_read_mem", "src/db.cc"), ("crefl_db_write_file / crefl_db_read_file", "src/db.cc"), ("crefl_db_size", "src/db.cc")])

prop("C02", "Any byte string is either rejected or loaded as a safe database",
 "Reading any byte string as a reflection database, from memory or from a file, either fails with an error or yields a database in which every name, link, next, attribute and root reference stays inside that database and every name is terminated. A valid image that has been cut short is always rejected, and the reader never looks at a byte beyond the given input.",
 ["inputs", "fault_sequences"], "All byte strings, in particular every truncation of a valid image, images whose header counts or table sizes are wrong (including overflowing sizes), and bit flips anywhere; memory and file input.",
 "No existing test loads a damaged, truncated or hostile image.",
 ["src/db.cc", "src/model.cc", "tool/crefltool.cc"],
 [("header and size validation in crefl_db_read_mem", "src/db.cc"), ("crefl_db_magic", "src/db.cc")])

prop("C03", "Reflection queries list exactly the matching children, in declaration order",
 "Every enumeration query (constants of enums and sets, fields of structs and unions, parameters, declarations, types, fields and functions of a source, sources of an archive) returns exactly the children of the asked kind, in declaration order, and reports the total count whether or not an output array is given. With an output array the query fills no more entries than the capacity passed in, and asked of a declaration of another kind it fails and reports nothing. Kind predicates and the accessors for name, link, next, attribute, constant value, array count and element/target/underlying type agree with what was stored.",
 ["inputs", "histories"], "Every declaration graph, every node as the subject (also of the wrong kind), every capacity from zero to beyond the count.",
 "Existing tests print one or two structs; they never vary capacity, ask about the wrong kind, or mix kinds in a sibling list.",
 ["src/model.cc", "include/crefl/model.h"],
 [("crefl_list_* two-call enumeration", "src/model.cc"), ("crefl_is_* predicates", "src/model.cc"), ("crefl_*_type accessors", "src/model.cc")])

prop("C04", "Reflected widths and field offsets equal the compiler's C ABI layout",
 "For every C type whose reflection the compiler plug-in emits (intrinsics incl. _Bool and complex, enums, typedefs, qualifiers, pointers, arrays of any dimension, and nested structs and unions, with or without bit-fields) the width reported by the reflection library equals the compiler's sizeof in bits, and struct field offsets equal the compiler's field offsets. Offset enumeration obeys the caller's capacity and closes with the total size.",
 ["inputs", "programs"], "All type graphs over these constructors (hand-built graphs as well as databases emitted for generated headers), on the x86-64 SysV ABI the plug-in runs on; the packed and aligned attributes, which the layout functions do not interpret, are excluded.",
 "Two existing tests check three widths; no existing test compares offsets, unions, complex, nested or bit-field layouts with a compiler.",
 ["src/model.cc"],
 [("crefl_type_width and the struct/union/array width functions", "src/model.cc"), ("_pad_align / _type_pad / _struct_pad", "src/model.cc"), ("crefl_struct_fields_offsets", "src/model.cc")])

prop("C05", "Type hashes identify a declaration by content, not by position",
 "The content hash of a declaration is the same on every computation, in every database and at every position where the same declaration occurs, including after a file round trip or merge. It differs as soon as any identifying part differs: kind, name, properties, width/count/value, member order or number, element, target or parameter type, or any of its attributes and their values, directly or through the types it is built from.",
 ["inputs", "histories"], "Pairs of declaration graphs related by renumbering/reordering of storage (must agree) or by a single semantic edit anywhere in the declaration (must differ).",
 "No existing test computes or compares hashes except printing them.",
 ["src/link.cc", "src/sha256.cc", "src/dump.cc"],
 [("crefl_index_scan, hash functions", "src/link.cc"), ("sha224 over node content", "src/link.cc")])

prop("C06", "The index gives every declaration its fully qualified name",
 "Scanning a database gives each declaration reachable from its sources a fully qualified name built from its ancestors' names and its own, independent of where the nodes are stored, and marks every such entry exactly as valid; names stay correct however large the index grows. Scanning an unrelated database, or the same one twice, gives the same names for the same declarations.",
 ["inputs", "histories"], "All declaration graphs: any nesting, names of any length (empty, around and beyond internal buffer sizes), many entries.",
 "Existing tests print qualified names for fixed headers but do not check them.",
 ["src/link.cc", "include/crefl/link.h", "include/crefl/util.h"],
 [("crefl_index_scan / entry names", "src/link.cc"), ("crefl_entry_fqn", "src/link.cc"), ("string_printf", "include/crefl/util.h")])

prop("C07", "Merging databases keeps every declaration once and loses nothing",
 "Merging any number of databases yields one archive with the given name holding every input source in order, in which each source still has all its declarations with the same content (kind, name, properties, quantity, members, types, values and complete attribute lists), up to redirection to a shared identical declaration. Identical enums, sets, structs, unions and functions are stored once, different declarations are never unified, the inputs are left unchanged, and the result is deterministic, well-formed and survives a write/read round trip.",
 ["inputs", "histories", "programs"], "All lists of databases: disjoint, overlapping, identical, with attributes, self-referential and shared types; repeated and nested merges.",
 "Existing tests never merge; the samples do it once at build time without looking at the result.",
 ["src/link.cc", "include/crefl/hashmap.h", "tool/crefltool.cc"],
 [("crefl_link_merge", "src/link.cc"), ("hash keyed de-duplication", "src/link.cc")])

prop("C08", "The compiler plug-in records every C declaration with its name and values",
 "For every C translation unit the plug-in emits a database whose source lists the file-scope enums, structs, unions, typedefs, variables and functions in order of declaration with their names, their members in order (enumerators with their exact constant values, fields and anonymous struct/union members, parameters with names), their storage and linkage (global, static, extern C, inline, noreturn), and the recognised attributes of declarations and members with their values in order. Nothing that was not declared appears, and the output is the same every time.",
 ["programs", "inputs"], "All well-formed C headers over the constructs the model supports, in any order, nesting and combination, including negative and 64-bit constants, anonymous members, annotations and repeated (forward) declarations.",
 "The 69 test headers each show one construct and only check that the tool does not fail, not what was recorded.",
 ["src/reflect.cc"],
 [("RecursiveASTVisitor Visit* functions", "src/reflect.cc"), ("create_attributes", "src/reflect.cc"), ("crefl_db_write_file at end of TU", "src/reflect.cc")])

prop("C09", "The compiler plug-in records every C type exactly",
 "The type recorded for every field, variable, typedef, parameter and function result is structurally the declared C type: the right intrinsic width and signedness, qualifiers at the right level, pointer depth, array dimensions in order (fixed, incomplete or variable), function signatures, enum widths, and bit-field widths; a reference to a declared struct, union or enum leads to that declaration.",
 ["programs", "inputs"], "All C declarator combinations over the supported constructors, in any position.",
 "The test headers show single constructs and no test examines the type graph that results.",
 ["src/reflect.cc"],
 [("get_qual_type / get_intrinsic_type", "src/reflect.cc"), ("VisitFieldDecl, VisitFunctionDecl, VisitTypedefDecl, VisitVarDecl", "src/reflect.cc")])

prop("C10", "The tool's dump, statistics, emit and merge outputs reflect the database exactly",
 "Every dump format prints one row per declaration with its true kind, properties, name or qualified name, links and value, the statistics equal the true counts and sizes, and emitted C source or merged files carry exactly the database's bytes. Any valid database can be processed, and the output does not depend on anything but the input. A header or row printed by itself is that of the dump.",
 ["inputs", "histories"], "All valid databases (any names, sizes, values, property sets) in every dump and emit mode.",
 "Existing tests only check that the tool exits with zero on fixed inputs and look at no output.",
 ["tool/crefltool.cc", "src/dump.cc"],
 [("crefl_db_dump / crefl_db_dump_row", "src/dump.cc"), ("crefl_db_dump_stats", "src/dump.cc"), ("emit", "tool/crefltool.cc")])

prop("C11", "File errors are reported and never taken for success",
 "When an input file is missing, unreadable, truncated or not a database, or an output file cannot be created or completely written (including at the final flush), the library call returns an error and the command line tool exits with a non-zero status. A run that reports success has written the complete output.",
 ["fault_sequences", "crash_points"], "A fault (open, stat, read, short read, write, short write, flush, close; e.g. no space) at every individual operation of every file-handling library call and tool mode.",
 "No existing test injects an I/O fault; a full disk or missing file is never tried.",
 ["src/db.cc", "include/crefl/util.h", "tool/crefltool.cc"],
 [("read_file / write_file", "include/crefl/util.h"), ("crefl_db_read_file / crefl_db_write_file", "src/db.cc"), ("do_* commands", "tool/crefltool.cc")])

prop("C12", "BER tags, identifiers and lengths encode minimally and decode exactly",
 "Every tag number, identifier (number, class, constructed flag) and content length in the supported range is written in its unique minimal BER form, in exactly the number of bytes predicted, and reads back to the same value consuming exactly those bytes. A decode succeeds only if the consumed bytes are a complete valid encoding of the value returned; truncated, unterminated or over-long input is reported as an error. The named universal tags and classes have their X.680 numbers and names, and other tags have none.",
 ["inputs"], "Tag numbers below 2^56, all four classes, all definite lengths below 2^64, at every boundary of the encodings; all byte strings for the readers.",
 "Existing tests round-trip a few handpicked values, mostly of the universal class.",
 ["src/asn1.cc", "include/crefl/asn1.h"],
 [("crefl_asn1_ber_tag_*", "src/asn1.cc"), ("crefl_asn1_ber_ident_*", "src/asn1.cc"), ("crefl_asn1_ber_length_*", "src/asn1.cc")])

prop("C13", "ASN.1 integers and booleans round-trip minimally and decode exactly",
 "Every 64-bit signed and unsigned integer, in the big-endian and little-endian forms, with content octets alone or with tag and length, is written in the minimal number of octets predicted, reads back unchanged consuming exactly those octets, and has the octets the format defines; a longer field of up to eight octets is sign- or zero-extended. Booleans occupy one octet, any non-zero octet reads as true and DER true is written as all ones. Empty, over-long or truncated content is an error, and by-value and by-pointer variants agree.",
 ["inputs"], "All 2^64 values of each type (dense at every byte and sign boundary), all requested lengths, all byte strings for the readers, DER and BER variants.",
 "Existing tests round-trip a few dozen handpicked values and never look at wrong lengths, padding or truncation.",
 ["src/asn1.cc", "include/crefl/asn1.h"],
 [("crefl_asn1_ber_integer_*", "src/asn1.cc"), ("crefl_le_ber_integer_*", "src/asn1.cc"), ("crefl_asn1_ber_boolean_*", "src/asn1.cc")])

prop("C14", "ASN.1 REAL values round-trip bit-exactly and decode per X.690",
 "Every finite double (including both zeros and subnormals), both infinities and NaN are written in the canonical (DER) X.690 binary form in exactly the predicted length, denoting exactly that value, and read back identically (any NaN as a NaN). Every well-formed binary or special-value REAL that the reader accepts yields the value that X.690 assigns to it (base 2, 8 or 16, scale factor, sign, exponent); malformed, reserved or truncated content is an error, and by-value, by-pointer, BER and DER variants agree.",
 ["inputs"], "All 2^64 double bit patterns for writing; all content strings for reading, in particular every combination of base, scale, exponent size and mantissa size.",
 "Existing tests round-trip eight or so values and do not look at the bytes or at foreign encodings.",
 ["src/asn1.cc"],
 [("crefl_asn1_ber_real_f64_*", "src/asn1.cc"), ("crefl_asn1_der_real_f64_*", "src/asn1.cc")])

prop("C15", "Variable-length floats round-trip bit-exactly, minimally and across widths",
 "Every float and double, including zeros, subnormals and infinities, written in the variable-length floating-point form reads back bit-identically (NaN as NaN with its sign), in the shortest form the format allows, and a float's encoding read as a double gives the same number. Any other well-formed encoding reads as the number it denotes, overflow reading as infinity and underflow as zero of the same sign; truncated or malformed input is an error, and by-value and by-pointer variants agree.",
 ["inputs"], "All 2^32 floats and 2^64 doubles for writing (dense in exponents, mantissa lengths and subnormals), all byte strings for reading, including all one- and two-octet headers.",
 "A seeded random test covers normal numbers of ordinary magnitude; it reaches no subnormals, overflow, cross-width or hostile encodings and checks no sizes.",
 ["src/asn1.cc", "include/crefl/bits.h", "docs"],
 [("crefl_vf_f64_read/write", "src/asn1.cc"), ("crefl_vf_f32_read/write", "src/asn1.cc")])

prop("C16", "LEB128 and VLU integers round-trip minimally and decode exactly",
 "Every integer in the supported 56-bit range is written in the fewest octets its little-endian variable-length form (continuation bits, or unary length prefix) allows and reads back unchanged consuming exactly those octets; integers outside the range are rejected by the writer. A read succeeds only when the octets consumed are a complete encoding of the value returned; truncated and unterminated input is an error, and by-value and by-pointer variants agree.",
 ["inputs"], "All values below 2^56 (dense at every 7-bit boundary) and beyond; all byte strings for the readers.",
 "Existing tests round-trip some boundary values and never present truncated or unterminated input.",
 ["src/asn1.cc"],
 [("crefl_leb_u64_*", "src/asn1.cc"), ("crefl_vlu_u64_*", "src/asn1.cc")])

prop("C17", "Object identifiers convert exactly between components, text and BER",
 "Every object identifier in the supported domain (two to fifteen components, first 0..2, second below 40 under 0 and 1, subidentifiers below 2^56) encodes to its unique X.690 form of the predicted length and decodes to the same components, and converts to dotted text and back unchanged. Text parsing accepts exactly dotted decimal numbers in range and reports the components read before an error; binary decoding succeeds only on complete subidentifiers within the given length and yields the X.690 components; text output never exceeds the caller's buffer.",
 ["inputs"], "All component lists in the domain; all strings (digits, dots, garbage, overflow) and explicit lengths; all byte strings and lengths; all output capacities.",
 "Existing tests check a few OIDs under 1.2 and 2.99 and a few malformed strings.",
 ["src/asn1.cc"],
 [("crefl_asn1_ber_oid_*", "src/asn1.cc"), ("crefl_asn1_oid_to_string / from_string", "src/asn1.cc")])

prop("C18", "Octet strings and NULL round-trip with exact lengths",
 "Every octet string, with content octets alone or with tag and length, is written verbatim in the predicted length and reads back unchanged, copying no more octets than the caller's capacity while reporting the full length and leaving the position after the content. NULL occupies no content octets and any other length is an error. Content longer than what remains in the buffer, or than the room for writing, is an error that copies nothing outside the buffers.",
 ["inputs"], "All contents and lengths incl. empty and long-form lengths, all caller capacities, all claimed lengths against all remaining sizes.",
 "Existing tests use one or two short strings with a matching capacity.",
 ["src/asn1.cc"],
 [("crefl_asn1_ber_octets_*", "src/asn1.cc"), ("crefl_asn1_ber_null_*", "src/asn1.cc")])

prop("C19", "Decoders are memory-safe and bounded on every byte string",
 "No decoder (tag, identifier, length, boolean, integer, REAL, variable-length float, LEB128, VLU, object identifier, octets, NULL; BER and DER; by pointer and by value) ever reads or writes outside the input and the caller's result, executes an undefined shift, or moves the position beyond the end of the input, whatever the bytes, lengths and start position, alone or in sequence; errors are reported as negative results. Decoding is a function of its inputs: the same bytes give the same outcome.",
 ["inputs", "histories"], "All byte strings of all lengths, all length arguments, all sequences of decoder calls on one buffer.",
 "Existing tests decode only what the encoder just wrote.",
 ["src/asn1.cc", "include/crefl/buf.h"],
 [("crefl_buf_read_* bounds checks", "include/crefl/buf.h"), ("decoder error paths", "src/asn1.cc")])

prop("C20", "Encoders never write beyond the buffer and report lack of room",
 "For every encoder and every value, writing succeeds exactly when the remaining capacity is at least the encoded size; otherwise it reports an error (a negative result), no byte beyond the capacity is touched, and the position stays within the buffer. What was written before remains intact, whatever sequence of writes is made.",
 ["inputs", "histories", "fault_sequences"], "All encoders and values, every capacity from zero to beyond the need, every start position, sequences of mixed writes on one buffer.",
 "Existing tests always use buffers with ample room.",
 ["src/asn1.cc", "include/crefl/buf.h"],
 [("crefl_buf_write_* bounds checks", "include/crefl/buf.h"), ("crefl_buf_check_capacity", "include/crefl/buf.h")])

prop("C21", "SHA-224 and SHA-256 digests are correct for every message and chunking",
 "The digest of every message equals the FIPS 180-4 SHA-224 or SHA-256 digest, however the message is divided into updates, including empty ones, and contexts can be interleaved and reused after initialisation.",
 ["inputs", "histories"], "All messages (dense around the 55/56/63/64 byte padding boundaries and multi-block, long ones too), all chunkings, interleaved contexts.",
 "An existing test checks a few fixed vectors at most; none varies the chunking.",
 ["src/sha256.cc", "include/crefl/sha256.h"],
 [("sha224_init/sha256_init, update, final", "src/sha256.cc")])

prop("C22", "The hash map behaves like a map under every operation sequence",
 "After any sequence of insertions, lookups, indexed assignments, erasures, clears, copies, moves and iterations the hash map holds exactly the keys and values that a reference map would hold, with each key once; iteration visits each entry exactly once and the size matches. Copies are independent, and all memory is used within bounds and released exactly once.",
 ["histories"], "All operation histories, also with colliding and adversarial hash values, deletions leaving tombstones, growth across every resize threshold, every initial capacity, key and value types of any size and any key equality (trivially copyable types, which is what the map's storage supports).",
 "No existing test uses the hash map directly; it is exercised only by merging.",
 ["include/crefl/hashmap.h"],
 [("insert/find/erase/operator[]/resize_internal", "include/crefl/hashmap.h"), ("iterator", "include/crefl/hashmap.h")])

prop("C23", "Buffer, byte-order and bit primitives obey their definitions",
 "The buffer's sized reads and writes store integers in little-endian order, advance by exactly the transferred size or not at all, never leave the buffer, and the reported remaining span, offset, seek and reset agree with them. Byte-order conversions are exact, mutually inverse and equal to the stated byte order, and bit counting and leading/trailing zero counts equal their mathematical definition for every value and type (a zero having as many zeros as it has bits). Byte formatting is printable, injective and within its buffer, and the dump of a buffer shows every octet before the position in its place.",
 ["inputs", "histories"], "All operation sequences over all buffer sizes and (also huge) lengths; all integer values of all widths.",
 "No existing test covers these directly beyond a few calls.",
 ["include/crefl/buf.h", "include/crefl/endian.h", "include/crefl/bits.h", "src/buf.cc"],
 [("crefl_buf_*", "include/crefl/buf.h"), ("le/be conversions", "include/crefl/endian.h"), ("clz/ctz/popcnt/ispow2", "include/crefl/bits.h")])

prop("C24", "The OID description table agrees with its source data",
 "For every encoded object identifier in the shipped OID list the description lookup returns that entry's name (or one of its names where the list has several), and for every other octet string and length, including prefixes, extensions and empty ones, it returns the empty description, reading no more than the given length.",
 ["inputs"], "All octet strings up to and beyond the table's maximal key length; all table entries and all their one-edit neighbours.",
 "No existing test looks anything up in the table.",
 ["src/oid.cc", "data/oids.txt", "include/crefl/oid.h"],
 [("crefl_asn1_oid_desc", "src/oid.cc"), ("generated table", "src/oid.cc")])

prop("C25", "The ASN.1 dump tool prints any DER structure faithfully and survives any file",
 "For every well-formed DER file the tool prints one line per element reached through universal sequences and sets, in order, with the offset and length of its contents, its depth, form and tag (other classes by class and number) and the full text of object identifiers, integers and strings. On any other file it ends normally with a non-zero status as soon as an element does not fit, without reading outside the file, looping or exhausting the stack.",
 ["inputs"], "All nested DER trees up to the supported depth, with all lengths and tags; all byte strings as files, including truncated and deeply nested ones.",
 "No existing test runs this tool.",
 ["tool/asn1tool.cc", "src/asn1.cc"],
 [("parse loop", "tool/asn1tool.cc"), ("ident/length readers", "src/asn1.cc")])

prop("C26", "Databases keep every name and declaration intact while they grow",
 "Every declaration and name added to a database stays readable with exactly the content it was given, whatever is added afterwards and however the storage is enlarged; new identifiers never collide with earlier ones, and lookups of a declaration by its index return that declaration. A new database offers each built-in intrinsic by its properties and width, with its defined name, and nothing else.",
 ["histories"], "All interleavings of adding names (any length up to large, including empty), adding declarations, setting their parts and reading earlier ones back, across every growth step.",
 "Existing tests build a handful of nodes and never reach a second growth of the storage or read everything back.",
 ["src/model.cc", "src/types.cc"],
 [("crefl_name_new / crefl_decl_new growth", "src/model.cc"), ("crefl_db_defaults intrinsics", "src/model.cc"), ("crefl_intrinsic / crefl_lookup", "src/model.cc")])

prop("C27", "A program linked with its own reflection reads its live objects through it",
 "When the sources of a C program are reflected with the wrapper script, merged and emitted with the tool and linked into the program, the program finds itself through the embedded database: the archive and its sources in order, every type and variable of each source, and for each of its objects the same value of every member at the recorded offset and width as plain C expressions give, and the sample's printer shows these values in full. The wrapper gives one archive for several sources, and the commands it shows in a dry run do exactly what it does itself.",
 ["inputs", "programs"], "All C programs of several sources with shared headers, over the types that the plug-in records (nested and anonymous records, bit-fields of every type, enums, arrays, typedefs, qualifiers, floating, complex and 128-bit types), whatever their objects hold; file and directory names with blanks.",
 "The samples are built but nothing looks at what they print; no test goes through the wrapper, or compares reflected values with those of the program.",
 ["scripts/creflcc.py", "src/reflect.cc", "src/link.cc", "src/model.cc", "src/db.cc", "tool/crefltool.cc", "samples/example3_printer/printer.c"],
 [("creflcc.py commands", "scripts/creflcc.py"), ("crefl_db_internal and the emitted source", "tool/crefltool.cc"), ("printer", "samples/example3_printer/printer.c")])

prop("C28", "The helper scripts compute what they say for every input",
 "The script that makes the rows of the OID table gives, for every list of encoded object identifiers, one row per entry with its name, exact dotted numbers (or octets) and length, in its documented order. The script for ISO 6093 numbers accepts exactly the texts its header allows in each mode, and prints their integer, fraction and exponent.",
 ["inputs"], "All lists of well-formed identifiers with components of any number of octets; all number texts without line breaks, in both modes.",
 "No existing test runs either script.",
 ["scripts/parse_oids.py", "scripts/ISO-6093-NR3.pl"],
 [("decode_oid", "scripts/parse_oids.py"), ("relaxed and strict patterns", "scripts/ISO-6093-NR3.pl")])

prop("C29", "C declarations are recorded alike in C and C++ and inside linkage blocks",
 "A header in the common subset of C and C++ is recorded with the same declarations, in the same order and with the same types, names, widths, values and attributes, whether it is reflected as C or as C++, and wherever its declarations stand in (nested, partial or empty) linkage blocks; only the linkage marks differ, and they say for each declaration which linkage it has. Static data members, methods and nested types that a C++ version of a record has besides change neither what is recorded of its other members nor any size or offset.",
 ["inputs", "programs"], "All headers of records, enums, typedefs, extern variables, prototypes and inline functions in the common subset; all placements of linkage blocks around their declarations.",
 "The tests' C++ inputs are single small headers; none compares both languages, and none has a linkage block.",
 ["src/reflect.cc", "scripts/creflcc.py"],
 [("get_parent, create_named_node", "src/reflect.cc"), ("C++ mode of the wrapper", "scripts/creflcc.py")])

prop("C30", "A target's reflection matches its sources after every build and edit",
 "A target that uses the project's CMake macro is linked with one archive named after it, with all of its sources in order as its include directories show them, however the sources and headers are spread over directories. After any edits to sources, headers or the list of sources the next build brings the reflection up to date with the program.",
 ["inputs", "histories"], "All targets of C sources below the top directory and histories of edits, with the Ninja and make generators.",
 "The project's build uses the macro for two fixed samples, from scratch, and no test looks at the result.",
 ["cmake/crefl_macro.cmake", "scripts/creflcc.py", "tool/crefltool.cc", "src/link.cc"],
 [("crefl_target_reflect", "cmake/crefl_macro.cmake"), ("dependency files", "scripts/creflcc.py")])

prop("C31", "Any C++ unit is reflected, with its declarations where they stand",
 "Every valid C++ translation unit is reflected without a crash into a well-formed database, the same one every time. Classes, enums, typedefs, variables, functions and methods are recorded in order of appearance as members of the class, enum or unit around them, with their names, types, values and marks, whatever namespaces, linkage blocks, templates, friends, aliases, deduced types or lambdas stand around and between them; templates, namespaces, friends and aliases are not recorded themselves.",
 ["inputs", "programs"], "All C++ translation units: any nesting and order of namespaces, classes, templates and other declarations, and the headers of any library.",
 "The tests reflect two small C++ headers of plain structs; no class template, namespace or deduced type occurs in them.",
 ["src/reflect.cc"],
 [("TraverseDecl, get_parent, create_named_node", "src/reflect.cc"), ("VisitRecordDecl, VisitVarDecl, get_intrinsic_type", "src/reflect.cc")])

prop("C32", "Errors in a source do not damage what is recorded of the rest",
 "Whatever text the plug-in is given, with errors (which it passes over, except for files that cannot be read) or rare language features, it ends by itself and, when it reports success, leaves a well-formed database: each declaration is listed once, in the record, enum, function or source it stands in, no type contains itself, and the library's questions about sizes and offsets have an answer; reflecting it again, with or without debug output, by another path or in another environment, gives the same database. Declarations with errors, however many, leave all others recorded as if they were not there; records, variables, functions and typedefs whose type has an error are left out, not recorded with an invented type.",
 ["inputs", "programs"], "All texts of C and C++ units: any number of erroneous declarations of any kind between valid ones, and arbitrary damage.",
 "Two of the tests' inputs happen to contain an error; nothing examines what it does to the database.",
 ["src/reflect.cc", "src/model.cc"],
 [("ReflectDiagConsumer, TraverseDecl, has_invalid_tag", "src/reflect.cc"), ("_struct_pad, _is_placed", "src/model.cc")])

prop("C33", "Work on separate objects is independent, and questions change nothing",
 "What a program does with one database, index, buffer, digest context or map has the same results whatever it does with others in between, in the same thread or in others at the same time. Asking about, indexing, writing and merging databases that several threads share changes none of them and is free of data races. (Printing and dumping, which write to the one standard output in a global format, and the first question for the description of an object identifier, documented to be for one thread, are excluded.)",
 ["schedules", "histories"], "All sets of tasks on separate or shared (read only) objects, all their interleavings in one thread and all schedules of several threads.",
 "The tests run one sequence of operations in one thread each.",
 ["src/model.cc", "src/link.cc", "src/buf.cc", "src/asn1.cc", "src/oid.cc", "src/sha256.cc", "include/crefl/hashmap.h"],
 [("crefl_db_new, crefl_intrinsic, crefl_lookup", "src/model.cc"), ("crefl_link_merge, crefl_node_name", "src/link.cc"), ("sha256_update, sha256_final", "src/sha256.cc"), ("crefl_asn1_oid_to_string, crefl_asn1_oid_from_string", "src/asn1.cc"), ("crefl_asn1_oid_desc", "src/oid.cc")])

prop("C34", "What is destroyed leaves nothing behind",
 "After any history of operations on databases, indexes, buffers and maps, including merges, failing reads and writes of files and damaged input, destroying the objects releases all memory and every file that the operations took; functions that make no object keep nothing.",
 ["histories", "inputs"], "All sequences of operations, with valid, damaged and missing inputs and outputs that fail, ended by destroying what was made.",
 "The tests end without looking at what they leave, and few of them take the error paths.",
 ["src/model.cc", "src/link.cc", "src/db.cc", "src/buf.cc", "src/dump.cc", "include/crefl/util.h", "include/crefl/hashmap.h"],
 [("crefl_db_destroy", "src/model.cc"), ("crefl_index_destroy, crefl_link_merge", "src/link.cc"), ("crefl_read_file, crefl_write_file", "include/crefl/util.h"), ("crefl_db_dump", "src/dump.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
