"""What each check consists of."""
from . import build

CHECKS = {}

def cc(pid, harness, rule, san=build.SAN, **kw):
    CHECKS[pid] = dict(parts=[dict(harness=harness, san=san)], rule=rule, **kw)


CHECKS["C21"] = dict(parts=[dict(harness="c21"), dict(harness="c21long", fuzz=False, san=[], extra=("-O2",), thorough_env={"VP_HUGE": "1"})],
  rule="message, algorithm, chunking and interleaving drawn per case; non-trivial: longer than one padding boundary (55 bytes) or more than one update; distinct by message and chunking")

cc("C12", "c12", "tag numbers, identifiers and lengths drawn densely at 7- and 8-bit boundaries, and arbitrary octet strings (continuation runs, truncations); the named tags and classes; every value case is non-trivial, a read case if it has two octets or more; distinct by value / octets")

cc("C13", "c13", "64-bit values dense at byte and sign boundaries in all four forms, field lengths from minimal to eight octets, arbitrary content with arbitrary claimed lengths, DER elements intact, truncated and with wrong lengths; all value and error cases are non-trivial; distinct by value, form and length or by octets")

cc("C16", "c16", "values below 2^56 dense at every 7-bit boundary, values beyond, and arbitrary octet strings (continuation runs, every length prefix, truncations); a value case is always non-trivial, a read case from two octets on; distinct by value / octets")
cc("C17", "c17", "component lists of 2..15 with dense boundary values, mutated and random texts, arbitrary content octets with arbitrary claimed lengths; non-trivial: every list, and texts / contents of two or more characters / octets; distinct by content")
cc("C18", "c18", "octet strings of lengths around the short / long form boundaries, all capacities and claimed lengths, DER elements intact and damaged; all non-trivial except inputs shorter than two octets; distinct by content and parameters")

cc("C14", "c14", "double bit patterns dense in exponents, mantissa lengths, subnormals and special values; contents with every base, scale factor, exponent form and mantissa length, truncated and with wrong lengths; every value is non-trivial, a content from two octets on; distinct by bits / octets")

cc("C15", "c15", "float and double bit patterns dense in exponents, mantissa lengths, subnormals and special values; encodings with every header, exponents around both formats' limits, mantissas of any length and shape, damaged and cut short; every value is non-trivial, an encoding from two octets on; distinct by bits / octets")

cc("C22", "c22", "operation sequences (insert three ways, indexed access, find, erase, clear, copy, move, compare, iterate) on one to three maps with good, identity, colliding and constant hashes, initial sizes 1..128, six key/value types (narrow, wide, large, and keys with an equality of their own); non-trivial: more than three operations with an erasure or two entries; distinct by the sequence of keys")
cc("C23", "c23", "sequences of sized reads/writes, byte transfers, seeks and resets at capacities 0..80 against a byte array model; bit and byte order functions (C++, C11 generic and fallback forms, and byte order as on a platform without swap functions) on values dense at bit boundaries; byte formatting for every octet and room 0..20; non-trivial: two transfers or more, every value; distinct by sequence / value")

cc("C19", "c19", "all 35 decoders alone and in sequences of 1..6 on inputs of elements with right and wrong headers, continuation runs, REAL / vf headers and boundary octets, cut short, from any start position with any claimed length; run twice with different result memory; under AddressSanitizer with exact-size inputs, bounds and shift checks; non-trivial: two octets of input or more; distinct by input, functions and lengths", san=build.SAN_DEC)
cc("C20", "c20", "all 35 encoders with values over their domains at every capacity from zero to one more than needed (exact-size heap buffers under AddressSanitizer), and sequences of 1..12 writes into a guarded buffer of 0..120 octets; non-trivial: something to write; distinct by encoding / sequence")

cc("C24", "c24", "every listed OID with all its prefixes, one-octet extensions, zero paddings and single-bit neighbours and every string of up to two octets, and sequences of 1..6 lookups of listed, edited and random octet strings in exact-size heap blocks; non-trivial: at least one octet; distinct by octets")

CHECKS["C25"] = dict(parts=[dict(harness="c25", tool="asn1tool", san=build.SAN_DEC)],
  rule="DER trees of up to 60 elements (nesting to 320, long lengths, every tag and class, OIDs of up to 15 components) and damaged, repetitive, endlessly nested and random files, dumped by the tool's own main() in process under AddressSanitizer; non-trivial: more than one element, or two octets for damaged files; distinct by file content")

cc("C01", "c01", "arbitrary graphs (any tags, properties, links, names of any bytes and length) and generated sources of up to 400 declarations in any storage order, and large databases of 2000..22000 declarations, written to memory (exact, larger, smaller buffers on the heap) and files, read, extended and written again; non-trivial: two declarations or more; distinct by image")

cc("C02", "c02", "images of generated databases intact, cut at every or random places, with hostile counts, sizes, references and names, hand-made small tables with references around each bound, and noise, as exact-size heap buffers under AddressSanitizer and as files; non-trivial: a full header; distinct by octets")

cc("C03", "c03", "databases whose parents of every kind hold sibling lists of mixed kinds (0..300 children), and arbitrary graphs, in any storage order; every query of every parent (and of parents of other kinds) with four combinations of array and capacity, every predicate and accessor of every declaration; non-trivial: a query with at least one match, or two declarations; distinct by image")
cc("C26", "c26", "histories of 1..1500 new declarations, names (to 70000 characters, and around the end of the storage) and changes, everything re-read along the way under AddressSanitizer; intrinsic look-ups over new databases with further intrinsics of like properties; non-trivial: two declarations, or any look-up; distinct by sizes / question")

cc("C05", "c05", "generated sources (nested and self-referential records, shared types, attributes) stored in permuted order, with one to three identifying parts changed, moved into other sources and archives, merged and read back; hashes of all complete declarations of all databases of a case compared one to one with position-independent content terms; every case non-trivial; distinct by image and change")

cc("C06", "c06", "sources and nested archives with nested, self-referential and mutually recursive records, aliases, shared types, attributes, odd and empty names, to 60 levels, 9000 members and names of 3000 characters, in any storage order and after merging; every entry of the index compared with a reference that names declarations at their first visit; non-trivial: three reachable declarations; distinct by image")

cc("C07", "c07", "0..12 generated sources, copies of one another with up to three identifying parts changed and with duplicated declarations, stored in permuted order, merged once, repeatedly and again after round trips; contents compared as position-independent terms of every input; non-trivial: two inputs, or three declarations; distinct by merged image")

CHECKS["C10"] = dict(parts=[dict(harness="c10", tool="crefltool"), dict(module="options", quick=150, thorough=6000)],
  rule="generated databases (odd and long printable names, every property bit and value range, aliases, archives) given as files to the tool's own main() in process: every row of every dump format compared cell by cell, statistics, emitted C source parsed back, merged files; rows and headers printed one by one in any format; and generated C and C++ units whose dump by the plug-in is compared with the tool's, the file with the one written without dump or debugging; every case non-trivial; distinct by image or text")

CHECKS["C11"] = dict(parts=[dict(module="c11")], level="fault_enumeration",
  rule="one fault per run of the real tools, the library's file calls and the plug-in: bad inputs at every position (missing, directory, unreadable, cut at every octet of small images and at chosen ones of large, not a database), output that cannot be created or is cut at every size by a file size limit, full devices, and every single open / stat / read / write / close system call on the files failing; non-trivial: the fault was reached; distinct by command, input and fault")

CHECKS["C08"] = dict(parts=[dict(module="plug", quick=6000, thorough=60000)],
  rule="translation units of 1..30 generated items (records nested to depth 4, anonymous members, bit-fields, enums over the whole 64-bit range, typedefs, variables, functions with and without bodies, forward and repeated declarations, attributes) compiled with the plug-in, every recorded declaration compared with the generator's own list; plus sets of system headers compiled twice; non-trivial: two declarations or more; distinct by text")
CHECKS["C09"] = dict(parts=[dict(module="plug", quick=6000, thorough=60000)],
  rule="the same units; the recorded type of every field, variable, typedef, parameter, result and enumerator compared with the normalised declared type; non-trivial: two declarations or more; distinct by text")

CHECKS["C04"] = dict(parts=[dict(module="layout", quick=4000, thorough=60000)],
  rule="translation units of 1..20 items (records nested to depth 4, unions, anonymous members, bit-fields of every base type, enum and typedef, zero-width and unnamed ones, arrays, flexible members, enums of every width, typedef chains), once through the plug-in and once as a hand-made database with typedef, alias and set nodes in any storage order; every size, offset and bit-field position gcc can tell compared with the library's, the offsets at several capacities; non-trivial: three comparisons or more; distinct by text")

CHECKS["C27"] = dict(parts=[dict(module="embed", quick=400, thorough=6000)],
  rule="programs of 1..4, now and then 11..13, sources with 0..3 shared headers (records nested to depth 4, unions, anonymous members, bit-fields of every integer, enum and boolean type, enums to 64 bits, typedefs, qualifiers, arrays, complex and 128-bit members, variables), reflected, merged, emitted and linked into themselves, their objects filled with random octets; a fifth printed with the sample's printer; a quarter reflected by the commands the wrapper shows as well; non-trivial: three values or more; distinct by text")

CHECKS["C28"] = dict(parts=[dict(module="scripts", quick=2500, thorough=60000)],
  rule="lists of 0..40 object identifiers (components dense at 7-bit boundaries below 2^56, prefixes and extensions of one another) with names; number texts of every shape with single edits, in both modes; non-trivial: a list that is not empty, a text with a point; distinct by content")

CHECKS["C29"] = dict(parts=[dict(module="cpp", quick=900, thorough=20000)],
  rule="headers of 1..8 items in the common subset of C and C++ (records nested to depth 4, anonymous members, bit-fields, enums to 64 bits, typedefs, qualifiers, arrays, extern variables, prototypes, inline functions), with 0..3 nested, adjacent or empty linkage blocks in C++ mode, where records also get static members, methods and nested types; declarations and layouts compared; every header is non-trivial; distinct by text")

CHECKS["C30"] = dict(parts=[dict(module="cmake", quick=60, thorough=1500)],
  rule="scratch projects of one or two targets (generated programs whose sources and headers lie in several directories, with blanks in their names) built with Ninja or make through the macro, and built again after up to three edits (header, source, list of sources); non-trivial: three values or more; distinct by the texts of all steps")

CHECKS["C31"] = dict(parts=[dict(module="cxx", quick=4000, thorough=60000)],
  rule="C++ units of 1..12 generated items (namespaces of every kind, classes with bases, methods, operators, nested types, static, anonymous and friend members, scoped and opaque enums, linkage blocks, class, function, variable and alias templates with partial and full specializations, aliases, deduced types, references, lambdas), in five language versions, every scope's recorded declarations and types compared with the generator's account; installed C++ headers reflected twice; non-trivial: three comparisons or more; distinct by text")

CHECKS["C32"] = dict(parts=[dict(module="broken", quick=4000, thorough=80000)],
  rule="(a) 1..40 declarations with errors (about 220 forms: unknown and incomplete types, records and enums with erroneous, recursive, oversized and duplicate members, redefinitions, wrong attributes, initializers, bodies, templates, bases) between those of a generated C or C++ unit: what is recorded of the others has to be the generator's account, and of about 55 forms whose own type has an error nothing may be recorded; (b) generated units, erroneous declarations and rare language features damaged by 1..30 token edits; (c) units of rare features as they are; of every one the structure of the database, the library's answers about it and the end of the plug-in are checked; non-trivial: three recorded declarations or more; distinct by text")

CHECKS["C33"] = dict(parts=[dict(harness="c33", fuzz=False, san=["-fsanitize=thread"]), dict(harness="c33", fuzz=False, san=[], extra=("-O2",))],
  rule="two to ten tasks of 1..60 steps (databases built, indexed, named, written, read, merged and damaged; readers of 1..3 shared databases and a shared index; codecs; digests of several contexts; maps), each with choices of its own: (a) in as many threads with a drawn schedule of yields and pauses, under ThreadSanitizer and at full speed, (b) in one thread in drawn turns; every step's findings are those of the same task alone, and the shared databases are unchanged; non-trivial: at least two tasks and four steps; distinct by the tasks' findings")

CHECKS["C34"] = dict(parts=[dict(harness="c34")],
  rule="tasks of 1..40 steps of the kinds of C33 (databases, readers, codecs, digests, maps; failing reads and writes of files and damaged images among them) and sequences of printing calls, whose objects are all destroyed at the end: every block allocated meanwhile, as AddressSanitizer's allocation hooks see it, has been released and no more files are open (a case that leaves something is repeated, since the libraries below keep some buffers from the first use on); non-trivial: two steps or more; distinct by the task's choices")

# quick tier: multiples of the case counts written in the harnesses, so that each takes about half a minute on eight cores
QUICK_SCALE = dict(C01=12, C02=8, C03=15, C05=1.3, C06=2, C07=1.6, C10=2.5, C12=10, C13=7, C14=7, C15=5, C16=9, C17=6, C18=8, C19=6, C20=30, C22=8, C23=18, C24=40, C26=5, C34=12)

CHECKS["C05"]["parts"].append(dict(module="cycles"))
CHECKS["C07"]["parts"].append(dict(module="cycles"))

NOT_APPLICABLE = {}
