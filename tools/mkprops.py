#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text has one home)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Decoding BUFR data follows the data descriptors exactly",
  "Decoding an uncompressed BUFR message yields, for every subset and in order, exactly the variables its data descriptors call for (element descriptors, table D sequences, fixed and delayed replications, nested to any depth, and the width/scale/reference/string-length/local-descriptor/character-data operators), each with the value that its bits denote under the element's effective width, scale and reference. A field whose bits are all ones is an unset variable (delayed replication factors excepted), and operators affect only the elements between their activation and their cancellation, never another subset.",
  ["inputs", "programs"], "all descriptor sequences built from the supported descriptors, all data section contents, all subset counts",
  "The tests decode a fixed set of sample files and compare a few variables; combinations of nested replication, operators in the middle of sequences, all-ones and boundary values, and state carried from one subset to the next are not sampled.",
  ["wreport/bulletin/interpreter.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bufr/input.h", "wreport/opcodes.cc", "wreport/varinfo.cc", "wreport/tables.cc"],
  [("descriptor interpreter with an opcode stack and C-modifier state", "wreport/bulletin/interpreter.cc"), ("bit reader", "wreport/bufr/input.h"), ("binary to value conversion", "wreport/varinfo.cc")],
  [("opcode stack", "descriptors still to be interpreted", "bulletin/interpreter.h"), ("C modifiers", "scale/width/reference/string length changes in effect", "bulletin/interpreter.h"), ("bit cursor", "next bit of section 4", "bufr/input.h")],
  ["BufrBulletin::decode result", "Subset contents"])
p("C02", "BUFR encode then decode gives back the same bulletin",
  "For every bulletin whose variables match its data descriptors, encoding it to BUFR either fails with an error or produces a message that decodes to the same subsets: same variables in the same order, with the same set/unset state, values and attributes that the descriptors transmit (text up to its trailing padding). The bits written for each value are those that the BUFR format prescribes (most significant bit first, space-padded strings, all ones for missing), and a numeric value that does not fit the bits available is never silently altered.",
  ["inputs", "programs"], "all descriptor sequences, all variable values including missing and boundary values, all numbers of subsets, editions 2, 3 and 4",
  "The tests round-trip sample files and a few hand-built bulletins with ordinary values; missing strings and binary data, values at the edge of their range, reference-value overrides and operators at unusual bit alignments are not covered.",
  ["wreport/bufr_encoder.cc", "wreport/buffers/bufr.cc", "wreport/buffers/bufr.h", "wreport/bulletin/internals.cc", "wreport/bulletin/interpreter.cc", "wreport/varinfo.cc"],
  [("bit writer", "wreport/buffers/bufr.cc"), ("descriptor driven encoder", "wreport/bufr_encoder.cc"), ("value to binary conversion", "wreport/varinfo.cc")],
  [("partial byte", "bits not yet flushed to the output", "buffers/bufr.h"), ("current variable", "next variable of the subset to encode", "bulletin/internals.h")],
  ["BufrBulletin::encode bytes", "BufrBulletin::decode of them"])
p("C03", "Bitmapped quality and substituted values reach the right variables",
  "When a message carries quality information or substituted values through a data present bitmap, each transmitted value becomes an attribute of exactly the variable that the bitmap selects for it: the n-th value belongs to the n-th position marked present, counted over the element variables that precede the bitmap operator, and unmarked variables get nothing. Redefining, reusing or cancelling a bitmap follows the operators in the descriptor list, missing values add no attribute, and encoding reads the attributes back from the same variables.",
  ["inputs", "programs"], "all bitmaps, all mixes of quality/substitution operators, bitmap reuse and cancellation, attributes present or missing on any variable, plain and compressed",
  "A handful of sample files with one or two bitmaps are decoded; bitmaps with gaps, consecutive bitmaps, reuse after exhaustion and operators or character data interleaved with the referred variables are not enumerated.",
  ["wreport/bulletin/bitmaps.cc", "wreport/bulletin/interpreter.cc", "wreport/bufr/decoder.cc", "wreport/bufr_encoder.cc", "wreport/tables.cc"],
  [("bitmap to variable index resolution", "wreport/bulletin/bitmaps.cc"), ("current/last bitmap bookkeeping", "wreport/bulletin/bitmaps.cc")],
  [("current bitmap", "bitmap being iterated", "bulletin/bitmaps.h"), ("last bitmap", "bitmap available for reuse", "bulletin/bitmaps.h"), ("pending definition", "operator waiting for its bitmap", "bulletin/bitmaps.h")],
  ["attributes of decoded variables", "encoded bits"])
p("C04", "Associated fields become attributes and are written back unchanged",
  "While an associated-field operator is in effect every element is preceded by that many extra bits, which are decoded into the quality attribute that the declared significance prescribes (none if reserved or missing) and are encoded again from that attribute, all ones when the variable has none. The field applies from its declaration to its cancellation and to nothing else, and data following it stay aligned.",
  ["inputs", "programs"], "all significances, field widths 1..32, values, positions of the operator among other operators, replications and subsets",
  "Tests decode two sample files using significance 1 or 6; other significances, all-ones handling, cancellation inside replications and the encoding direction are not sampled.",
  ["wreport/bulletin/associated_fields.cc", "wreport/bulletin/interpreter.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bufr_encoder.cc"],
  [("significance to attribute mapping", "wreport/bulletin/associated_fields.cc"), ("field width state", "wreport/bulletin/interpreter.cc")],
  [("bit_count/significance", "associated field in effect", "bulletin/associated_fields.h")],
  ["attributes of decoded variables", "encoded bits"])
p("C05", "Compressed BUFR decodes to what each subset's values denote",
  "Decoding a compressed message gives every subset the variables of the descriptor list, with value base plus that subset's increment (unset when the base or the increment is all ones, equal in all subsets when the increment width is zero), strings taken from the per-subset text when present, and attributes likewise per subset. The result is the same as decoding an uncompressed message carrying those values.",
  ["inputs", "programs"], "all descriptor lists, all bases, increment widths and increments, numbers of subsets",
  "Tests decode a few compressed sample files; increment width 0 versus non-zero, missing increments, many subsets and compressed strings with short increments are not systematically covered.",
  ["wreport/bufr/input.cc", "wreport/bufr/decoder.cc", "wreport/subset.cc"],
  [("base+increment decoding", "wreport/bufr/input.cc"), ("dispatch of a value to all subsets", "wreport/bufr/decoder.cc")],
  [("subsets", "all the subsets, extended in lockstep", "bufr/decoder.h")],
  ["BufrBulletin::decode result"])
p("C06", "Malformed or truncated BUFR input is rejected, never misread",
  "For any byte sequence, BUFR decoding terminates and either reports an error through the library's exceptions or returns a bulletin computed only from the bytes given, without reading outside them. A message whose data section ends before its descriptors are satisfied, or whose sections or end marker are damaged, is reported as an error.",
  ["inputs", "fault_sequences"], "all byte strings: truncations, corrupted lengths, counts, descriptors and operators of valid messages",
  "Only three hand-picked corrupted files are tested, and reading a few bytes past a buffer does not make a test fail.",
  ["wreport/bufr/input.h", "wreport/bufr/input.cc", "wreport/bufr/decoder.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/opcodes.h"],
  [("section bounds checks", "wreport/bufr/input.cc"), ("bit reader bounds check", "wreport/bufr/input.h")],
  [("section offsets", "starts of the sections", "bufr/input.h")],
  ["exceptions", "sanitizer reports"])
p("C07", "BUFR header fields and sections survive in every edition",
  "Header fields (edition, centre and subcentre, tables, categories, update number, reference time, optional section, compression flag, descriptors) decode from their documented positions in editions 2, 3 and 4, and encoding writes a message whose declared total and section lengths match its content and whose header fields decode back to the same values wherever the edition can represent them (an optional section is padded to an even length). Decoding only the header gives the same fields as decoding the whole message.",
  ["inputs", "configurations"], "all header field values, editions, presence and sizes of the optional section, section paddings",
  "Tests check header fields of sample files; extreme field values, odd-sized optional sections, oversized sections and all editions are not crossed.",
  ["wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bufr_encoder.cc", "wreport/bulletin.cc"],
  [("section 1 codecs per edition", "wreport/bufr/decoder.cc"), ("section length computation", "wreport/bufr_encoder.cc")],
  (), ["BufrBulletin header fields", "encoded bytes"])
p("C08", "Decoding CREX follows descriptors, signs, missing marks, check digits",
  "Decoding a CREX message yields for each subset exactly the variables its descriptors call for, with replications expanded, slash-filled fields unset, signs and scales honoured and text preserved. Subset and section separators are honoured, and when check digits are declared they are verified and a wrong digit is an error.",
  ["inputs", "programs"], "all descriptor lists, all field contents, numbers of subsets, check digits on or off, any line wrapping the format allows",
  "Tests decode a handful of sample CREX files; negative and missing values in every position, check digits over many fields and multiple subsets are not sampled.",
  ["wreport/crex_decoder.cc", "wreport/bulletin/interpreter.cc", "wreport/vartable.cc"],
  [("CREX tokenizer and check digit tracking", "wreport/crex_decoder.cc")],
  [("expected check digit", "next check digit", "crex_decoder.cc")], ["CrexBulletin::decode result"])
p("C09", "CREX encode then decode gives back the same bulletin",
  "For every bulletin whose variables match its data descriptors, encoding it to CREX either fails with an error or produces a message that decodes to the same header fields that CREX carries, the same descriptors and the same subsets, with the same values and unset marks (text up to its trailing blanks, delayed replication factors as B31012), with or without check digits. A value that does not fit its field is never silently altered.",
  ["inputs", "programs"], "all descriptor lists, all values including negatives, missing and boundary values, numbers of subsets",
  "Round trips are tested on a few sample files only.",
  ["wreport/crex_encoder.cc", "wreport/buffers/crex.cc", "wreport/buffers/crex.h", "wreport/crex_decoder.cc"],
  [("CREX field formatting", "wreport/buffers/crex.cc")], (), ["CrexBulletin::encode text", "CrexBulletin::decode of it"])
p("C10", "Malformed or truncated CREX input is rejected, never hangs",
  "For any byte sequence, CREX decoding terminates and either reports an error through the library's exceptions or returns a bulletin computed only from the bytes given, without reading outside them.",
  ["inputs", "fault_sequences"], "all byte strings, in particular truncations and single-character corruptions of valid messages",
  "The tests contain two invalid CREX messages.",
  ["wreport/crex_decoder.cc", "wreport/bulletin/interpreter.cc"],
  [("end of data checks in the tokenizer", "wreport/crex_decoder.cc")], (), ["exceptions", "sanitizer reports", "time limit"])
p("C11", "Reading a file returns every message, intact and in order",
  "Reading bulletins from a stream returns each BUFR or CREX message in it, in order, byte for byte, with the offset at which it starts, whatever bytes lie before, between and after the messages, and then reports the end of the stream. A message cut short by the end of the file is reported as an error, not returned and not skipped silently.",
  ["inputs", "histories"], "all sequences of messages and junk (including junk resembling the start of a message), truncation at every byte",
  "Tests read files containing one or a few well-formed messages; partial signatures in the junk and truncation points are not enumerated.",
  ["wreport/bulletin.cc"],
  [("signature search and length handling", "wreport/bulletin.cc")],
  [("stream position", "next byte to read", "bulletin.cc")], ["read() results and offsets"])
p("C12", "Out-of-range values are handled by the chosen policy, never stored",
  "Setting a variable to a value outside its declared range (or to not-a-number), through any setter and any numeric type, raises a domain error and leaves the variable unset by default, silently unsets it when silent errors are selected, stores the nearest limit when clamping is selected (not-a-number, which has none, is still a domain error), and otherwise defers to the registered hook; when several policies are selected the first of these that applies wins. A value within range is stored under every policy, and a variable never holds a value outside its range.",
  ["inputs", "configurations", "histories"], "all variables of the tables, all integer, floating point and text values, all policy combinations",
  "Tests try a few values on a couple of variables per policy; huge doubles, text overflowing an integer, values just beyond the limits after scaling are not covered.",
  ["wreport/var.cc", "wreport/varinfo.cc", "wreport/options.h"],
  [("checked assignment", "wreport/var.cc"), ("range computation", "wreport/varinfo.cc")],
  [("policy flags", "thread-local domain error policy", "options.h")], ["Var setters and getters", "exceptions"])
p("C13", "Variables return what was stored, also through text",
  "Whatever in-range value is stored in a variable, reading it back as integer, floating point or text gives that value at the variable's declared scale, strings up to the field length and binary data up to the field width included; formatting a number or a string and setting a variable from the formatted text restores the same value. Reading an unset variable or asking for an incompatible type is an error, with a default value returned where one is given.",
  ["inputs"], "all variables, all in-range values, all scales from -16 to 16, all string lengths, all getter/setter pairs",
  "Tests check a few dozen hand-picked values.",
  ["wreport/var.cc", "wreport/var.h", "wreport/varinfo.cc"],
  [("typed getters and setters", "wreport/var.cc"), ("decimal scaling", "wreport/varinfo.cc")], (), ["Var getters and setters"])
p("C14", "Attributes behave as an ordered map from code to value",
  "After any history of attribute insertions, replacements, removals, copies between variables and clearings, the attributes of a variable are exactly the last value set for each code not removed since, visited in increasing code order, and looked up by code. Attributes have no attributes of their own, and changing a variable's attributes never changes its value or another variable.",
  ["histories"], "all sequences of attribute operations on several variables",
  "Tests perform a few fixed sequences.",
  ["wreport/var.cc", "wreport/var.h"],
  [("sorted attribute chain", "wreport/var.cc")], [("attribute chain", "attributes sorted by code", "var.h")], ["enqa", "next_attr"])
p("C15", "Copy, move and assignment of variables keep value semantics",
  "Copying or assigning a variable makes the target equal to the source in descriptor, value and attributes and leaves the source untouched and independent; moving transfers them. Equality holds exactly when code, value and attributes are the same, agrees with the reported difference count, and survives any history of assignments between variables of different kinds.",
  ["histories"], "all sequences of construction, copy, move, assignment, set and unset over variables of all types and lengths",
  "Tests copy and move single variables of the same kind once; assignments across types and lengths are never made.",
  ["wreport/var.cc", "wreport/var.h", "wreport/subset.cc"],
  [("copy/move constructors and assignments", "wreport/var.cc")], [("value union", "owned buffer or integer", "var.h")], ["Var state after each operation", "sanitizer reports"])
p("C16", "Altered descriptors are exact, stable and history independent",
  "Asking a table for an element with altered scale, width or reference gives a descriptor with exactly those parameters and everything derived from them (type, length, range), the same whatever was asked before, and leaves the original entry and all descriptors handed out earlier unchanged and valid. Impossible alterations are refused with an error.",
  ["histories", "inputs"], "all sequences of alteration requests over all entries of a table",
  "Tests request three alterations of two entries.",
  ["wreport/vartable.cc", "wreport/varinfo.cc"],
  [("alteration chain", "wreport/vartable.cc"), ("range computation", "wreport/varinfo.cc")], [("alterations", "cached altered entries", "vartable.cc")], ["Vartable::query_altered"])
p("C17", "Table selection finds the best match, independent of history",
  "For any table identification the library selects, among the tables installed in all configured directories, the exact table if present and otherwise the acceptable one that the documented preference order ranks closest, or reports that none exists. The answer does not depend on earlier lookups, nor on the order in which the directories list their files, and takes into account directories added while the program runs.",
  ["histories", "configurations", "inputs"], "all table identifications, all sets of installed tables, all lookup orders",
  "Tests look up about ten identifications in the one installed set.",
  ["wreport/internals/tabledir.cc", "wreport/tableinfo.cc"],
  [("acceptability and closest match", "wreport/tableinfo.cc"), ("lookup cache", "wreport/internals/tabledir.cc")], [("lookup caches", "past answers", "internals/tabledir.cc")], ["Tabledirs::find_bufr/find_crex", "Vartable::get_bufr"])
p("C18", "Loaded tables say exactly what the table files say",
  "After loading a B or D table, every code in the file is found with the description (up to 63 characters), unit, scale, reference, width, length and type (or the expansion) written on its line, codes not in the file are reported missing, and iteration visits all of them in order. A malformed file is refused with an error instead of being loaded in part.",
  ["inputs"], "all table files of the documented layouts, all codes",
  "Tests query a handful of codes of the installed tables.",
  ["wreport/vartable.cc", "wreport/dtable.cc", "wreport/varinfo.cc"],
  [("fixed-column parsers", "wreport/vartable.cc"), ("D table parser and binary search", "wreport/dtable.cc")], (), ["Vartable::query", "DTable::query"])
p("C19", "Unit conversions are consistent and invert each other",
  "Converting a value between two supported units applies the factor and offset relating them; converting back recovers the value, converting to the same unit changes nothing, and an unsupported pair is refused with an error. Setting a variable from another one converts its value in this way.",
  ["inputs"], "all pairs of units, all values",
  "Tests convert one or two values for some of the pairs.",
  ["wreport/conv.cc", "wreport/var.cc"],
  [("conversion repository", "wreport/conv.cc")], (), ["convert_units", "Var::setval"])
p("C20", "Conversions between coded tables agree in both directions",
  "Converting a present- or past-weather, cloud, vertical significance or observation-time code between its synoptic and table forms gives the documented code for every valid input, an error or the documented missing value for every invalid one, and conversion forward then backward returns the starting code wherever an inverse is documented.",
  ["inputs"], "all code values of each conversion",
  "Tests check a few codes of each table.",
  ["wreport/conv.cc", "wreport/codetables.h"],
  [("code table functions", "wreport/conv.cc")], (), ["convert_* functions"])
p("C21", "Scoped options are per thread and always restored",
  "Library options and diagnostic note targets set in a scope take effect in that scope only: when it ends, normally or by an exception and however scopes nest, the previous setting is back. A thread's options never affect another thread.",
  ["schedules", "histories", "fault_sequences"], "all nestings of overrides, exits by exception, interleavings of threads",
  "Tests open a single override in a single thread.",
  ["wreport/options.h", "wreport/options.cc", "wreport/notes.h", "wreport/notes.cc"],
  [("scope guards", "wreport/options.h"), ("thread-local storage", "wreport/options.cc")], [("option values", "per thread settings", "options.cc")], ["option values", "behaviour of setters"])
p("C22", "The descriptor validator agrees with the encoder",
  "Validating a bulletin against its data descriptors accepts every subset produced by decoding whose values fit their fields, and refuses a subset in which a variable that the descriptors call for is missing, misplaced or has another code, or does not fit. A BUFR subset that the validator accepts can be encoded.",
  ["inputs", "programs"], "all descriptor lists and subsets, with every kind of single mismatch",
  "Tests validate the sample files and one mismatch.",
  ["wreport/bulletin/dds-validator.cc", "wreport/bulletin/internals.cc", "wreport/bulletin/interpreter.cc"],
  [("validation visitor", "wreport/bulletin/dds-validator.cc")], (), ["bulletin::DDSValidator", "BufrBulletin::encode"])
p("C23", "Comparing bulletins finds every difference and only differences",
  "Comparing a bulletin with an equal one reports no difference, and comparing it with one that differs in any header field (whether it is to be encoded compressed aside), optional section, descriptor, number of subsets or variables, variable code, value or attribute reports at least one difference. The result does not depend on the order of the two.",
  ["inputs"], "all pairs of bulletins, differing in any one place",
  "Tests compare bulletins with their own re-encoding.",
  ["wreport/bulletin.cc", "wreport/subset.cc", "wreport/var.cc"],
  [("field by field comparison", "wreport/bulletin.cc")], (), ["Bulletin::diff"])
p("C24", "Inspecting a message never changes the outcome",
  "Decoding with verbose output, printing, dumping or computing features of a bulletin gives the same result as plain decoding and leaves the bulletin unchanged, and bulletins with the same contents give the same answers; encoding a bulletin leaves it unchanged and encoding it again gives the same bytes.",
  ["inputs", "histories"], "all messages, all sequences of changes and inspections",
  "Tests never compare the results of inspected and plain decoding.",
  ["wreport/bulletin.cc", "wreport/bulletin/dds-printer.cc", "wreport/bulletin/dds-scanfeatures.cc", "wreport/bufr/decoder.cc", "wreport/subset.cc"],
  [("const interfaces and verbose decoder subclass", "wreport/bufr/decoder.cc")], (), ["bulletin contents before and after"])
p("C25", "Descriptor codes and their text forms correspond one to one",
  "Formatting any descriptor code and parsing the text gives the code back; parsing accepts exactly the documented spellings and refuses malformed text with an error. Descriptor lists can be sliced and consumed without losing, duplicating or inventing codes, and reading past their end is an error.",
  ["inputs"], "all 65536 codes, all short strings, all descriptor list operations",
  "Tests parse a few codes.",
  ["wreport/varinfo.cc", "wreport/varinfo.h", "wreport/opcodes.h", "wreport/opcodes.cc"],
  [("varcode parser and formatter", "wreport/varinfo.cc"), ("opcode ranges", "wreport/opcodes.h")], (), ["varcode_parse", "varcode_format", "Opcodes"])
p("C26", "The Python bindings show the same data as the C++ library",
  "Looking up tables and descriptors, creating, setting, reading, copying and comparing variables and attributes, and converting units from Python gives the same values and refuses the same requests (as Python exceptions) as the C++ library, for all types of variable, and never crashes the interpreter.",
  ["inputs", "histories"], "all variables, values and operation sequences through the Python API",
  "The Python tests use a dozen values.",
  ["python/wreport.cc", "python/var.cc", "python/varinfo.cc", "python/vartable.cc", "python/common.h"],
  [("Python type wrappers", "python/var.cc")], (), ["wreport.Var, wreport.Vartable, wreport.convert_units"])
p("C27", "The wrep program reports every message of its files",
  "For each file given and each message in it, in order, wrep writes what the requested action shows of the message as the library decodes it: its dump, structure, descriptors, tables, features, or with --print a line per subset with the first variable of each requested code. Messages that cannot be decoded are reported on standard error with file and offset and do not keep the others from being shown; --unparsable copies to standard output, byte for byte, exactly the messages that cannot be decoded. Short and long options mean the same, and a wrong command line is refused with exit status 1 and nothing on standard output.",
  ["inputs", "programs"], "all command lines, all files of messages, undecodable messages and noise",
  "No test runs the program.",
  ["src/wrep.cc", "src/iterate.cc", "src/input.cc", "src/output.cc", "src/unparsable.cc", "src/info.cc", "src/options.h"],
  [("iteration over the messages of files", "src/iterate.cc"), ("handlers of decoded bulletins", "src/output.cc"), ("copy of raw messages", "src/unparsable.cc")], (), ["standard output, standard error and exit status of wrep"])
p("C28", "Variables read from Lua are those of the C++ library",
  "A variable handed to Lua has the same code, integer, decimal and text value there as in C++, and nil where it has none; reading a value as a type it does not have, calling the methods on something that is not a variable, or without arguments, is a Lua error and never a crash, and leaves variable and interpreter stack as they were.",
  ["inputs", "histories"], "all variables after any history of operations, all methods",
  "The Lua test reads three variables.",
  ["wreport/var-lua.cc", "wreport/utils/lua.h"],
  [("Lua methods", "wreport/var-lua.cc")], (), ["Var::lua_push", "Var::lua_check", "methods of wreport.var"])
p("C29", "Subsets hold exactly what was stored in them",
  "A subset holds, in order, the variables stored in it: a copy of the variable given, or a new one with the descriptor that the subset's own tables have for the code and the value given. A variable that cannot be made, because of an unknown code or a value that does not fit, is refused and adds nothing. A data present bitmap appended to a subset marks, among the first n data variables, exactly those that have the attribute asked for, and the count returned is that of the marks. Copied and moved subsets keep variables, attributes and tables, and changing one does not change another.",
  ["inputs", "histories"], "all sequences of operations on subsets",
  "Tests build a few subsets in order and never copy or compare them.",
  ["wreport/subset.cc", "wreport/subset.h", "wreport/tables.cc"],
  [("store and bitmap functions", "wreport/subset.cc"), ("descriptors of bitmaps", "wreport/tables.cc")], [("variables of a subset", "what was stored", "subset.h")], ["Subset contents, tables, append_dpb, diff"])
p("C30", "Descriptions of messages name everything their descriptors use",
  "The features computed for a message are exactly the operators (with the local descriptor they introduce) and the kinds of replication found in its descriptors, groups expanded. The listing of its descriptors shows them in order, with the name and unit the tables give, each group and replication being followed by its contents, indented. Both are available for all messages that can be decoded.",
  ["inputs"], "all lists of descriptors",
  "Tests scan a handful of messages.",
  ["wreport/bulletin/dds-scanfeatures.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin.cc"],
  [("features", "wreport/bulletin/dds-scanfeatures.cc"), ("listing", "wreport/bulletin/interpreter.cc")], (), ["ScanFeatures", "Bulletin::print_datadesc", "wrep --features, --dds"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
