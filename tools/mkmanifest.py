#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below and analyzer/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer"))
import registry

G = "protox-parse/src/generate/mod.rs"
PA = "protox-parse/src/parse/mod.rs"
LX = "protox-parse/src/lex/mod.rs"
AS = "protox-parse/src/ast/mod.rs"
LI = "protox-parse/src/generate/lines.rs"
CO = "protox-parse/src/parse/comments.rs"
CM = "protox/src/compile/mod.rs"


def prop(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))


SNAP = "The existing tests compare snapshots of a few dozen inputs; "
ALLSRC = "every source text accepted by the parser, of any size, nesting and combination of constructs"

PROPERTIES = [
    prop("P01", "Accepted language is exactly the supported proto2/proto3 grammar",
         "The parser accepts a source file if and only if its token sequence belongs to the protobuf grammar (proto2 and proto3, including groups, maps, oneofs, extensions, reserved ranges and names, option lists and aggregate values, services and streaming methods). No token sequence outside the grammar is accepted, and no sequence inside it is rejected with a syntax error. Each construct is represented in the syntax tree by exactly the tokens that form it (names, types, labels, numbers, options, streaming and visibility markers go to their own place, in source order).",
         ["inputs"], "every sequence of tokens, of any length and nesting", SNAP + "the language is infinite and each production can be broken for a token combination no snapshot contains.",
         [PA, AS], [("recursive-descent parser", PA)]),
    prop("P02", "Descriptors carry every declaration of the source, once, in order and unaltered",
         "For every accepted file the returned descriptor contains one element for each declared import, message, field, enum, enum value, oneof, extension, service and method, in source order and in the list of the enclosing declaration, and nothing else. Names, field numbers, type names, labels, extendees, streaming flags, option names and option values are those written in the source.",
         ["inputs"], ALLSRC, SNAP + "any field of any descriptor kind can go wrong for a combination of constructs (nesting, extensions in oneofs, groups) that no snapshot contains.",
         [G, AS], [("descriptor generator", G)]),
    prop("P03", "Source locations have the right paths and spans",
         "For every accepted file the source code info holds exactly one kind of location for every declaration and for each of its named parts (name, number, label, type, type name, extendee, default value, options, ranges, reserved names and so on), at the path that leads to that part in the returned descriptor. Its span is the extent of the source text of that part, and no location has a path that does not exist in the descriptor; locations with equal paths (several statements of one kind) appear in source order.",
         ["inputs"], ALLSRC, SNAP + "paths contain indices that depend on what else the file declares; only a few nestings are sampled.",
         [G, LI], [("Context::path push/pop", G), ("LineResolver", LI)]),
    prop("P04", "Comments are attached to the declaration they document and to nothing else",
         "The leading, trailing and leading detached comments of a declaration are recorded on the location of that declaration and of no other. Locations of parts of a declaration (names, numbers, types, labels) carry no comments, and a comment is never attached both as a trailing comment of one declaration and as a leading comment of the next.",
         ["inputs"], "every accepted source text with comments anywhere", SNAP + "comment placement is sampled for a handful of layouts.",
         [PA, CO, G], [("Comments", CO), ("add_comments_for", G)]),
    prop("P05", "A file is rejected exactly when a diagnostic is reported",
         "Parsing returns an error if and only if at least one diagnostic was recorded, and then every recorded diagnostic is part of the error. A descriptor is never returned for a file for which any stage has found a problem.",
         ["inputs"], "every source text, in particular those with errors after which parsing continues", SNAP + "recovery paths after a first error are hardly sampled.",
         [PA, G, "protox-parse/src/lib.rs", "protox-parse/src/error.rs"], [("parse_file / generate_file result", G)]),
    prop("P06", "Parsing terminates and always makes progress",
         "Parsing terminates on every input: every repetition in the lexer, the parser's error recovery and the descriptor generator consumes at least one token or element in every round, and stops at the end of input.",
         ["inputs"], "every source text, including arbitrary garbage", SNAP + "non-termination needs a particular token at a particular recovery point.",
         [PA, LX], [("skip_until / bump", PA)]),
    prop("P07", "No input makes the parser panic",
         "Parsing never panics: for every input string it returns either a descriptor or an error, with no arithmetic overflow, out-of-bounds index, slicing inside a character or failed internal assertion.",
         ["inputs"], "every source text up to the size limit", SNAP + "each panic site needs a specific input; fuzzing samples some.",
         [PA, LX, G, LI, AS], [("unreachable!/expect/index sites", PA)]),
    prop("P08", "Numeric ranges are enforced exactly",
         "A field number, and each bound of a message's reserved or extension range, is accepted if and only if it is in 1..=536870911; an enum value number, and each bound of an enum's reserved range, if and only if it fits a signed 32-bit integer. An accepted number is recorded with its exact value and sign.",
         ["inputs"], "every integer literal in every position", SNAP + "the boundary values of each position are not all sampled.",
         [G, AS], [("generate_message_number / generate_enum_number / Int::as_i32", G)]),
    prop("P09", "Labels, scopes and syntax version are enforced and recorded",
         "A field directly in a proto2 message or extension must have a label unless it is a map field, a field of a oneof must have none, and an extension may not be required; a proto3 field may be neither required nor a group; a map field may only appear directly in a message, never with a label, and only with an integral, boolean or string key. Every violation is rejected, nothing else is rejected for its label, scope or syntax, and the recorded label is the written one, or optional where none is written, or repeated for maps.",
         ["inputs"], "every combination of label, kind of field, enclosing declaration and syntax version", SNAP + "the combinations are only partly sampled.",
         [G], [("generate_field_descriptor", G), ("FieldScope", G)]),
    prop("P10", "Default values are converted exactly or rejected",
         "A `default` option is accepted only for a non-repeated, non-map, non-group field of a proto2 file, and only with a literal of the field's type and range. The recorded default is the text of the written value: exact decimal integers, `inf`/`-inf`/`nan`, `true`/`false`, the string, the escaped bytes or the enum value name, and the option is not recorded a second time as an ordinary option.",
         ["inputs"], "every pair of field type and literal", SNAP + "range ends, signs and mismatching literal kinds are not all sampled for every type.",
         [G, AS], [("generate_field_default_value", G)]),
    prop("P11", "Scalar type keywords and type names are told apart and mapped one to one",
         "Each of the fifteen scalar type keywords, written as the type of a field, map key or map value, yields that type's code and no type name; anything else in a type position yields the written (dotted) name and no type code.",
         ["inputs"], "every type position of every source text", SNAP + "a mix-up between two of the fifteen types shows only in a position where that type is used.",
         [PA, AS, G], [("parse_field_type", PA), ("Ty::proto_ty", AS)]),
    prop("P12", "Import paths are validated exactly",
         "An import is accepted if and only if its path is relative, has no empty, '.' or '..' component between slashes and contains no backslash; so no import can name a file outside the include roots.",
         ["inputs"], "every string literal after `import`", SNAP + "the language of bad paths is infinite.",
         [PA], [("is_valid_import", PA)]),
    prop("P13", "Option names and values are recorded completely and unaltered",
         "For every option the uninterpreted option has one name part per written part, in order and with its extension flag, and exactly one value field holding the written value: identifiers, positive and negative integers, floats, the bytes of strings, or for an aggregate value the text of all its tokens in order, separated so that it reads back as the same tokens.",
         ["inputs"], "every option statement and option list", SNAP + "values and nestings are sampled.",
         [G, PA, AS], [("generate_option_value", G), ("parse_text_format_message", PA)]),
    prop("P14", "Tokens are recognised exactly as the lexical grammar says, with their value",
         "The source text is cut into tokens as the lexical grammar says: identifiers, decimal, octal and hexadecimal integers, floating-point literals, string literals, punctuation, comments and white space, each as long as it can be. An integer token has the value of its digits in its base, a float token the nearest double, and a string the bytes it stands for after escapes (octal, hexadecimal, single-character and Unicode) are replaced, ending at the first unescaped quote like the one it began with. A malformed token - an integer above 2^64-1, a number directly followed by a letter, an octal number with a digit 8 or 9, an escape out of range or unknown, a newline or NUL in a string, an unterminated string or block comment, a nested block comment, a float suffix or # comment outside text format - is always reported as an error and never silently accepted; nothing else is.",
         ["inputs"], "every source text, byte by byte", SNAP + "the tests lex a few dozen texts; a slip in one byte class, one escape or one length shows only for texts that contain it.",
         [LX], [("Token (derive Logos)", LX), ("int / float / string / block_comment / line_comment", LX)]),
    prop("P15", "Reserved names and group names are validated exactly",
         "A reserved name is accepted if and only if it is an identifier ([A-Za-z_][A-Za-z0-9_]*); a group name is accepted if and only if it is an identifier beginning with a capital letter.",
         ["inputs"], "every string literal in a reserved statement and every group name", SNAP + "each character position and class would have to be tried.",
         ["protox-parse/src/case.rs", PA], [("is_valid_ident / is_valid_group_name", "protox-parse/src/case.rs")]),
    prop("P16", "Results depend on the sources alone and nothing is left behind",
         "Parsing the same text under the same name gives the same descriptor or the same error every time, on every machine and in every process, whatever was parsed before: it reads nothing but its arguments and changes nothing. Compiling reads the files it looks up and otherwise depends on nothing and changes nothing either; only the command line tool writes, and only its output.",
         ["inputs", "histories"], "every source text, and every sequence and interleaving of calls", "a test runs once, in one process, in one order; dependence on hash seeds, environment or earlier calls does not show.",
         [PA, G, LX, LI, CM, "protox/src/file/mod.rs"], [("parse", "protox-parse/src/lib.rs"), ("Compiler", CM)]),
    prop("P17", "Oversized files are rejected before offsets can overflow",
         "A source longer than i32::MAX bytes is rejected with a dedicated error before anything is read from it, and every shorter source is processed, so that every line, column and offset fits a signed 32-bit integer.",
         ["inputs"], "source texts of every length", "a two-gigabyte input is not part of any test suite.",
         ["protox-parse/src/lib.rs", "protox-parse/src/parse/mod.rs"], [("parse", "protox-parse/src/lib.rs")]),
    prop("P18", "Errors name their file and position and keep all diagnostics",
         "A parse error carries the file name it was called with, the source text and every recorded diagnostic; its span is that of the first diagnostic that has one, and its accessors return these values unaltered.",
         ["inputs"], "every rejected source text", SNAP + "the accessors are tested for single errors only.",
         ["protox-parse/src/error.rs", "protox-parse/src/lib.rs"], [("ParseError", "protox-parse/src/error.rs")]),
    prop("P19", "Aggregate option values are read in text format, and only they",
         "Every token between the braces of an aggregate option value is read with text-format rules, no other token of the file is; nested messages, in braces or angle brackets, end at their own closing bracket, so that the aggregate ends exactly at the brace that matches its first one.",
         ["inputs"], "every aggregate value, at every nesting depth", SNAP + "nesting and look-ahead at the mode switch are sampled for a handful of layouts.",
         [PA, LX], [("text_format_mode", LX), ("parse_text_format_message", PA)]),
    prop("P20", "Map, group and optional fields expand into the right synthetic declarations",
         "A map field yields a nested map-entry message with the key and value fields numbered 1 and 2, a group yields a nested message with the group's body and a field with the lower-case name, and each proto3 optional field yields exactly one synthetic oneof containing it, placed after all declared oneofs. Each oneof index names the oneof the field belongs to, and every type name refers to the generated message.",
         ["inputs"], ALLSRC, SNAP + "indices depend on the number and order of all other declarations in the message.",
         [G, "protox-parse/src/case.rs"], [("generate_message_body_descriptor / generate_field_descriptor", G)]),
    prop("P21", "Reserved and extension ranges keep their bounds and options",
         "Range ends are exclusive in messages and inclusive in enums: a single number n becomes n..n+1 or n..n, `a to b` ends at b+1 or b, and `max` is the largest number of the number space (the larger space for messages in message-set format). Every range of a declaration is recorded once, in order, and every extension range carries the options written after the list.",
         ["inputs"], ALLSRC, SNAP + "few ranges, and no combination with message-set format, are sampled.",
         [G], [("generate_*_reserved_range / generate_extension_range", G)]),
    prop("P22", "Line and column of every offset are exact",
         "The line of a byte offset is the number of newlines before it and its column the number of bytes since the last of them (or the start of the file), both from zero. A span is recorded as [line, start column, end column] if it begins and ends on one line and as [start line, start column, end line, end column] otherwise.",
         ["inputs"], "every source text and every offset in it, including offsets at line starts, line ends and the end of the file", SNAP + "offsets exactly at a line start or end are rarely sampled.",
         [LI], [("LineResolver", LI)]),
    prop("P23", "Imports are loaded once, dependencies first, and cycles are rejected",
         "When a file is opened, it and everything it imports, directly or not, is loaded exactly once however often it is imported, and a file is added to the descriptor pool only after all its imports were, so the list of files is in dependency order. A file that imports itself, directly or through others, and a file that lists one import twice, is rejected; compilation of a file succeeds only if every import was found, parsed and checked, and fails only because one of these operations failed. After a failure every file listed is complete, so the compiler remains usable.",
         ["inputs", "histories"], "every import graph (chains, diamonds, cycles, missing files) and every sequence of open_file calls on one compiler", "the tests try a handful of import graphs of at most four files; a fault in the bookkeeping needs a particular shape and order of opening.",
         [CM], [("Compiler::open_file / add_import / check_file", CM)]),
    prop("P24", "The output contains the requested files and options, no more and no less",
         "The file descriptor set holds every requested file in dependency order, and the imported ones if and only if include_imports is set; source code info is present if and only if include_source_info is set. A file that is both imported and requested counts as requested, whatever the order. The encoded form differs from it only in keeping unknown extension options. Each setter changes its own setting only, `compile` and `open_files` handle every file given, and the command line tool writes this encoded set to the path given with -o, after all files were compiled, and exits with success only then.",
         ["inputs", "histories"], "every sequence of open_file, include_imports and include_source_info calls followed by any output, and every command line", "the combinations of settings, orders of opening and kinds of output are only partly sampled.",
         [CM, "protox/src/lib.rs", "protox/src/main.rs"], [("file_descriptor_set / encode_file_descriptor_set", CM), ("main", "protox/src/main.rs")]),
    prop("P25", "Files are looked up in the documented order",
         "A chain of resolvers asks its members in the order they were added and uses the first answer; only \"not found\" makes it go on to the next, any other error ends the search. A new compiler looks in the include paths in the order given and then among the standard google/protobuf files, so a file of an include path shadows a bundled one. An include path opens the file of that name joined to its root and nothing else; the bundled resolver knows exactly the twelve standard files, each with its own content; a descriptor set resolver returns the file with exactly the name asked for. Boxed resolvers behave like the resolver in the box.",
         ["inputs"], "every list of resolvers, every name asked for and every outcome of each resolver", "the tests chain at most two resolvers and never see errors other than not-found in the middle of a chain.",
         ["protox/src/file/chain.rs", "protox/src/file/include.rs", "protox/src/file/google.rs", "protox/src/file/descriptor_set.rs", CM],
         [("ChainFileResolver", "protox/src/file/chain.rs"), ("GoogleFileResolver", "protox/src/file/google.rs"), ("IncludeFileResolver", "protox/src/file/include.rs"), ("DescriptorSetFileResolver", "protox/src/file/descriptor_set.rs")]),
    prop("P26", "Paths on the command line get the right, unambiguous import name",
         "A file requested by path gets the name of that path relative to the include root that contains it, its components joined with '/', with no '.', '..', root or prefix component and nothing that is not Unicode in it; a path outside every root is rejected unless it is itself a valid name below one. If the name resolves to a different file than the path, because an earlier include path has a file of that name, the request is rejected as shadowed; two paths are the same if and only if their components are, ignoring '.'.",
         ["inputs"], "every path and every list of include roots", "the languages of paths and roots are infinite; the tests try a few.",
         ["protox/src/file/include.rs", CM], [("path_to_file_name / strip_prefix / check_shadow", "protox/src/file/include.rs")]),
    prop("P27", "A loaded file is what was read, and failures to read are classified",
         "File::open returns the path, the complete text and the descriptor of exactly the file at that path, parsed under the name asked for. A missing file is reported as not found, invalid UTF-8 and a file above 2147483647 bytes by their own errors, and every other failure of the operating system as an open error with its cause; a syntax error as a parse error. Files made from a source or a descriptor carry exactly that, and the accessors of a file and of its metadata return what it was made with.",
         ["inputs"], "every file name, content and operating system failure", "failures of the operating system at each call cannot be provoked in unit tests.",
         ["protox/src/file/mod.rs"], [("File::open", "protox/src/file/mod.rs")]),
    prop("P28", "Files decoded from descriptor sets keep their bytes and their options",
         "Decoding a descriptor set yields one file for every entry, in order and with exactly the bytes of the entry, so options of unknown extensions survive; a malformed set is rejected. A file that came with encoded bytes is added to the descriptor pool with those bytes, one without is added as its descriptor.",
         ["inputs"], "every byte string given as a file descriptor set", "the tests decode one well-formed set; unknown fields, truncation and several entries are not combined.",
         ["protox/src/file/descriptor_set.rs", "protox/src/file/mod.rs", CM], [("DescriptorSetFileResolver::decode", "protox/src/file/descriptor_set.rs"), ("File::decode_file_descriptor_proto", "protox/src/file/mod.rs")]),
    prop("P29", "Errors say what failed, in which file and at which import",
         "is_file_not_found, is_parse and is_io are true of exactly the errors of that kind, and `file` returns the name of the file the error is about. A file that cannot be imported is reported as a missing import of the importing file, at the span of that import statement and with its source; a duplicated import likewise at its own statement; an import cycle is reported as such; a failed check with the text of the checked file. An error is converted to the error type without losing its cause, and is_file_not_found stays recognisable to the chain of resolvers.",
         ["inputs"], "every error of every operation, at every import statement", "most error kinds are tested for their message once, the predicates for few kinds.",
         ["protox/src/error.rs", CM], [("Error", "protox/src/error.rs"), ("find_import_span", CM)]),
    prop("P30", "Diagnostics point at, and name, the construct that is wrong",
         "The position of every diagnostic of the parser is that of the token, label, number, value or declaration that breaks the rule, not of a neighbour of it: an unexpected token is reported at that token, and the text of it is what the diagnostic says was found; a missing token is reported at the end of the file if and only if the file ends there; a number out of range, a repeated label, an invalid name or default value at that number, label, name or value; a duplicate at both of its places. A token the diagnostic names in quotes as expected is one the grammar allows there.",
         ["inputs"], "every invalid file, with every token, comment and construct before the error", "the tests compare the diagnostics of a few dozen invalid files; which construct is pointed at depends on the path to the error.",
         ["protox-parse/src/parse/mod.rs", "protox-parse/src/generate/mod.rs", "protox-parse/src/lex/mod.rs", "protox-parse/src/error.rs"],
         [("Parser::unexpected_token", "protox-parse/src/parse/mod.rs"), ("ParseErrorKind", "protox-parse/src/error.rs")]),
]


NA = {}


def main():
    props = PROPERTIES
    ids = {p["id"] for p in props}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in props:
        r = registry.PROPS.get(p["id"])
        if r is None:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 analyzer/check.py %s" % p["id"],
                           thorough_cmd="python3 analyzer/check.py %s --thorough" % p["id"], technique=r["technique"],
                           level=r["level"], level_note=r["note"]))
    na = [dict(property=p["id"], reason=NA.get(p["id"], "no check has been built yet")) for p in props if p["id"] not in registry.PROPS]
    m = dict(version=1, setup_cmd="python3 analyzer/build.py protox_parse protox protox-bin", checks=checks, not_applicable=na,
             notes="All checks analyse rustc MIR of /repo's current tree; nothing of /repo is executed.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in registry.PROPS:
        assert p in ids, p


if __name__ == "__main__":
    main()
