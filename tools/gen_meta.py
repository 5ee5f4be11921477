#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run: python3 tools/gen_meta.py)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a, _note=note))

PARSER = "svd-parser/src"
RS = "svd-rs/src"
ENC = "svd-encoder/src"

p("C01", "A valid SVD document is read as exactly the device it describes",
  "Parsing a document the CMSIS-SVD format allows gives a device in which every element and attribute of the document appears with its value, in document order, with the documented defaults where an element is left out and nothing else. The result does not depend on how the document is written down: white space around text, comments between elements, order of unrelated elements, CDATA or character references, byte order mark, number base.",
  ["inputs", "configurations"], "every document reachable from a set of base documents by a bounded sequence of edits (any element present or absent, any of its values, arrays, nesting, order), in every writing style",
  "The tests parse one tiny document per element; no test crosses optional elements, nesting, arrays and writing styles, and a dropped or misplaced element shows only for the combination that has it.",
  [PARSER + "/lib.rs", PARSER + "/device.rs", PARSER + "/peripheral.rs", PARSER + "/register.rs", PARSER + "/field.rs", PARSER + "/cluster.rs", PARSER + "/elementext.rs", PARSER + "/types.rs"],
  [("parse_with_config", PARSER + "/lib.rs"), ("ElementExt::get_text/get_child*", PARSER + "/elementext.rs"), ("Parse impls", PARSER + "/*.rs")],
  "reference tree -> independent XML writer -> parse -> field by field comparison, for every document in the bounded space")

p("C02", "Parsing never panics: every input gives a device or an error",
  "Whatever text is given to the parser, in whatever configuration, the call returns a device or an error in bounded time; it does not panic, overflow the stack or run forever. The same holds for expanding, validating and encoding any device the parser has returned. (Time and memory are proportional to the number of elements arrays and index ranges stand for; nesting is limited to some thousand levels by the call stack.)",
  ["inputs", "configurations"], "every single structural fault of a document using the whole format (element or attribute removed, duplicated, renamed, moved, given junk or extreme content), every truncation and byte substitution, pairs of extreme numbers, all parser configurations",
  "The tests feed hand-picked well-formed input; panics sit behind unwraps and arithmetic reached only by specific malformed or extreme values.",
  [PARSER + "/*.rs", RS + "/*.rs", ENC + "/*.rs"],
  [("Result-returning parse functions", PARSER + "/lib.rs"), ("checked arithmetic in ranges and arrays", PARSER + "/dimelement.rs, bitrange.rs")],
  "all faults of the bounded fault model x configurations executed against the real parser under a panic/crash/hang monitor")

p("C03", "Numbers and booleans are read by the format's literal grammar",
  "A number literal is accepted exactly when it is a decimal, 0x/0X hexadecimal, or #/0b binary literal (binary digits may be the don't-care x or X, which count as zero) whose value fits the element's type, and it then has that value; everything else is an error. A boolean is accepted exactly for true, false, 1 and 0. Both hold in every element which takes such a value.",
  ["inputs"], "all token strings up to a length over the digits, prefixes and neighbours of the grammar, in 32- and 64-bit elements; every numeric and boolean element with every class of literal",
  "Tests have three literals; the grammar is an infinite language with boundary values at 2^32 and 2^64 and mixed-case prefixes.",
  [PARSER + "/types.rs", PARSER + "/elementext.rs"],
  [("u32/u64/bool parsing", PARSER + "/types.rs")],
  "exhaustive enumeration of literals against a reference recogniser")

p("C04", "The three notations of a bit position mean the same bits",
  "A field position given as bitRange [msb:lsb], as bitOffset and bitWidth, or as lsb and msb denotes the bits lsb..msb; width, lsb and msb reported by the library agree with it, and each notation is kept as written. A bitRange or msb/lsb pair which is reversed, malformed or unrepresentable is an error on every way in (document, text constructor, deserialisation), and the builder combines its bit-position setters with the bits already set.",
  ["inputs", "histories"], "all offsets and widths of a grid including 32- and 64-bit edges in all three notations; all bitRange texts up to a length; all sequences of builder setters up to a length",
  "Tests try one or two positions; the arithmetic has edges at width 0, 64 and 2^32 and depends on the order of builder calls.",
  [PARSER + "/bitrange.rs", RS + "/bitrange.rs", RS + "/field.rs"],
  [("BitRange parse and constructors", RS + "/bitrange.rs"), ("FieldInfoBuilder bit_* setters", RS + "/field.rs")],
  "exhaustive products, token strings and setter sequences against interval arithmetic")

p("C05", "Validation accepts exactly the documents its level allows",
  "Each validation level rejects exactly the documents which break one of its rules: at the weak level reset values that do not fit the size, zero-width fields, enumerated values or write constraints outside the field, enumerations without values, enumerated values with neither value nor default, and devices without peripherals; the strict level adds identifier syntax of names and references, reset masks, empty containers, conflicting value sets, values that are also default, and required device elements; disabled accepts all of these. What a stricter level accepts, a weaker one accepts too, with the same result.",
  ["inputs", "configurations"], "all documents within the bounded edit space over valid and invalid values, all names over an identifier alphabet up to a length, all size/reset value/mask, enum value/width and constraint/width products, at the three levels",
  "Tests check one or two rejected inputs; acceptance is a universally quantified statement and rules interact (derived elements, arrays, levels).",
  [RS + "/lib.rs", RS + "/register.rs", RS + "/field.rs", RS + "/registerproperties.rs", RS + "/enumeratedvalue.rs", RS + "/enumeratedvalues.rs", RS + "/writeconstraint.rs", RS + "/cluster.rs", RS + "/peripheral.rs", RS + "/device.rs"],
  [("validate functions", RS + "/*.rs"), ("ValidateLevel", RS + "/lib.rs")],
  "the verdict of the reference rules is compared with the parser's for every document and level in the space")

p("C06", "All ways of validating a device agree",
  "Parsing a document at a validation level succeeds exactly when parsing it without validation and then validating the whole device at that level succeeds, and both give the same device. Building an element through its builder at a level succeeds exactly when building it without validation and validating it afterwards does. (Values of dimArrayIndex, and the device elements which only the strict level makes mandatory, are checked while parsing only.)",
  ["inputs", "configurations"], "all documents in the bounded edit space over valid and invalid values at weak and strict level; all elements of them through their builders",
  "No test validates a parsed device as a whole; the two paths are separate code, and a call left out of either shows only for the element kind and nesting concerned.",
  [RS + "/*.rs", PARSER + "/*.rs"],
  [("validate_all", RS + "/device.rs, peripheral.rs, cluster.rs, register.rs, field.rs"), ("build -> validate", RS + "/*.rs")],
  "differential exploration of both paths on every document of the space")

p("C07", "Errors say where the document is wrong",
  "When one element of an otherwise valid document is wrong, the error names a position (line and column) inside that element or its parent and the enclosing peripheral, register and field by name, and does not blame their siblings.",
  ["inputs"], "every single fault at every element of a document using the whole format, in different layouts of the text",
  "Tests never look at error positions or error chains.",
  [PARSER + "/lib.rs", PARSER + "/elementext.rs", PARSER + "/field.rs", PARSER + "/register.rs", PARSER + "/peripheral.rs"],
  [("SVDErrorAt / position lookup", PARSER + "/lib.rs"), ("with_context in element parsers", PARSER + "/*.rs")],
  "all single faults enumerated; the error chain is compared with positions recorded by the writer")

p("C08", "Ignoring enumerations changes nothing else",
  "With enumerations ignored, the parsed device equals the normally parsed device with the enumerated values and write constraints of its fields removed, whatever the removed parts contain, even when they are malformed. Everything else about the result, including errors from other parts, is the same.",
  ["inputs", "configurations"], "all documents in the bounded edit space and all malformed enumeration subtrees, at every level, with and without expansion",
  "No test uses the option.",
  [PARSER + "/field.rs", PARSER + "/lib.rs"], [("Config::ignore_enums", PARSER + "/lib.rs, field.rs")],
  "differential exploration against stripping the normally parsed device")

p("C09", "Encoding and parsing again gives the same device",
  "Encoding a device with the default configuration gives a well-formed document which parses to an equal device. This holds for every device obtained by parsing, building or expanding, with any text content and in any of the supported schema details; a register's empty list of fields is written as none, and white space around a text, and tabs and line ends in attributes, are not part of the format.",
  ["inputs", "histories"], "all devices in the bounded edit space (including texts with markup characters, extreme numbers, all nesting and array forms), parsed, built or expanded first; chains of two round trips",
  "The encoder tests compare a few encoded snippets; an element which is written wrongly or not at all is lost silently only when present.",
  [ENC + "/*.rs", PARSER + "/*.rs"], [("Encode impls", ENC + "/*.rs")],
  "each device in the space is encoded by the real encoder and parsed back; compared with the reference tree")

p("C10", "Number and bit-range format options change notation only",
  "For every combination of the encoder's number format options and its bit-range option, the document parses back to the same values, each number is written in the notation its option names, and fields are written in the chosen bit-range notation.",
  ["configurations", "inputs"], "every number format option x every format x values over all magnitudes; all bit-range options x notations",
  "Tests use the default configuration with one or two options changed.",
  [ENC + "/config.rs", ENC + "/lib.rs", ENC + "/bitrange.rs", ENC + "/*.rs"], [("NumberFormat / format_number", ENC + "/config.rs"), ("change_bit_range", ENC + "/config.rs, bitrange.rs")],
  "exhaustive product of options and values; written leaves read from the output by an independent XML reader")

p("C11", "Sorting options reorder and do nothing else",
  "For each sorting option the encoder writes the elements concerned in the stated order - by name, or by address or bit position ascending or reversed - with equal keys in their original order, and the encoded document otherwise describes the same device. The sorting of registers and clusters concerns those directly in a peripheral; the children of a cluster keep their order, as does everything without the option.",
  ["configurations", "inputs"], "all orders of small sets of elements with repeated and extreme keys, nested ones included, with every value of each sorting option",
  "One test sorts one fixture; reversed order at extreme addresses and mixed clusters and registers are not covered.",
  [ENC + "/config.rs", ENC + "/device.rs", ENC + "/peripheral.rs", ENC + "/cluster.rs", ENC + "/register.rs"], [("sort_* in Encode impls", ENC + "/*.rs")],
  "all permutations and key ties enumerated; output compared with a stable sort of the reference tree")

p("C12", "Identifier case options change exactly the identifiers they name",
  "Each identifier case option converts the names of its element kind, and every reference to such a name, to the chosen case and leaves placeholders and all other text alone. References by names as they are written resolve to the same elements before and after conversion when the names stay distinct.",
  ["configurations", "inputs"], "all names over an alphabet with case, digits, separators and placeholders up to a length, every case option and value; all reference forms",
  "Tests cover a few names.",
  [ENC + "/config.rs", ENC + "/lib.rs", ENC + "/*.rs"], [("change_case / IdentifierFormat", ENC + "/config.rs")],
  "enumerated names and references through the real encoder, compared with a reference conversion and resolved again after parsing")

p("C13", "Encoder options set by name do what the option setters do",
  "Setting an encoder option through its textual name and value gives the same configuration as calling the option's setter, every option can be set that way, every option affects only its own setting, and an unknown name leaves the configuration unchanged while an invalid value is refused with a panic, as documented.",
  ["configurations", "histories"], "all option names x all values, pairs of updates in both orders",
  "No test uses the textual interface beyond one case.",
  [ENC + "/config.rs"], [("Config::update", ENC + "/config.rs")],
  "exhaustive product of names, values and update sequences; configurations compared by what they encode")

p("C14", "An array stands for exactly its elements",
  "An array of dimension n with increment d stands for n elements whose names, descriptions and displayed names carry the index in place of the placeholder, in order, at base address or bit position plus i*d, otherwise identical to the array's description. Indices are those given as list, number range, letter range or array enumeration, or 0..n-1; a count that disagrees with the dimension or a name without placeholder is an error.",
  ["inputs"], "all index texts up to a length; all dimensions, increments and name patterns of a grid for peripherals, clusters, registers and fields",
  "Tests cover a handful of index texts and one array each.",
  [RS + "/dimelement.rs", RS + "/array.rs", PARSER + "/dimelement.rs", PARSER + "/array.rs", RS + "/register.rs", RS + "/cluster.rs", RS + "/field.rs", RS + "/peripheral.rs"], [("DimElement::indexes / expand / names", RS + "/dimelement.rs, array.rs, register.rs")],
  "exhaustive enumeration of index texts and array shapes against a reference expansion")

p("C15", "Expansion gives a flat device with every register at its address",
  "Expanding a device without references gives peripherals containing only single registers: one for each instance of each register of the original, in document order, named by the path through its clusters joined with underscores, at the sum of the offsets on that path, with its fields' arrays likewise expanded and everything else unchanged. Addresses or bit positions that cannot be represented are an error.",
  ["inputs"], "all forests of registers and clusters up to a size, with arrays at any node, all array kinds; offsets up to the numeric limits",
  "Tests expand one small cluster; order, nesting and array products multiply.",
  [PARSER + "/expand.rs", RS + "/cluster.rs", RS + "/register.rs"], [("expand / expand_cluster_array", PARSER + "/expand.rs")],
  "every tree within the bound expanded by the real code and by the reference, compared element by element")

p("C16", "A derived element is its target overlaid with its own statements",
  "After expansion an element with derivedFrom has every property it states itself and, for those it does not state, the value of the element it refers to, through chains of references of any length, whether the reference is relative or absolute, forward or backward, and whatever kind of element it is. Content taken over is resolved as it would be where it was written, names, displayed names, alternates, positions and array-ness excepted, and the result contains no references.",
  ["inputs"], "all placements of references among small sets of peripherals, clusters, registers, fields and value sets, all subsets of stated properties on either side, chains up to a length, in all path forms",
  "Tests derive one element of some kinds once.",
  [PARSER + "/expand.rs", RS + "/derive_from.rs"], [("derive_* functions", PARSER + "/expand.rs"), ("DeriveFrom impls", RS + "/derive_from.rs")],
  "reference resolver vs real expansion on every reference graph within the bound")

p("C17", "Unresolvable references are errors, never hangs",
  "Expanding a device in which a reference points nowhere, at itself, or around a cycle of any length and any mixture of element kinds returns an error which names the reference; it never loops, overflows the stack, panics or returns a device with wrong content. A device without such references is never rejected for them.",
  ["inputs"], "all reference graphs over small sets of elements of each kind, including containment cycles",
  "One test has a self-derived element; longer cycles, cycles through containment and cross-kind references are not covered.",
  [PARSER + "/expand.rs"], [("self-derivation and lookup checks", PARSER + "/expand.rs")],
  "all functions from elements to targets (every graph) enumerated for each kind; crash and hang monitor",)

p("C18", "Register properties are inherited from the nearest enclosing element",
  "Expanding properties gives each register, for each of size, access, protection, reset value and reset mask, its own value if stated, else that of the nearest enclosing cluster, peripheral or device stating it, and changes nothing else; derived elements are left for derivation.",
  ["inputs", "configurations"], "all subsets of stated properties over device, peripheral, up to three clusters and register, with derived elements at every level",
  "Tests check one nesting.",
  [PARSER + "/expand.rs", RS + "/registerproperties.rs", RS + "/derive_from.rs"], [("expand_properties", PARSER + "/expand.rs")],
  "all assignments enumerated, compared with a reference inheritance")

p("C19", "Expansion is pure, idempotent and the same by option or call",
  "Expanding does not change its input, expanding an expanded device gives it back, repeating the call gives the same result, and the expand options of the parser give what calling the functions on the parsed device gives, in the documented order. Expansion commutes with leaving out unrelated peripherals.",
  ["inputs", "configurations", "histories"], "all documents of the bounded spaces for arrays, nesting and references; all option combinations and call sequences up to a length",
  "No test expands twice or compares option and call.",
  [PARSER + "/lib.rs", PARSER + "/expand.rs"], [("parse_with_config expand steps", PARSER + "/lib.rs")],
  "all call/option sequences on every document in the spaces, compared pairwise")

p("C20", "JSON and YAML carry a device without loss",
  "Serialising any device to JSON or YAML and deserialising it gives an equal device, and the serialised form uses the documented keys and keyword spellings and leaves out what is absent. (The attributes of the root element, schema version and location, are not part of the serialised form and come back as their defaults.) Deserialising text which does not describe a device is an error, not a panic.",
  ["inputs"], "all devices in the bounded edit space; every key of the serialised form removed, renamed or given a value of another type",
  "One test serialises one device.",
  [RS + "/*.rs"], [("serde derives and attributes", RS + "/*.rs"), ("MaybeArray serde", RS + "/array.rs"), ("bit range serde", RS + "/bitrange.rs")],
  "every device in the space through both formats and back, plus key-level comparison with the reference tree")

p("C21", "Builders build what they are given",
  "Building an element through its builder gives an element with exactly the values set, whatever the order of the calls, the last call winning, and building fails exactly when a mandatory value was never set or validation at the requested level fails. Elements and builders converted into each other keep every value.",
  ["histories", "inputs"], "all subsets of values for every builder, all ordered pairs of setter calls, all levels",
  "Tests build a few elements with all mandatory values.",
  [RS + "/*.rs"], [("*Builder types", RS + "/*.rs")],
  "all call sequences up to a bound on every builder against the reference element")

p("C22", "Modifying an element overwrites exactly what the modifier sets",
  "Applying a builder to an existing element replaces exactly the values the builder sets, keeps every other value, and validates the result at the requested level, leaving an error when it is invalid. Setting a reference drops the content which will be inherited. Turning an element without a reference into a builder and applying it is the identity.",
  ["histories", "inputs"], "every single value and pair of values of every builder applied to full and minimal elements, at all levels",
  "Tests modify one or two elements.",
  [RS + "/*.rs"], [("modify_from", RS + "/*.rs")],
  "all modifier sets of one and two values on every element kind, compared with overlaying the reference element")

p("C23", "Iterators and lookups see every element exactly once",
  "The iterators over registers, clusters, fields and all registers of a device's parts yield each element of the kind exactly once in document order, mutable and immutable versions agree, and lookups by name return the first element with that name or nothing. Changing an element through a mutable lookup changes that element only.",
  ["inputs"], "all forests of registers and clusters up to a size with arrays and duplicate names, all lookups of existing and absent names",
  "Tests iterate one small tree.",
  [RS + "/registercluster.rs", RS + "/cluster.rs", RS + "/peripheral.rs", RS + "/register.rs", RS + "/device.rs", RS + "/array.rs"], [("AllRegistersIter and lookups", RS + "/cluster.rs, peripheral.rs, registercluster.rs")],
  "every forest within the bound walked through every iterator, compared with a reference walk")

p("C24", "Masks cover exactly the bits of a field",
  "The mask of a field has exactly the bits lsb..msb set; the mask of a field array is the union of its elements' masks; the mask of a register is the union of its fields' masks. Bits beyond 64 are left out and no position makes it panic.",
  ["inputs"], "all offsets and widths 0..=70 and numeric edges; arrays of all small dimensions and increments; small sets of fields",
  "No test calls the mask functions with edge positions.",
  [RS + "/field.rs", RS + "/register.rs"], [("bitmask", RS + "/field.rs, register.rs")],
  "exhaustive product against bit-by-bit reference")

p("C25", "Keywords map one to one to their values",
  "Every keyword of the format is accepted for its element and gives the value which prints and serialises as that keyword; any other text is an error, wherever the keyword can occur. The predicates on access agree with the keyword's meaning, and the default of each type is the documented one.",
  ["inputs"], "all keywords of all keyword types in every element which takes them, all texts within one edit of a keyword",
  "Tests cover a few keywords of some types.",
  [RS + "/access.rs", RS + "/usage.rs", RS + "/readaction.rs", RS + "/modifiedwritevalues.rs", RS + "/endian.rs", RS + "/protection.rs", RS + "/datatype.rs", RS + "/addressblock.rs", PARSER + "/*.rs", ENC + "/*.rs"], [("parse_str / as_str", RS + "/*.rs")],
  "all keywords and all their neighbours enumerated in every context against independent tables")

p("C26", "Paths name elements: printing, parsing and lookup agree",
  "The index of a device has an entry for every peripheral, cluster, register, field and named value set under its full path, for arrays under the array's name and under each element's name, and no other entries. Printing a path and parsing or comparing it gives the same path, and parent and child operations are inverse.",
  ["inputs"], "all forests up to a size with arrays at any node; all paths over a component alphabet up to a length",
  "No test uses the index or the path types directly.",
  [PARSER + "/expand.rs"], [("Index::create, BlockPath, RegisterPath, FieldPath, EnumPath", PARSER + "/expand.rs")],
  "every device within the bound indexed by the real code, compared with a reference listing")

p("C27", "Public helpers for deriving elements agree with expansion",
  "Deriving one element from another through the library's overlay operation keeps everything the element states and fills every other inheritable property from the other, for every kind of element, single or array, and never changes name, position or references of the derived element, nor the other one. The public functions which derive one element through its reference give what expansion gives it, and say where the content they took over was written.",
  ["inputs"], "all pairs of subsets of stated properties of both elements for every element kind, single and array",
  "One small unit test derives a register.",
  [RS + "/derive_from.rs", PARSER + "/expand.rs"], [("DeriveFrom impls", RS + "/derive_from.rs"), ("derive_* functions", PARSER + "/expand.rs")],
  "all pairs enumerated and compared with the reference overlay")

p("C28", "Elements read or written on their own are what they are inside their device",
  "Reading the node of a single element through the parser's Parse trait gives exactly the element which reading the whole document gives there, is refused exactly when this element or something in it is wrong at the chosen level, and a node of another kind is refused; an optional child is none only if it is not there. The helpers for child nodes give the first child of the name and its trimmed content, in the type asked for. Writing a single element, array dimension, set of register properties or keyword through the encoder's traits gives exactly what is written for it inside its device under the same configuration, with every method, and the default configuration where none is given.",
  ["inputs", "configurations"], "all edits of documents over valid and invalid values x every element x levels and options x every type; all edits x every element x configurations x methods",
  "Unit tests read and write a handful of elements alone, each in one form and one configuration.",
  [PARSER + "/*.rs", ENC + "/*.rs"], [("Parse, optional", PARSER + "/lib.rs"), ("ElementExt", PARSER + "/elementext.rs"), ("Encode, EncodeChildren", ENC + "/lib.rs")],
  "every element of every document within the bound read and written alone by the real code, compared with the reference")

p("C29", "Encoded documents follow the content models of the CMSIS-SVD schema",
  "For every device and every configuration of the encoder, the encoded text is a well-formed document whose every element has only children and attributes which the CMSIS-SVD schema defines for it, in the order in which the schema's sequences prescribe them (dimension first, then name, description, ..., register properties, then the contained elements), single children at most once, a field's position in exactly one notation, and no text beside elements, whichever combination of optional parts is present. (A peripheral's displayName, which the schema does not know, may stand anywhere; presence of parts which the library itself takes as optional is not asked.)",
  ["inputs", "configurations"], "all subsets of optional parts up to a size x all element kinds x configurations; all edits; all forests; crowds",
  "A unit test compares a few encoded fragments whose optional parts are mostly absent; order matters between every pair of parts.",
  [ENC + "/*.rs"], [("encode", ENC + "/lib.rs"), ("device", ENC + "/device.rs"), ("register", ENC + "/register.rs"), ("field", ENC + "/field.rs")],
  "every document within the bound encoded by the real code under every configuration and walked against the content models of the schema")

def main():
    src = open(os.path.join(R, "harness/src/props/mod.rs")).read()
    built = set(re.findall(r"\b(c\d\d)_\w+::PROP", src))
    built = {b.upper() for b in built}
    with open(os.path.join(R, "properties.jsonl"), "w") as f:
        for q in P:
            q = {k: v for k, v in q.items() if not k.startswith("_")}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    na = json.load(open(os.path.join(R, "tools/na.json"))) if os.path.exists(os.path.join(R, "tools/na.json")) else {}
    m = {"version": 1, "setup_cmd": "./build.sh", "hooks": None, "checks": [], "not_applicable": []}
    del m["hooks"]
    for q in P:
        if q["id"] in built:
            m["checks"].append({"property": q["id"], "quick_cmd": f"./check.sh {q['id']} quick", "thorough_cmd": f"./check.sh {q['id']} thorough",
              "technique": "explicit-state model checking: stateless exhaustive exploration of the real code in lock-step with a reference model (" + q["_note"] + ")",
              "level": "model_checking",
              "level_note": "exhaustive within the bounds listed per space in the evidence file; every explored state is executed on the implementation, so model and code cannot drift apart"})
        else:
            m["not_applicable"].append({"property": q["id"], "reason": na.get(q["id"], "no check built yet")})
    json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
main()
