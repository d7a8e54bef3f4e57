#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "XML serialisation round trip keeps every property",
 "Writing any document as XMP XML and reading the result back yields a document with the same namespaces, the same property paths and the same values, whatever bytes of legal XML text the values contain (markup characters, quotes, white space, control of nesting) and whatever shape they have (simple, ordered/unordered/alternative lists, language alternatives, structures, attributes, unknown namespaces). White space around a value is not significant. Writing the re-read document again gives the same bytes, with or without packet wrapper, indentation and compact form.",
 ["inputs", "configurations"],
 "all documents built from known models and unknown-namespace nodes whose text values are arbitrary valid XML strings, and all encoder option combinations",
 "tests marshal a fixed set of sample documents; they do not vary the content of text values over all characters or combine them with every property shape and output option",
 ["xmp/marshal.go", "xmp/unmarshal.go", "xmp/node.go", "xmp/document.go"],
 [("XML marshalling of models into nodes and of nodes into tokens", "xmp/marshal.go"), ("XML parsing into nodes and decoding of nodes into models", "xmp/unmarshal.go, xmp/node.go")],
 ["xmp.Marshal", "xmp.MarshalIndent", "xmp.Unmarshal", "Document.ListPaths"])
prop("C02", "JSON serialisation round trip keeps every property",
 "Writing any document as JSON produces syntactically valid JSON, and reading it back yields a document with the same property paths and the same values, for every string content and every property shape including alternatives with a default marker, lists, structures, unknown-namespace nodes with attributes and unknown properties of known namespaces. Unknown lists in JSON of other writers, with elements of any kind, are read and written without loss of their texts.",
 ["inputs"],
 "all documents built from known models and unknown-namespace nodes whose values are arbitrary valid UTF-8 strings",
 "tests round-trip a few sample files; no test ranges over string content, nesting and node shapes",
 ["xmp/json.go", "xmp/document.go", "xmp/array.go", "xmp/units.go"],
 [("conversion of node trees to and from JSON values", "xmp/json.go"), ("per-type JSON codecs", "xmp/array.go, xmp/units.go, xmp/xmp_types.go")],
 ["json.Marshal(doc)", "json.Unmarshal(data, doc)"])
prop("C03", "Packet scanning finds every embedded packet exactly",
 "Scanning any byte stream returns exactly the well-formed XMP packets embedded in it, in order and byte for byte, independent of the bytes around and between them, of the packet's header and trailer quoting and attributes, of its length, and of how the reader chunks the stream. It never panics and reports that there is no packet when there is none.",
 ["inputs", "schedules"],
 "all byte streams of prefix + packets + suffix with arbitrary surrounding bytes (including partial or bogus markers), and all chunkings of the reader",
 "tests scan a handful of fixed files through a reader that returns everything at once; chunk boundaries inside the packet marker and truncated packets are never exercised",
 ["xmp/reader.go"],
 [("split function over a buffered scanner", "xmp/reader.go"), ("packet header verification", "xmp/reader.go")],
 ["xmp.Scan", "xmp.ScanPackets", "xmp.Read"])
prop("C04", "Output size limit and padding are honoured exactly",
 "With a size limit configured, encoding a document either fails with the overflow error or produces at most that many bytes, and it fails only when the document really does not fit. With padding requested the output is exactly as long as the limit, the padding is only white space placed inside the packet wrapper, and the padded packet still parses to the same document.",
 ["inputs", "configurations"],
 "all documents, all limits and all combinations of packet, padding and indentation options",
 "no test sets a limit or a padding at all; the boundary lengths (limit = size, size +/- 1, around wrapper sizes) are the interesting ones",
 ["xmp/marshal.go", "xmp/document.go"],
 [("encoder that tracks bytes left and pads before the trailer", "xmp/marshal.go")],
 ["xmp.NewEncoder", "Encoder.SetMaxSize", "Encoder.SetFlags", "Encoder.Encode"])
prop("C05", "A value set through a path is read back through that path",
 "After successfully setting any property path of a document (model field, structure field, list element by index, language alternative, extension, or any node/attribute/list/alternative in an unknown namespace) to a value in the canonical text form of its type, getting the same path returns exactly that value (surrounding white space excepted), and every other path keeps the value it had. Setting an empty value with delete permission removes the property (always-present numeric properties and structure members take their zero value instead), and neither getting nor setting ever panics or exhausts memory, whatever the path text, index or value is. Where two models hold the same property, the value set is the one listed and written. Entries of a language alternative whose text equals the default text count as the default entry; properties a model recomputes from its native fields are covered by the sync property (C16).",
 ["inputs", "histories"],
 "all paths that name a settable property (all indices, languages, nesting), all values, from all document states; and arbitrary path text for absence of panics",
 "path_test.go sets a few hundred fixed paths on an empty document; index gaps, negative or huge indices, attribute paths on nodes and interaction with other properties are not covered",
 ["xmp/path.go", "xmp/node.go", "xmp/document.go", "xmp/array.go"],
 [("path walking over model structs by reflection", "xmp/path.go"), ("path walking over raw nodes", "xmp/node.go"), ("document-level dispatch", "xmp/document.go")],
 ["Document.SetPath", "Document.GetPath"])
prop("C06", "Sync flags decide exactly when a path write may happen",
 "A write through a path changes the document only when its flags permit the kind of change it makes: creating an absent value needs create permission, changing an existing value needs replace permission, extending a list needs append (or unique, which never adds a value already present), and clearing needs delete. A write that is not permitted leaves every path unchanged and is reported as an error unless errors were suppressed. Writing the value already present is never a change; create, append and unique each permit creating an absent value; a zero value of an always-present numeric property may count as absent.",
 ["inputs", "histories", "configurations"],
 "all flag combinations x all existing values (absent, equal, different) x all new values, over every kind of property",
 "tests try a fixed subset of flag combinations on a few property kinds with one pair of values",
 ["xmp/path.go", "xmp/node.go", "xmp/sync.go", "xmp/array.go"],
 [("flag checks in the model path setter", "xmp/path.go"), ("flag checks in the node path setter", "xmp/node.go"), ("flag checks in language alternatives", "xmp/array.go")],
 ["Document.SetPath", "AltString.Set via path"])
prop("C07", "Listed paths are complete, valid and read back their value",
 "Every path in the listing of a document is a valid path whose lookup returns the listed value, no non-empty property is missing from the listing, and replaying the listing into an empty document reproduces the same listing (an entry of a language alternative with the text of the default counts as the default entry).",
 ["inputs", "histories"],
 "all documents reachable by setting properties or parsing input",
 "tests list paths only for sample files and compare counts or fixed values",
 ["xmp/path.go", "xmp/node.go", "xmp/document.go"],
 [("recursive listing over models and nodes", "xmp/path.go, xmp/node.go")],
 ["Document.ListPaths", "Document.GetPath", "Document.SetPath"])
prop("C08", "Language alternatives keep exactly one default, first",
 "After any sequence of adding, setting, removing or parsing entries, a non-empty language alternative has exactly one default entry and it is the first, no language occurs twice, looking a language up returns the last text stored for it, removing a language removes only that entry, and no operation panics.",
 ["inputs", "histories"],
 "all operation sequences over all language tags and texts, starting from empty or parsed alternatives",
 "existing tests build alternatives only in the canonical order with the default first",
 ["xmp/array.go"],
 [("default-entry maintenance", "xmp/array.go"), ("XML/JSON decoding of alternatives", "xmp/array.go")],
 ["AltString.Add", "AltString.AddDefault", "AltString.Set", "AltString.RemoveLang", "AltString.Get", "AltString.Default"],
 [("items", "ordered entries with language, value and default marker", "xmp/array.go")])
prop("C09", "List operations behave as ordered multisets / sets",
 "For ordered, unordered and alternative string lists, identifier lists and resource lists: adding appends exactly one element, adding uniquely adds only values not present, lookup returns the first position of a value or reports absence, and removing by value or index removes exactly that one element, keeping all others in order; indices outside the list are reported or ignored, never a panic.",
 ["inputs", "histories"],
 "all lists up to the bound with arbitrary contents, all operands and all integer indices",
 "no unit test covers removal, lookup or uniqueness of these lists at all",
 ["xmp/array.go", "models/xmp_base/types.go", "models/xmp_mm/types.go"],
 [("list helper methods", "xmp/array.go"), ("identifier list methods", "models/xmp_base/types.go"), ("resource list methods", "models/xmp_mm/types.go")],
 ["StringList.*", "StringArray.*", "IdentifierArray.*", "ResourceRefArray.*"])
prop("C10", "Decoding untrusted input never panics",
 "Whatever bytes are given as XML packet, JSON document or bare property values - truncated, mis-nested, of the wrong shape or type for the property, with hostile attributes or numbers, nested deeply - decoding returns a document or an error in bounded work and bounded stack and never panics. A document obtained from such input can be listed, queried by path and written again without panics. XML nested more than 11000 elements deep is refused.",
 ["inputs"],
 "all byte strings offered to the XML and JSON decoders and to the text decoders of property types",
 "tests only decode well-formed samples; malformed shapes per property type are not enumerated",
 ["xmp/unmarshal.go", "xmp/json.go", "xmp/node.go", "xmp/array.go", "models/exif/types.go"],
 [("XML node parsing and decoding by reflection", "xmp/unmarshal.go, xmp/node.go"), ("JSON to node conversion", "xmp/json.go"), ("per-type text decoders", "xmp/units.go, xmp/xmp_types.go, models/*/types.go")],
 ["xmp.Unmarshal", "json.Unmarshal(data, doc)", "encoding.TextUnmarshaler implementations"])
prop("C11", "Core scalar types survive text and JSON encoding",
 "For the basic value types (booleans, integers of every width, nullable strings/integers/floats/booleans, rationals, split integers, dates, GPS coordinates, GUIDs and URIs), encoding any value to text or JSON and decoding it gives the same value, and decoding then encoding any canonical text gives that text; text outside the type's range is rejected rather than silently altered.",
 ["inputs"],
 "all values of each type up to the full machine width, and all canonical texts up to the length bound",
 "tests never sweep the value space; boundary widths, negative values, values below one and special floats are untested",
 ["xmp/units.go", "xmp/xmp_types.go", "xmp/xmp_ext.go"],
 [("per-type text and JSON codecs", "xmp/units.go, xmp/xmp_types.go")],
 ["MarshalText", "UnmarshalText", "MarshalJSON", "UnmarshalJSON"])
prop("C12", "Media time types keep frame counts and durations",
 "Frame rates, frame counts, timecodes, durations, media parts and part lists survive text encoding and decoding unchanged for every value, and converting between representations never divides by zero, overflows silently or changes the denoted time.",
 ["inputs"],
 "all rates, counts, flags and offsets within the stated widths",
 "no test covers these types",
 ["models/xmp_dm/types.go", "models/ixml/types.go", "models/qt/types.go"],
 [("media time codecs", "models/xmp_dm/types.go"), ("production sound timecodes and speeds", "models/ixml/types.go")],
 ["FrameRate", "FrameCount", "Part", "PartList", "Timecode", "ixml timecodes"])
prop("C13", "Model-specific text codecs round trip",
 "Every property type of the bundled models that has its own text form (flash flags, CFA patterns, OECF tables, device settings, content ratings, points, track numbers, genres, take types, location types, byte arrays) decodes what it encodes to an equal value, for every value of the type.",
 ["inputs"],
 "all values of each codec type within the stated sizes",
 "sample files carry one or two values of few of these types",
 ["models/exif/types.go", "models/exif/enum.go", "models/qt/types.go", "models/itunes/types.go", "models/id3/types.go", "models/id3/enum.go", "models/ixml/enum.go", "models/crs/types.go", "models/tiff/types.go"],
 [("text codecs", "models/*/types.go, models/*/enum.go")],
 ["MarshalText/UnmarshalText of the named types"])
prop("C14", "Version ordering is a total order and ranges agree with it",
 "Version comparison is a total order consistent with (major, minor, patch), parsing and printing a version are inverse, and range tests (before, after, between, with open ends) accept exactly the versions the ordering says.",
 ["inputs"],
 "all triples of versions over the full component range",
 "no test covers versions",
 ["xmp/semver.go"],
 [("comparison and parsing", "xmp/semver.go")],
 ["ParseVersion", "Version.Before/After/Equal/Between"])
prop("C15", "Merging documents respects the merge mode",
 "Merging one document into another makes exactly the changes its flags permit, path by path of the source: with create permission every property missing in the target is taken from the source, with replace permission the source's value wins and without it the target's value stays. Properties the source does not have are never removed or changed, the source is not changed, a change that is not permitted is reported unless errors were suppressed, and merging a document into an equal one changes nothing. The difference of two path lists names exactly the paths that are in one of them only (created or deleted) or have different values (replaced). List elements are matched by position and the default entry of a language alternative stands for the language it repeats; properties recomputed by model sync belong to C16. The merged document is written and read like any other, with the namespaces of both.",
 ["inputs", "histories", "configurations"],
 "all pairs of documents and all flag combinations",
 "tests merge a few fixed pairs with default flags",
 ["xmp/sync.go", "xmp/path.go", "xmp/document.go"],
 [("path diff and merge", "xmp/sync.go, xmp/path.go")],
 ["Document.Merge", "PathValueList.Diff"])
prop("C16", "Cross-model sync copies exactly what its flags allow",
 "Synchronising one property from another (Sync, SyncMulti) makes the copy exactly when the flags permit the resulting create, replace, append or delete, passes a non-empty value through the given converter first, does nothing when the value is already there (for lists: as first element) or when source or destination have no model, and changes no other property. The implicit synchronisation of documents that are read, or written after being changed, copies the mapped native properties of the ID3, iXML, riff, pdf, tiff, exif, QuickTime and iTunes models to XMP standard properties and back without changing their meaning, never clears a property, leaves unmapped properties alone, and changes nothing when it is repeated. When writing, non-empty ID3 and iXML values and exif native dates take precedence over the standard property, the other models only fill standard properties that are absent; a value set by path after reading is the one written.",
 ["inputs", "histories", "configurations"],
 "all source and target property values and all flag combinations over the bundled sync tables",
 "tests sync two models with one value and a fixed set of flags",
 ["xmp/sync.go", "models/id3/model.go", "models/qt/model.go", "models/riff/model.go", "models/pdf/model.go", "models/tiff/model.go"],
 [("table-driven sync", "xmp/sync.go"), ("sync tables of the models", "models/*/model.go")],
 ["Document.Sync", "Document.SyncMulti", "Model.SyncToXMP", "Model.SyncFromXMP"])
prop("C17", "Namespace filters keep exactly the namespaces they admit",
 "A filter parsed from its text form admits exactly the namespaces and groups the text includes or excludes, and applying it to a document removes the models and properties of every excluded namespace and leaves every property of every other namespace unchanged; it reports whether anything was removed. Names that are neither groups nor registered match only themselves (the strict parser rejects them), and including a group without namespaces admits nothing.",
 ["inputs"],
 "all filter texts over known namespaces and groups, all documents",
 "no test covers filters",
 ["xmp/filter.go", "xmp/document.go"],
 [("filter parsing and application", "xmp/filter.go")],
 ["ParseFilter", "Filter.Apply", "FilterList.Apply", "Document.RemoveNamespace"])
prop("C18", "Documents are isolated from each other and from recycling",
 "Closing, modifying, filtering or removing parts of one document never changes what another document returns for any path, and a document created after others were closed starts empty: no property, attribute or model of a released document can reappear.",
 ["histories"],
 "all interleaved histories of creating, filling, parsing, pruning and closing several documents",
 "tests close documents at the end and never look at a second live document",
 ["xmp/node.go", "xmp/document.go"],
 [("node recycling pool", "xmp/node.go"), ("document close and namespace removal", "xmp/document.go")],
 ["Document.Close", "Document.RemoveNamespace", "NewDocument", "Document.ListPaths"],
 [("node pool", "recycled nodes shared by all documents of the process", "xmp/node.go")])
prop("C19", "Dates parse in every accepted layout and keep their instant",
 "Every text in one of the accepted date layouts, with any field values (years 0 to 9999) and any whole-minute time-zone offset, parses to the instant it denotes (a missing zone meaning UTC), printing a date and parsing it again gives the same instant, and invalid dates are errors, never a different date.",
 ["inputs"],
 "all field values in all accepted layouts, all offsets",
 "sample files hold a few dates in the full layout",
 ["xmp/xmp_types.go", "models/exif/types.go", "models/id3/types.go", "models/riff/types.go"],
 [("layout list and zone repair", "xmp/xmp_types.go"), ("legacy date codecs", "models/exif/types.go, models/id3/types.go")],
 ["xmp.ParseDate", "Date.UnmarshalText", "Date.MarshalText"])
prop("C20", "Path text and its components are two views of one thing",
 "Splitting, extending, popping and joining path components are mutually inverse for every path: the fields of a path joined again give the path, pushing then popping restores it, the length equals the number of fields, list indices and languages written in a component are recovered exactly, and no path text makes any of these panic. Qualified names composed by a namespace split into it and the local name again and match this namespace only.",
 ["inputs"],
 "all path texts up to the length bound",
 "path tests use only well-formed, fixed paths",
 ["xmp/path.go"],
 [("path parsing helpers", "xmp/path.go")],
 ["Path.Fields", "Path.Len", "Path.Push", "Path.Pop", "Path.PopFront", "Path.AppendIndex"])
prop("C21", "Unknown namespaces and prefixes are preserved and mapped",
 "Properties in namespaces without a registered model survive reading and writing under their own namespace URI, even when the input uses another prefix for it, declares it at any element or rebinds a known prefix (an unknown namespace whose prefix belongs to another one gets a prefix of its own), and prefix and URI lookups on a document and on the registry agree with each other. Working on one document never changes what a prefix means for another; setting a path with a namespace under a prefix that contradicts a known one is an error.",
 ["inputs", "histories"],
 "all prefixes and URIs, all placements of declarations, all property shapes",
 "tests include a single sample with an unknown namespace and default prefixes",
 ["xmp/namespace.go", "xmp/registry.go", "xmp/marshal.go", "xmp/node.go", "xmp/document.go"],
 [("namespace registry and document namespace table", "xmp/namespace.go, xmp/registry.go")],
 ["xmp.Unmarshal", "xmp.Marshal", "Document.Namespaces", "Registry.GetNamespace/GetPrefix"])
prop("C22", "Separate goroutines may work on separate documents",
 "Any number of goroutines may create, parse, modify, write and close their own documents at the same time without data races, and each gets the result it would get running alone.",
 ["schedules"],
 "all interleavings of operations on distinct documents",
 "tests are single-threaded",
 ["xmp/node.go", "xmp/typeinfo.go", "xmp/registry.go"],
 [("shared node pool, type-info cache and registry", "xmp/node.go, xmp/typeinfo.go, xmp/registry.go")],
 ["all exported operations on distinct documents"])
prop("C23", "Native tags can be set, read and listed",
 "The bundled models address their properties by the tag names of their native format. A tag a model knows can be set from text and read back: plain text, numbers and booleans exactly as set, other text values in a normal form that setting again does not change. A value that cannot be stored is refused with an error instead of being dropped. Setting a tag leaves every other tag alone; listing yields each tag that has a value exactly once with that value; unknown tags are kept as extensions where a model has room for them and are refused by reading and setting alike where it has not. Texts in several languages are set and read per language, alternative spellings of a tag (ID3 v2.2 names, hexadecimal EXIF codes in either case, names of the parts of a QuickTime file) reach the same property, and no tag operation panics.",
 ["inputs", "histories"],
 "all tags of all bundled models, all values",
 "tests use native tags of one test model only",
 ["xmp/native.go", "models/id3/model.go", "models/qt/model.go", "models/riff/model.go", "models/exif/model.go"],
 [("native field access by reflection", "xmp/native.go"), ("tag tables and tag spelling of the models", "models/*/model.go")],
 ["GetNativeField, SetNativeField, GetLocaleField, SetLocaleField, ListNativeFields", "CanTag, GetTag, SetTag, ListTags of the models"])
prop("C24", "Application-defined models follow their struct tags",
 "A model defined by the application as a Go struct is treated as its struct tags say. Every tagged field of every supported kind (numbers of all widths, booleans, texts, text forms of their own types, structures, lists, embedded parts, pointers) is written under its name, read back into the same field and value, and addressed by its path. A number text that does not fit the Go type is refused with an error and leaves the field as it was. Fields tagged \"-\" or omit are never written, fields tagged empty are written even when they hold no value, fields tagged attr become attributes, and a field restricted to a range of versions is filled only when the decoder works at such a version, without losing the other properties.",
 ["inputs"],
 "all values of all kinds of fields, all number texts, all versions",
 "tests use one or two sample models with fixed values",
 ["xmp/typeinfo.go", "xmp/marshal.go", "xmp/unmarshal.go", "xmp/path.go", "xmp/native.go"],
 [("struct tags and reflection driven codec", "xmp/typeinfo.go, xmp/marshal.go, xmp/unmarshal.go")],
 ["xmp.Register", "Document.AddModel", "xmp.Marshal", "xmp.Unmarshal", "Document.GetPath/SetPath"])
prop("C25", "Media management history and lists keep what is added",
 "The helpers that maintain asset histories, references and lists do exactly what was asked. Adding a history event, version, pantry item, ingredient, identifier, marker, part or reference makes it the last (or only) entry and leaves all earlier entries as they were; entries asked for by version, id or position are the ones that were added under it; a reference to the document itself carries its current identifiers; filtering, intersecting and sorting keep exactly the matching entries. None of them panics on empty lists, and changing a document after it was copied into the pantry does not change the pantry.",
 ["inputs", "histories"],
 "all sequences of additions, all texts, ids, versions and positions",
 "tests do not cover these helpers beyond a few fixed values",
 ["models/xmp_mm/model.go", "models/xmp_dm/types.go", "models/xmp_base/model.go", "xmp/types.go"],
 [("media management helpers", "models/xmp_mm/*.go"), ("list helpers", "models/*/types.go")],
 ["XmpMM.AddHistory/AddVersion/AddPantry", "XmpMM.SelfResourceRef", "MarkerList.Filter/Sort/Intersect", "PartList.Add", "XmpBase.AddID"])
prop("C26", "Native iXML documents are read, upgraded and kept",
 "The iXML model reads and writes the native iXML form of audio recorders. What it writes is read back as the same values; elements the model does not know are kept. Documents of older versions are upgraded: the old flags for no-good, false-start and wild-track takes become the take type list and the old pre-record sample count becomes a sync point, and nothing is invented for documents that do not carry them. Hostile or truncated input is refused with an error or read in part, never by a panic, and a refused text leaves the target unchanged.",
 ["inputs"],
 "all values of all elements, all combinations of old and new elements, all byte strings up to the length bound",
 "no test reads or writes native iXML",
 ["models/ixml/model.go", "models/ixml/types.go"],
 [("native form and version upgrade", "models/ixml/model.go, models/ixml/types.go")],
 ["IXML.ParseXML", "xml.Marshal of an IXML model", "IXML.Upgrade"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
