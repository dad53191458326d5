"""Writes properties.jsonl and MANIFEST.json (one source, so that they stay in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC = "src/document/*.rs"
HDR = "src/header/*.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"state": [dict(name=a, meaning=b) for a, b in state]} if state else {}))))

prop("C01", "Text facets: a report exactly when a value is outside its declared limits",
 "For every message and header component, validation reports a too-short, too-long or pattern error for a text field exactly when a present value of that field is outside the minimum length, maximum length or pattern that the message's schema declares for it. Lengths count characters of the value as given; a pattern must match the whole value after surrounding white space is removed. Each report carries the matching code, the element name of the field and the path of the component followed by that element name.",
 ["inputs", "configurations"], "every value of every component type (any text, optional fields present or absent, lists), any path, any setting of the optional-component and collect-all switches",
 "No existing test calls validation at all; and 4231 text fields with their limits cannot be sampled at all their boundaries.",
 [DOC, HDR, "src/validation.rs"], [("per-field calls of the length and pattern helpers", "Validate impls in src/document and src/header"), ("length and pattern helpers", "src/validation.rs")])
prop("C02", "Validation visits every component once, with the right path",
 "Validating a component validates each of its present sub-components that carry rules exactly once, in lists each entry, with the path of the component followed by the element name of the sub-component. Only sub-components in optional positions are left out, and only when validation of optional fields is switched off. The configuration and the error collection are handed through unchanged.",
 ["inputs", "configurations"], "every component type, every combination of present and absent sub-components, lists up to the bound, every configuration and path",
 "Existing tests do not call validation; one missing visit among thousands of generated calls hides every violation below it.",
 [DOC, HDR], [("recursive calls of validate with child paths", "Validate impls in src/document and src/header")])
prop("C03", "Fail-fast validation reports one true error and nothing more",
 "In fail-fast mode, validating a component that breaks rules leaves exactly one error in the collection, one that a full validation would also report, and marks it critical. A component that breaks no rule leaves none. If the collection already holds an error, nothing is added.",
 ["inputs", "histories"], "every component type and value, and every prior state of the error collection",
 "No test runs fail-fast validation; the interplay of early returns through nested generated code depends on which fields fail together.",
 [DOC, HDR, "src/validation.rs", "src/parse_result.rs"], [("report only into an empty collection", "src/validation.rs"), ("early return on helper failure", "Validate impls")])
prop("C04", "Error collection and parse results lose and invent nothing",
 "An error collection returns exactly the errors added to it, in order, counts them, and is critical exactly when a critical error was added. A parse result exposes its value exactly when it is a full or partial success, and its errors exactly when it is a partial success or failure, and converting it to a plain result keeps the value or the errors. Converting a validation error to the library error keeps code, message, field and path; the three configuration presets have their documented switches.",
 ["histories", "inputs"], "every sequence of additions up to the bound, every parse result, every error contents",
 "Unit tests use single hand-picked additions, if any.",
 ["src/parse_result.rs", "src/error.rs"], [("ErrorCollector, ParseResult, ParserConfig", "src/parse_result.rs"), ("From<ValidationError>", "src/error.rs")])
prop("C05", "Validation helpers are exact for any limits, patterns and texts",
 "The length helper reports too short exactly when the number of characters is below the given minimum and too long exactly when it is above the given maximum; the pattern helper reports a mismatch exactly when the trimmed text as a whole does not match, and an invalid pattern as such; the required helper reports a missing field exactly when it is absent. Each returns true exactly when nothing was wrong, and its report carries the given field name and path. A child path is the field name alone under an empty parent and parent, dot, field name otherwise.",
 ["inputs", "configurations", "histories"], "every text, minimum, maximum, field name, path, configuration and prior collection; patterns uninterpreted or drawn from the patterns the schemas use",
 "No test calls the helpers; boundaries depend on character counts of arbitrary Unicode text.",
 ["src/validation.rs"], [("validate_length, validate_pattern, validate_required, child_path", "src/validation.rs")])
prop("C06", "Component data maps to elements and back without loss or mix-up",
 "Writing a component emits each present field exactly once under its own element name, in schema order, and leaves out absent optional fields; reading assigns the content of each element to the field of that name, whatever the order, ignores unknown elements, and leaves absent optional fields absent. Reading fails when a mandatory element is missing or a single element is repeated. Hence what is written is read back equal, in XML and in JSON.",
 ["inputs"], "every component type and every combination of present and absent fields; every order of the elements up to the bound",
 "Scenario tests exercise the fields that appear in their samples, for 19 of the 25 message types; a swapped or misspelt element name elsewhere stays unseen, and written and read names agree with each other even when both are wrong.",
 [DOC, HDR], [("serde derive with rename, skip_serializing_if, flatten and alias attributes", "src/document, src/header")])
prop("C07", "Code lists accept and emit exactly their codes",
 "For every enumerated type, each value is written as its own schema code and each schema code is read as that value, distinct values have distinct codes, and any other text is rejected.",
 ["inputs"], "every enumerated type, every value, and every text as input",
 "Tests cover the codes that appear in the sample scenarios; the rejecting side quantifies over all texts.",
 [DOC, HDR], [("serde derive with rename attributes", "enums in src/document and src/header")])
prop("C08", "One message type means one thing on every path",
 "For each of the 25 supported message types, the typed body, the root element name written in XML and used as tag in JSON, the root element recognised when reading, the type used to read it, the namespace and the registry entry all agree. Reading a document back yields the same kind of message; a type name outside the list is refused with an error.",
 ["inputs"], "every message type, every body, and every type name text",
 "Six of the 25 types have no sample scenario, and the dispatch tables (write, read, tag, namespace, document-only) are separate hand-written lists.",
 ["src/mx_envelope.rs", "src/xml.rs", "src/message_registry.rs"], [("dispatch matches", "src/mx_envelope.rs, src/xml.rs"), ("MESSAGE_REGISTRY", "src/message_registry.rs")])
prop("C09", "Message type lookups agree for every text",
 "Short form, full form, element name, body type name and namespace of a supported message type are mapped to each other as the ISO 20022 message catalogue pairs them, from the short and from the full form alike. Any other text is left as it is by normalisation, gets the namespace built from itself, and has no element name, body type, short form or full form.",
 ["inputs"], "every text as argument of every lookup",
 "Unit tests look up five of the 25 entries; the fall-back quantifies over all texts.",
 ["src/message_registry.rs", "src/mx_envelope.rs"], [("MESSAGE_REGISTRY and its lookups", "src/message_registry.rs")])
prop("C10", "No text can make reading, peeking or type detection panic",
 "Reading XML as a message, converting a document to JSON for a given type, peeking at the message type, validating an envelope text and detecting the type of a document return a value or an error for every text. None of them panics, whatever the position of tags, quotes, multi-byte characters or truncation.",
 ["inputs"], "every UTF-8 text up to the length bound, every outcome of the XML and JSON readers",
 "Slicing bugs need one specific truncation or tag order; tests feed well-formed messages.",
 ["src/mx_envelope.rs", "src/xml.rs", "src/plugin/common.rs"], [("find/slice arithmetic", "extract_section, detect_document_type, xml_to_json_via_document, extract_message_type_from_xml")])
prop("C11", "Reading an envelope hands each part to the right reader, complete",
 "Reading a message with an envelope reads the header from exactly the content of the header element and the body from exactly the content of the document element, whatever attributes, white space, declarations or wrapper elements surround them, and keeps the first default and schema-instance namespace attribute of the text. A text without header, without document, or whose document starts with no supported root element is refused with an error; a document without envelope is refused too.",
 ["inputs"], "every text up to the length bound; exact contents for texts in which the two elements occur once, header first, without comments, CDATA or instructions other than a leading declaration",
 "Tests read the library's own output and samples of one layout.",
 ["src/mx_envelope.rs"], [("extract_section, extract_attribute, detect_document_type, from_xml", "src/mx_envelope.rs")])
prop("C12", "Written XML is one envelope with header and document in place",
 "Writing a message yields an XML declaration followed by an envelope that holds the header element with all header content and then the document element with the root element of the message's type around all body content, nothing else. Failure to write the header or the body is returned as an error. Reading the result finds that same header and body content.",
 ["inputs"], "every message of every type, with arbitrary serialised header and body contents that contain no raw markup of their own root names",
 "Tests check a few substrings of a few messages.",
 ["src/mx_envelope.rs"], [("to_xml, serialize_document, root element renaming", "src/mx_envelope.rs")])
prop("C13", "Peeking returns the declared message definition, or an error",
 "Peeking at XML returns the short form of the first non-empty message definition identifier element in the text, and an error if there is none. Peeking at JSON returns the short form of the identifier string in the header, at top level or else inside an envelope object, and an error if the text is not JSON or has no such string.",
 ["inputs"], "every text; every JSON value up to the depth that matters",
 "Tests peek at well-formed samples only.",
 ["src/mx_envelope.rs"], [("peek_message_type_from_xml, peek_message_type_from_json", "src/mx_envelope.rs")])
prop("C14", "The parse step stores exactly the parsed message and reports the change",
 "When the parse step succeeds, the target field of the message data holds the JSON form of the source text (in which the two characters backslash and n stand for a line break) parsed as a message (with envelope) or as a document (without), the metadata of the target field names the message type and the format, every other field is untouched, and the single reported change carries the path of the target, its previous value and the new value. When reading fails the step fails and the message is unchanged.",
 ["inputs", "histories"], "every message state, source and target name (also equal or already used), and every outcome of the readers",
 "Tests run the step on fresh messages with good samples; stale targets, aliasing and failures are not covered.",
 ["src/plugin/parse.rs", "src/plugin/common.rs"], [("Parse::execute, parse_xml_to_json", "src/plugin/parse.rs")])
prop("C15", "The validate step calls a text valid exactly when it can be read",
 "The validate step stores a verdict in the target field that is valid with no errors exactly when the source text can be read as a message with envelope, or, without envelope, as a document of the type its root element names; otherwise it is invalid with at least one error. The step marks the metadata as validated, touches no other field, reports the one change with path, previous and new value, and its verdict agrees with what the parse step would do on a text that needs no unescaping.",
 ["inputs", "histories"], "every message state, source text, and outcome of the readers",
 "Tests validate good samples and one or two bad ones.",
 ["src/plugin/validate.rs", "src/plugin/common.rs", "src/xml.rs"], [("Validate::execute, validate_xml, from_mx_xml_envelope_str", "src/plugin/validate.rs, src/xml.rs")])
prop("C16", "The publish step stores exactly the XML of the source message",
 "When the publish step succeeds, the target field of the message data holds the XML text written for the message that the source field's JSON describes, every other field is untouched, and the single reported change carries the path of the target, its previous value and the new value. If the source is missing, is not a message or cannot be written, the step fails and the message is unchanged.",
 ["inputs", "histories"], "every message state, source and target name, and every outcome of reading and writing",
 "Tests publish fresh samples; overwriting, aliasing and failures are not covered.",
 ["src/plugin/publish.rs"], [("Publish::execute, json_to_mx", "src/plugin/publish.rs")])
prop("C17", "The generate step stores exactly what the generator produced",
 "When the generate step succeeds, the target field of the message data holds the data generated from the scenario in the payload, every other field is untouched, and the single reported change carries the path of the target, its previous value and the new value. If the scenario is invalid or generation fails, the step fails and the message is unchanged.",
 ["inputs", "histories"], "every message state, target name, scenario and outcome of the generator",
 "Tests run good scenarios on fresh messages only.",
 ["src/plugin/generate.rs"], [("Generate::execute", "src/plugin/generate.rs")])
prop("C18", "A misconfigured step fails cleanly",
 "Each workflow step fails with an error, panics never and leaves the message untouched when its configuration is of the wrong kind, when a required parameter is missing or not a string, or when the named source is absent or holds no text. The same holds when the message data is not an object, or when the metadata is not an object and the step writes to it (parse, validate).",
 ["configurations", "inputs"], "every step, every configuration value and every message state",
 "Tests use complete configurations on regular messages.",
 ["src/plugin/parse.rs", "src/plugin/validate.rs", "src/plugin/publish.rs", "src/plugin/generate.rs", "src/plugin/common.rs"], [("parameter extraction and error returns", "src/plugin/*.rs")])
prop("C19", "Source text and message type are taken from the right place",
 "The text of a step is the payload when the source is named payload (the string itself, or its JSON text without outer quotes), otherwise the string in the named data field or in its nested message text, the nested one first. The message type of parsed data is the explicit type string if there is one, else the type of the first element under the document; the type of a document text is that of the first element after the document tag, its name taken up to white space, slash or bracket and without namespace prefix, also for the legacy names. In every other case the answer is an error.",
 ["inputs"], "every JSON value and every text",
 "Unit tests try one value per branch.",
 ["src/plugin/common.rs"], [("extract_mx_content, extract_message_type, extract_message_type_from_xml, map_document_element_to_message_type", "src/plugin/common.rs")])
prop("C20", "Document-only conversion yields the typed document under its root name",
 "Converting a document text for a given supported type reads the content of the document element (or the whole text when there is none), without declaration and surrounding white space, as that type, and returns it under a document key and the root element name of the type. Any reading failure or unsupported type is an error, and nothing else is. Validating an envelope text accepts what reading it accepts, with envelope or without.",
 ["inputs"], "every text, every type name, every outcome of the typed readers",
 "Tests convert a few samples.",
 ["src/xml.rs"], [("xml_to_json_via_document, from_mx_xml_envelope_str, from_mx_xml_to_json", "src/xml.rs")])

# ---------------------------------------------------------------- manifest
SE = "symbolic execution of the compiled MIR of the current tree with SMT (z3): "
CHECKS = {}
def check(id, script, technique, note):
    CHECKS[id] = dict(property=id, quick_cmd=f"python3-vt checks/{script}", thorough_cmd=f"VERIF_TIER=thorough python3-vt checks/{script}", technique=SE + technique, level="model_checking", level_note=note)
exec(open(os.path.join(ROOT, "tools/claims.py")).read())
NOT_BUILT = {}
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    na = [dict(property=p["id"], reason=NA.get(p["id"], "the check is not built yet")) for p in P if p["id"] not in CHECKS]
    m = dict(version=1, setup_cmd="python3-vt engine/build.py setup", checks=[CHECKS[p["id"]] for p in P if p["id"] in CHECKS], not_applicable=na,
             notes="No hooks in /repo: the MIR dump sees private items. Checks rebuild the dump from /repo's working tree; VERIF_REPO overrides the location for experiments.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in P: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print(len(P), "properties,", len(CHECKS), "checks")
