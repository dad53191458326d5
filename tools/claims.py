NA = {}
check("C01", "validate.py C01", "every validate implementation run with a symbolic value, path and configuration; per field and code, the reporting condition is shown equivalent to the schema's",
      "All texts (no length bound; characters of Unicode planes 0-2), lists up to 3 (quick) or 8 (thorough) entries; nested components by contract, each type checked on its own. Trusts spec/schema.json as the statement of the limits and the contracts for std string and regex functions.")
check("C02", "validate.py C02", "calls of nested validations recorded under their path conditions and shown to happen exactly when the component is present",
      "Lists up to 3 (quick) or 8 (thorough) entries; nested components by contract. Trusts spec/schema.json for component names.")
check("C03", "validate.py C03", "fail-fast runs with a symbolic prior collection and nested components by their own contract (at most one error, only into an empty collection)",
      "As C01; inductive over nesting: each type is shown to keep the contract assumed of its components.")
check("C06", "serdemap.py C06", "every derived Serialize and Deserialize implementation run against an abstract serializer and against symbolic element scripts; presence, name, order, value and refusal conditions are SMT obligations",
      "Scripts of up to number-of-fields + 1 elements (every order for types of up to 6, thorough 9, fields; schema and reverse order with arbitrary omissions and one repetition above). Trusts spec/schema.json for names and cardinality and the serde data-model contract for quick-xml and serde_json.")
check("C07", "serdemap.py C07", "variant-to-text and text-to-variant functions of every enumerated type compared with the schema's code table for a symbolic text",
      "All texts (no length bound). Trusts spec/schema.json for the codes.")

check("C04", "core.py C04", "symbolic histories of collection operations, a symbolic parse result and symbolic errors run through the real functions; every answer compared with the history by SMT",
      "Histories of up to 5 (quick) or 10 (thorough) operations, up to 3 or 6 errors per parse result, all texts and codes.")
check("C05", "core.py C05", "the validation helpers run with symbolic text, limits, names, switches and prior collection; reporting conditions compared with the definition by SMT (integers, strings, regular expressions)",
      "All texts and limits (characters of Unicode planes 0-2); patterns: all of the schemas plus crafted valid and invalid ones. Trusts the regular-expression translation for the syntax used.")
check("C09", "core.py C09", "all lookup functions run on one symbolic text; answers compared with the catalogue table for every entry and for all other texts",
      "All texts. Trusts spec/catalogue.json.")

check("C10", "text.py C10", "the text-handling functions run on one symbolic byte text; every reachable panic (slicing, indexing, unwrap, overflow) is a query",
      "Texts of up to 96 (quick) or 160 (thorough) bytes, other arguments up to 16. quick-xml, serde_json and regex are contracts that never panic themselves.")
check("C11", "text.py C11", "reading run on one symbolic byte text; the windows handed to the header and body readers, the reader chosen, the attributes kept and the refusals compared with the definition by SMT",
      "Texts of up to 80 (quick) or 160 (thorough) bytes; the typed readers are contracts (any outcome, a function of the text).")
check("C13", "text.py C13", "peeking run on a symbolic byte text and on a symbolic JSON value; the answer compared with the definition by SMT",
      "Texts of up to 80 (quick) or 160 (thorough) bytes; JSON values with names and texts of up to 48 bytes. The regex engine is a bit-level encoding of the pattern, serde_json a contract.")
check("C19", "text.py C19", "source text and type detection run on symbolic byte texts and JSON values; answers compared with the definition for every entry of the element table and for all others",
      "Texts of up to 80 (quick) or 160 (thorough) bytes; field names up to 12. Trusts spec/catalogue.json and the list of legacy names.")
check("C20", "text.py C20", "document-only conversion and envelope validation run on one symbolic text and type name; text handed to the typed reader, reader chosen, result and refusals compared with the definition by SMT",
      "Texts of up to 80 (quick) or 160 (thorough) bytes, type names up to 16; typed readers and their JSON form are contracts (any outcome).")
check("C08", "message.py C08", "writing, reading, JSON tags, lookups and dispatch by type name executed for every body type with symbolic contents and names; the pairings compared with the catalogue by SMT",
      "All 25 types; type names of up to 24 bytes, JSON tags without bound; texts read back hold contents of 10 (quick) or 24 (thorough) free characters. Trusts spec/catalogue.json.")
check("C12", "message.py C12", "writing executed on a symbolic message with arbitrary outcomes of the element writers; layout, contents and error conditions are queries; the text written is then read back symbolically",
      "All 25 types and all contents; texts read back hold contents of 10 (quick) or 24 (thorough) free characters. The quick-xml writer of a structure is a contract (element of the announced name, escaped content); the announced names are executed.")

check("C14", "steps.py C14", "the step's real asynchronous code run symbolically on a symbolic message, configuration and payload, with logging off and on; the stored value, metadata, other fields, change report and cached context compared with the definition by SMT",
      "Source texts of up to 16 (quick) or 24 (thorough) bytes, field names up to 12; message data with any other fields; every outcome of the typed readers and of their JSON form (contracts, functions of the text).")
check("C15", "steps.py C15", "the step's real asynchronous code run symbolically on a symbolic message, configuration and payload, with logging off and on; the stored verdict compared with what the readers (contracts, any outcome) answer for the same text by SMT",
      "Source texts of up to 28 (quick) or 64 (thorough) bytes, field names up to 12; message data with any other fields.")
check("C16", "steps.py C16", "the step's real asynchronous code run symbolically on a symbolic message, configuration and payload, with logging off and on; the stored text, other fields, change report and cached context compared with the writer's answer for the source value by SMT",
      "All source values and target names; reading the JSON form and writing XML are contracts (any outcome, functions of their argument).")
check("C17", "steps.py C17", "the step's real asynchronous code run symbolically on a symbolic message, configuration and payload, with logging off and on; the stored data, other fields, change report and cached context compared with the generator's answer for the payload by SMT",
      "All payloads and target names; the generator is a contract (any outcome, a function of the scenario).")
check("C18", "steps.py C18", "the step's real asynchronous code run symbolically on a symbolic message, configuration and payload, with logging off and on; every failing run shown to return an error with data, metadata and context as before, every listed misconfiguration to fail, every reachable panic a query",
      "All four steps, every kind of configuration, every parameter value, every kind of data, metadata and source value; source texts as in C14 and C15.")
