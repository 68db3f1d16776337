#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os

M = "machine.go"
RL = "machine.go.rl"

def P(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a}

TABLES = "The tests try a table of some 170 fixed strings over the three grammars"

props = [
P("C01", "RFC 2141 parsing accepts exactly the RFC 2141 language",
  "In the default (RFC 2141) mode a byte string is accepted if and only if it is 'urn:' (any case), then an identifier of 1 to 32 ASCII letters, digits or dashes, not starting with a dash and not equal to 'urn' in any case, then ':', then a non-empty specific string made only of ASCII letters, digits, ()+,-.:=@;$_!*' and '%' followed by two ASCII letters or digits. Every other byte string (longer, truncated, with any foreign byte or trailing data, empty or nil) is rejected. This depends on nothing but the bytes: not on lengths, on the values inside, or on which entry point is used.",
  ["inputs"], "all byte strings, of any length",
  TABLES + "; the language is infinite, the identifier alone has 32 length-counting states, and a wrong transition for one byte value in one state goes unnoticed.",
  [M, RL, "urn.go"], [("generated state machine, entry main", "machine.go (*machine).Parse"), ("grammar urn/nid/nss/hex", "machine.go.rl"), ("reserved-identifier look-ahead", "machine.go.rl throw_pre_urn_err")],
  observe=["Parse", "NewMachine(...).Parse"]),
P("C02", "RFC 7643 mode accepts exactly the SCIM URN language",
  "In the RFC 7643 mode a byte string is accepted if and only if it is 'urn:' (any case), then 'ietf:params:scim:' in lower case, then one of 'schemas', 'api' or 'param', then ':', then a name of one or more ASCII letters or digits, optionally followed by ':' and a non-empty rest made only of ASCII letters, digits, ()+,-.:=@;$_!*' and '%' followed by two ASCII letters or digits. Every other byte string is rejected.",
  ["inputs"], "all byte strings, of any length",
  TABLES + ", only 14 of which are for SCIM; none combines long names, rests with escapes, and other foreign bytes.",
  [M, RL], [("generated state machine, entry scim_only", "machine.go (*machine).Parse"), ("grammar scim_only", "machine.go.rl")], observe=["Parse", "NewMachine(...).Parse"]),
P("C03", "RFC 8141 mode accepts exactly the RFC 8141 language",
  "In the RFC 8141 mode a byte string is accepted if and only if it is 'urn:' (any case), an identifier of 2 to 32 ASCII letters, digits or dashes neither starting nor ending with a dash nor starting with 'urn-' (any case) plus a letter or a 0, ':', a specific string of pchars (ASCII letters, digits, ()+,-.:=@;$_!*'~& and '%' followed by two ASCII letters or digits) and, not first, '/', then optionally '?+' with an r-component, '?=' with a q-component and '#' with a possibly empty f-component, in this order. Components are made of pchars, '/' and '?'; the r- and q-component start with a pchar, the r-component ends at the first '?=' followed by a pchar, and neither may contain its own opener ('?+', '?=') again unless a '/' follows it. Every other byte string is rejected.",
  ["inputs"], "all byte strings, of any length",
  TABLES + ", 75 of them for RFC 8141; sequences of '?', '+', '=', '/', '#' inside components and identifiers near the length and 'urn-' limits are sampled once or never.",
  [M, RL], [("generated state machine, entry rfc8141_only", "machine.go (*machine).Parse"), ("grammar rfc8141_only, one-shot r/q markers", "machine.go.rl mark_r_start, mark_q_start, informal_nid_match")], observe=["Parse", "NewMachine(...).Parse", "URN8141.UnmarshalJSON"]),
P("C04", "An accepted URN is decomposed exactly and reassembles to its input",
  "For every accepted input, in every mode, the identifier, the specific string, the r-, q- and f-component, and for SCIM URNs the type, the name and the rest, are exactly the corresponding slices of the input, byte for byte and with their case kept. Reassembling the result to a string gives back the input byte for byte (less only the '#' of an empty f-component), and parsing that string again in the same mode gives the same parts.",
  ["inputs"], "all accepted inputs in all three modes",
  "The tests compare the parts of about 100 fixed inputs, and never the q- and f-component of a parsed URN nor the type, name and rest of most SCIM ones; slips of one byte, parts overwritten by later ones, or truncation depend on the input.",
  [M, RL, "urn.go", "scim.go"], [("mark/set actions slicing the buffer", "machine.go.rl mark, set_pre, set_nid, set_nss, set_r_component, set_q_component, set_f_component, set_scim_*"), ("reassembly", "urn.go (*URN).String")],
  observe=["URN.ID", "URN.SS", "URN.RComponent", "URN.QComponent", "URN.FComponent", "URN.SCIM", "URN.String"]),
P("C05", "Every parse ends with either a URN or an error, and never crashes",
  "Parsing any byte string with any options (also nil or empty input, and parsing modes that do not exist) terminates without panicking and yields exactly one of a non-nil URN with a nil error, or a nil URN with a non-nil error. The package-level Parse reports true exactly when it returns a non-nil URN, and agrees with what a new machine with the same options returns for the same input. After each parse the machine's Error method returns the very error that the parse returned, however often it is called.",
  ["inputs", "configurations"], "all byte strings times all option lists, including out-of-range parsing modes and reused machines",
  TABLES + " and three valid modes; whether some input makes the generated machine stop without an error, loop, or index out of range is a question about all inputs.",
  [M, RL, "options.go", "parsing_mode.go", "urn.go"], [("final-state test after the machine ran", "machine.go (*machine).Parse, end"), ("bool wrapper", "urn.go Parse"), ("start state selection", "machine.go (*machine).WithParsingMode")],
  observe=["Parse", "Machine.Parse", "Machine.Error"]),
P("C06", "A rejected input gets an error naming its first offence and the right column",
  "For every rejected input the error message says which part of the grammar is violated (prefix, identifier, reserved 'urn' identifier, informal namespace, specific string, percent-encoding, SCIM namespace, type, name or rest, r-component, q-component), and its column is the 0-based byte offset of the first byte that no accepted string could have there, or the input length when the input is a proper prefix of an accepted one. The exceptions are part of the documented messages: the reserved 'urn' identifier is reported at the colon that ends it, the informal namespace at its dash, an incomplete SCIM rest at the byte before the end, and a repeated or ill-started component right after the offending '?', '?+' or '?='. The message and column depend on the input and the mode only.",
  ["inputs"], "all rejected inputs in all three modes",
  "The tests pin about 90 messages; the column is computed where each of some 200 states fails, on each of 256 bytes and at the end of the input.",
  [M, RL], [("error actions and their columns", "machine.go.rl err_* and throw_* actions; machine.go eof actions")], observe=["Machine.Parse error", "Machine.Error"]),
P("C07", "Normalization is canonical, idempotent and stays inside the language",
  "The normalized form of a URN has prefix 'urn', the identifier in lower case, and the same specific string except that the two characters after each '%' are in lower case; r-, q- and f-components are dropped and nothing else changes. Normalizing twice gives the same as normalizing once, and the normalized string is accepted by the mode that accepted the original and is its own normalized form. Normalizing never alters the URN it is called on, and works alike on URNs built from their exported identifier and specific string.",
  ["inputs"], "all accepted inputs in all three modes, and URNs built from identifier and specific-string fields",
  "The tests look at the normalized string of some 100 inputs, with at most a few escapes each, and never normalize twice, parse the result back, or normalize a URN that was not parsed.",
  ["urn.go", M, RL], [("positions of the hex letters to lower", "machine.go.rl tolower, set_nss"), ("Normalize", "urn.go (*URN).Normalize")], observe=["URN.Normalize", "URN.String"]),
P("C08", "Equal is exactly lexical equivalence",
  "Two URNs are equal if and only if their normalized strings are the same: the case of the prefix, of the identifier and of percent-encodings is ignored, r-, q- and f-components are ignored, every other difference of a byte counts, whatever mode parsed them or if they were built from their fields. Equality is reflexive, symmetric and transitive, holds between a URN and its normalized form, and no URN equals nil.",
  ["inputs"], "all pairs and triples of URNs, parsed in the same or in different modes, normalized, decoded, or built from fields",
  "The tests compare 16 fixed pairs, of the same mode.",
  ["urn.go", M], [("Equal", "urn.go (*URN).Equal"), ("Normalize", "urn.go (*URN).Normalize")], observe=["URN.Equal"]),
P("C09", "A machine keeps no memory from one parse to the next",
  "After any sequence of parses and parsing-mode changes on one machine, the next parse returns the same URN (all parts and kind) or the same error as a new machine in the current mode would for that input. URNs and errors returned by earlier parses never change because of later ones.",
  ["histories"], "all sequences of Parse, WithParsingMode and Error calls on a machine, over valid and invalid inputs",
  "The tests reuse one machine per mode over a fixed list in a fixed order and look at each result only before the next call.",
  [M, RL], [("per-parse reset of the machine", "machine.go (*machine).Parse, begin"), ("mode switch", "machine.go (*machine).WithParsingMode")],
  state=[("data, cs, p, pe, eof, pb, err", "cursor, buffer and state of the last run", "machine.go machine"), ("startParsingAt, parsingMode", "grammar in use", "machine.go machine")],
  observe=["Machine.Parse", "Machine.Error", "Machine.WithParsingMode"]),
P("C10", "Parsing only reads its input, and results do not alias it",
  "Parsing never writes to the input buffer nor past it within its capacity, not even temporarily, so read-only buffers can be parsed and many goroutines can parse the same buffer at once. What happens to the buffer after the parse returned does not change the URN or the error, and bytes beyond the length of the slice have no influence on the outcome.",
  ["inputs", "schedules"], "all inputs, in buffers of any capacity and surroundings, later overwritten or parsed concurrently",
  "No test looks at the buffer after parsing, overwrites it, or shares it among goroutines; transient writes are invisible to any assertion made after the call.",
  [M, RL, "urn.go"], [("copies made by the set actions", "machine.go.rl set_*; urn.go setSS")], observe=["Parse", "Machine.Parse", "URN.String", "URN.Normalize"]),
P("C11", "Machines and URN values can be used from many goroutines",
  "Independent machines parsing in different goroutines do not influence each other: every goroutine gets what it would get alone. Reading one URN from many goroutines at once (string form, normalization, comparison, JSON encoding, kind, components, SCIM view) is free of data races and gives the same answers as reading it alone, because reading never modifies the URN.",
  ["schedules", "inputs"], "all interleavings of parses by independent machines and of reads of shared URNs",
  "All tests run in one goroutine.",
  [M, "urn.go", "scim.go", "urn8141.go"], [("no package-level mutable state; per-machine state", "machine.go machine, NewMachine"), ("readers working on copies", "urn.go Normalize, Equal, String")], observe=["Parse", "URN methods", "SCIM methods"]),
P("C12", "A URN survives a JSON round trip, and bad JSON leaves the receiver alone",
  "Encoding an RFC 2141 URN gives a JSON string holding its string form, and decoding that (also inside structs, slices and pointers, and with any JSON escaping) gives an equal URN with the same parts and string. Decoding accepts exactly the JSON strings whose value parses in the default mode; for every other string it returns the error 'invalid URN: ' followed by the value, and for other JSON an error as well. A decode that fails leaves the receiver unchanged, and one that succeeds replaces all of it.",
  ["inputs"], "all URNs and all JSON documents",
  "The tests round-trip one URN, and decode one wrong string and the empty document.",
  ["urn.go"], [("MarshalJSON / UnmarshalJSON", "urn.go (URN).MarshalJSON, (*URN).UnmarshalJSON")], observe=["json.Marshal", "json.Unmarshal"]),
P("C13", "An RFC 8141 URN survives a JSON round trip with its components",
  "Encoding an RFC 8141 URN value gives a JSON string holding its string form, components included, and decoding that into the RFC 8141 type (also inside structs, slices and pointers, and with any JSON escaping) gives an equal URN with the same parts, components and string. Decoding accepts exactly the JSON strings whose value parses in RFC 8141 mode, yields a usable non-nil URN then, and otherwise returns an error ('invalid URN per RFC 8141: ' followed by the value for strings) and leaves the receiver unchanged. Encoding the zero value does not panic.",
  ["inputs"], "all RFC 8141 URNs and all JSON documents",
  "The tests round-trip one hand-made URN, and decode one wrong string and the empty document.",
  ["urn8141.go", "urn.go"], [("MarshalJSON / UnmarshalJSON", "urn8141.go")], observe=["json.Marshal", "json.Unmarshal"]),
P("C14", "A SCIM URN survives a JSON round trip with type, name and rest",
  "A SCIM value with a supported type, an alphanumeric name and a well-formed (or empty) rest renders as 'urn:ietf:params:scim:<type>:<name>[:<rest>]', that string parses in RFC 7643 mode to the same type, name and rest, and encoding it to JSON and decoding it gives them back too. Decoding accepts exactly the JSON strings whose value parses in RFC 7643 mode, and otherwise returns an error ('invalid SCIM URN: ' followed by the value for strings) and leaves the receiver unchanged; a successful decode replaces all of the receiver.",
  ["inputs"], "all SCIM values with valid parts, and all JSON documents",
  "The tests round-trip three fixed SCIM URNs, and decode one wrong string and the empty document.",
  ["scim.go", "scim/schema/type.go"], [("String / MarshalJSON / UnmarshalJSON", "scim.go")], observe=["SCIM.String", "json.Marshal", "json.Unmarshal", "URN.SCIM"]),
P("C15", "Kind, SCIM view and components agree with the mode that parsed the URN",
  "A URN parsed in RFC 2141, RFC 7643 or RFC 8141 mode reports exactly that RFC as its kind, and the same holds after decoding from JSON into the matching type. A URN reports to be SCIM, and has a non-nil SCIM view, exactly when its kind is RFC 7643, and the view's parts joined by colons are its specific string. Components are empty for every URN of another kind than RFC 8141.",
  ["inputs"], "all accepted inputs in all three modes, through parsing and JSON decoding",
  "The tests check the kind on the RFC 8141 table, and that the SCIM flag is set on the SCIM one; never that they are unset elsewhere.",
  [M, RL, "urn.go", "kind.go"], [("kind actions at the end of the input", "machine.go.rl base_type, scim_type, rfc8141_type"), ("accessors", "urn.go RFC, IsSCIM, SCIM, RComponent, QComponent, FComponent")], observe=["URN.RFC", "URN.IsSCIM", "URN.SCIM"]),
P("C16", "The parsing mode in force is the last one set, RFC 2141 when none is",
  "Parsing with no options, with the Default mode, with the exported default constant, and with the RFC 2141 mode give identical outcomes for every input. When options (also ones of the user's own making) set the mode several times, or it is set again on a machine, the last one decides alone, whatever else the options do (they may make and use other machines) and whatever becomes of the list of options later; setting it on one machine affects no other machine, and an option applied to a Machine of the user's own making sets its mode. Machine-level and package-level parsing agree for the same options.",
  ["configurations", "histories", "inputs"], "all lists of options over all modes, and mode changes on live machines, for all inputs",
  "The tests pass exactly one option with one of the three modes, and never the Default mode.",
  ["options.go", "parsing_mode.go", M, RL], [("options applied in order, default when unset", "machine.go NewMachine, (*machine).WithParsingMode"), ("option", "options.go WithParsingMode")],
  state=[("startParsingAt, parsingMode, parsingModeSet", "grammar in use", "machine.go machine")], observe=["Parse", "NewMachine", "Machine.WithParsingMode"]),
P("C17", "The three grammars agree where their languages overlap",
  "Every SCIM URN accepted in RFC 7643 mode is also accepted in RFC 2141 and RFC 8141 mode with the same string form and the same normalized string. An input accepted in RFC 2141 mode is accepted in RFC 8141 mode too, with the same identifier, specific string and normalized form and with no components, unless its identifier has one character, ends with a dash, or starts with 'urn-' plus a letter or a 0; an input accepted in RFC 8141 mode with no '?' or '#', and no '~', '&' or '/', is accepted in RFC 2141 mode with the same parts unless its identifier is 'urn'. URNs obtained from the same text in different modes are equal.",
  ["inputs"], "all byte strings, parsed in all three modes",
  "Each table of the tests is run in one mode only; no test relates two modes.",
  [M, RL, "urn.go"], [("three entry points of one state machine", "machine.go.rl main, scim_only, rfc8141_only")], observe=["Parse", "URN.String", "URN.Normalize", "URN.Equal"]),
P("C18", "SCIM types and their names are in one-to-one correspondence",
  "The names 'schemas', 'api' and 'param' map to three distinct supported types and back, every other string (other case, spaces, prefixes, empty) maps to the unsupported type, and every other type value has the empty name. The type found in a parsed SCIM URN is the one its text names.",
  ["inputs"], "all strings, all integer type values, all SCIM URNs",
  "The tests map the three names and one wrong string.",
  ["scim/schema/type.go", M], [("Type.String / TypeFromString", "scim/schema/type.go"), ("set_scim_type", "machine.go.rl")], observe=["TypeFromString", "Type.String", "URN.SCIM"]),
P("C19", "removecomments drops exactly the //line lines",
  "For any file content, the comment remover deletes each line whose first non-whitespace text is '//line', with its line end and the blank lines right above it, and keeps every other byte in order and unchanged. Running it again changes nothing.",
  ["inputs"], "all file contents, including other line ends, invalid UTF-8, and no final line end",
  "The test runs it on one text.",
  ["tools/removecomments/removecomments.go"], [("commentLineRegex", "tools/removecomments/removecomments.go")], observe=["removeComments", "the removecomments command"]),
P("C20", "snake2camel renames consistently and changes nothing else",
  "For any file content, the renamer removes exactly those underscores which follow a lower-case letter plus optional digits and precede an ASCII letter or digit, upper-casing that next character, working from the end of each line, until none is left; every other byte is kept in order. It terminates, running it again changes nothing, and each line is rewritten on its own.",
  ["inputs"], "all file contents, including several underscores in a row, digits, and invalid UTF-8",
  "The tests run it on three texts.",
  ["tools/snake2camel/snake2camel.go"], [("regular expression applied until it does not match", "tools/snake2camel/snake2camel.go snake2camel, replaceAllStringSubmatchFunc")], observe=["snake2camel", "the snake2camel command"]),
P("C21", "The code-generation tools rewrite their one file in place or fail cleanly",
  "Each tool, given one existing file, replaces its content by the transformed content (whatever its size, also when it gets shorter, when no other file can be made, on a terminal, and with any umask), keeps its permissions, touches no other file, prints nothing and exits 0. Given no argument, several arguments or a file that cannot be read or opened for writing, it exits non-zero with a message on standard error and creates, changes or removes no file; when writing the new content fails, wholly or after a part, it exits non-zero with a message on standard error and touches no other file.",
  ["inputs", "configurations"], "all file contents, sizes and argument lists",
  "The tests never run the commands nor touch a file.",
  ["tools/removecomments/removecomments.go", "tools/snake2camel/snake2camel.go"], [("removeCommentsFromFile / snake2camelFile", "tools/*/*.go"), ("main, exitWithError", "tools/*/*.go")], observe=["exit status, standard error, file content of the commands"]),
P("C22", "Parsing, normalizing and printing cost at most linear time and memory",
  "The memory allocated and the time taken by parsing an input, accepted or not, and by normalizing, comparing, printing and encoding the result, or a value built from its fields, and by decoding any JSON document, grow at most linearly with the length of the input. Repeated parses by one machine do not accumulate memory.",
  ["inputs", "histories"], "inputs of all sizes and shapes (escapes only, long components, late offences), and long parse sequences",
  "The tests and benchmarks use inputs below 100 bytes.",
  [M, RL, "urn.go"], [("single left-to-right pass", "machine.go (*machine).Parse"), ("list of hex positions", "machine.go.rl tolower; urn.go setSS")], observe=["Parse", "URN methods"]),
P("C23", "URNs and SCIM values built from their exported fields behave as documented",
  "A URN built by hand from its exported fields, whatever bytes they hold, prints as 'urn:' + identifier + ':' + specific string when both are non-empty and as the empty string otherwise; it belongs to no RFC (kind NONE), has no SCIM view and no components; it encodes to JSON as the JSON string of what it prints; normalizing it gives the same each time, is idempotent and alters nothing of the specific string but the case of ASCII letters. Equal is an equivalence relation on such URNs (reflexive, symmetric, transitive, true for equal fields and for the normalized form) and false for nil. A SCIM value built by hand prints as 'urn:ietf:params:scim:' + type name (empty for an unknown type) + ':' + name and, when its rest is non-empty, ':' + rest, and encodes to JSON as that string. None of these calls panics or changes the value.",
  ["inputs"], "all contents of the exported fields: any bytes, any type number",
  "The tests build a handful of such values with well-formed fields; escapes cut short, invalid UTF-8, text to escape in JSON and type numbers out of range never occur.",
  ["urn.go", "urn8141.go", "scim.go", "scim/schema/type.go"], [("(*URN).String and the default prefix", "urn.go String"), ("normalization of a URN that was not parsed", "urn.go Normalize, lowerHex"), ("SCIM.String", "scim.go String"), ("JSON encoding", "urn.go, urn8141.go, scim.go MarshalJSON")],
  observe=["URN.String", "URN.Normalize", "URN.Equal", "URN.MarshalJSON", "SCIM.String", "SCIM.MarshalJSON"]),
P("C24", "Every URN is the caller's own: changing one affects no other",
  "The URNs that parsing (by whatever machine or entry point), JSON decoding, normalizing and copying yield are independent: over any history of such operations and of changes by the caller (setting the identifier, the specific string or the parts of the SCIM view, decoding into a URN, clearing it), each URN keeps its string, parts, kind, components and normalized form until it is changed itself, and parsing a text gives what it always gives, whatever was done to the URNs obtained before. (A plain struct copy of a SCIM URN shares the SCIM view of the original, as pointers do.)",
  ["histories"], "all histories of parses, decodes, normalizations, copies and changes over a pool of URNs",
  "The tests never change a URN and then look at another one, nor parse the same text twice; sharing through caches, reused buffers or returned pointers shows only then.",
  [M, RL, "urn.go", "urn8141.go", "scim.go"], [("a new URN per parse", "machine.go (*machine).Parse output"), ("Normalize returns a new URN", "urn.go Normalize"), ("decoding assigns a copy", "urn.go UnmarshalJSON, scim.go UnmarshalJSON")],
  state=[("the pool of URNs", "the values the caller holds, with what each should look like", "harness model"), ("the machine", "keeps the buffer and positions of the last parse", "machine.go type machine")],
  observe=["URN.String", "URN fields", "URN.SCIM", "URN.Normalize", "later parses"]),
P("C25", "A URN whose fields the caller changes behaves as the URN of its new fields",
  "After any sequence of setting the identifier and the specific string of a URN - parsed in any mode, decoded, normalized, copied or built - to any bytes, of decoding into it, and of normalizing, comparing, printing, encoding and copying it in between: its normalized form is that of a URN built by hand from the two current fields, it is equal to exactly those URNs that such a URN is equal to, and it prints with its prefix and components around the current fields (as the empty string while one is empty), encodes to JSON as what it prints, and keeps its kind, components and SCIM view. Nothing remembers the fields of before.",
  ["histories", "inputs"], "all ways to make a URN, all values of the two exported fields, all sequences of changes and other calls",
  "The tests never change a field of a URN; a value computed earlier - when parsing, normalizing or comparing - and kept shows only when a change follows.",
  ["urn.go", "urn8141.go", M], [("normalized specific string computed by parsing, and what it is for", "urn.go setSS, Normalize"), ("Equal compares normalized URNs", "urn.go Equal"), ("String", "urn.go String")],
  state=[("norm, normOf", "normalized specific string of the text that was parsed", "urn.go type URN")],
  observe=["URN.Normalize", "URN.Equal", "URN.String", "URN.MarshalJSON", "URN fields"]),
P("C26", "Outcomes depend on the inputs alone, and nothing is left behind",
  "What parsing in a mode, printing, normalizing, comparing, encoding and decoding give for a text is the same in every process, each time: it does not depend on environment variables, locale, program name and arguments, standard streams (terminal, file or pipe), working directory, user, number of processors, limits, the clock, files that happen to be there, chance, the word size of the platform (32 or 64 bits), nor on how the program is compiled or whether it is a test. Using the library prints nothing on standard output or standard error, creates no file, changes neither environment nor working directory, and leaves no goroutine running. The two tools' results do not depend on the environment either.",
  ["inputs", "configurations"], "all inputs, in all modes, x environments, platforms and ways to build",
  "The tests run in one process on one platform, as it comes, and look at results only.",
  [M, "urn.go", "urn8141.go", "scim.go", "scim/schema/type.go", "tools/removecomments/removecomments.go", "tools/snake2camel/snake2camel.go"], [("no package state but constants and tables", "machine.go, urn.go, options.go, parsing_mode.go"), ("offsets and lengths are int", "machine.go, urn.go setSS")],
  observe=["Parse", "Machine.Parse", "URN and SCIM methods", "JSON encoding and decoding", "standard output and error, files, goroutines, environment of a process", "the commands"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
