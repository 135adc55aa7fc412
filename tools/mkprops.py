#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
AX = ["agentx/pdu.go", "agentx/pdu_tag.go", "agentx/encoding.go", "agentx/payload_params.go", "agentx/search_range.go", "agentx/varbind.go", "agentx/flags.go"]
AXD = AX + ["agentx/encoding_dbg.go"]

p("C01", "Encoded bytes are exactly the RFC 2741 encoding",
  "Whenever encoding a PDU succeeds, the returned bytes are exactly the RFC 2741 encoding of that PDU: version 1, type, flags, zero reserved bytes, session/transaction/packet ids and payload length (equal to the number of bytes after the 20-byte header), context only when the non-default-context flag is set, then the parameters, search ranges or varbinds of the PDU type. Integers follow the byte order selected by the network-byte-order flag, octet strings, IpAddress and Opaque values are length-prefixed and zero padded to 4 bytes, and an OID starting 1.3.6.1.x with x in 1..255 (and only such an OID) is written with the prefix byte x and the remaining sub-identifiers. Fields that the PDU type does not include are ignored.",
  ["inputs"], "every PDU value: 18 types x allowed flags x all field values, list lengths, string lengths, OID shapes and value types",
  "Tests encode a few dozen fixed PDUs; an error at an untested OID length, prefix value, string length mod 4, flag combination or value type passes them.",
  AX, [("EncodePdu and the append* methods", "agentx/pdu.go, agentx/encoding.go"), ("size pre-computation", "agentx/pdu.go countPayloadSize"), ("per-type tables", "agentx/pdu_tag.go, agentx/varbind.go")],
  ["bytes returned by agentx.EncodePdu"])
p("C02", "Decoding what was encoded gives the PDU back",
  "For every PDU that encodes successfully, decoding the first 20 bytes as header and the rest as payload succeeds and yields the same PDU: type, flags, ids, payload size, context, parameters, search ranges and varbinds with their types and values. Only what the wire format cannot carry may differ: a nil versus an empty list, the include flag of a null start OID, the upper bound of a registration without range, the value attached to Null/NoSuchObject/NoSuchInstance/EndOfMibView, and fields that the PDU type or flags exclude.",
  ["inputs"], "every encodable PDU, both byte orders",
  "A pair of compensating or value-dependent errors (one sub-identifier value, one length, one int16 value) escapes fixed examples.",
  AX, [("EncodePdu / DecodePduHeader / DecodePduPayload", "agentx/pdu.go"), ("append*/parse* pairs", "agentx/encoding.go")],
  ["result of EncodePdu fed to DecodePduHeader and DecodePduPayload"])
p("C03", "Encoding succeeds exactly for representable PDUs",
  "Encoding reports success exactly when the PDU can be represented on the wire: known type, parameters of the kind that type requires, only flags allowed for the type, every included OID with at most 128 encoded sub-identifiers, every included varbind with a value type tag and a value of the matching Go type, non-negative GetBulk counters, and a payload of less than 2 GiB (a 32-bit signed length). In every other case it reports failure, and it never panics.",
  ["inputs"], "every combination of PDU type, parameter kind (including nil and pointers), flags byte, varbind tag and value type, OID length, payload size",
  "Tests only encode valid PDUs; the rejection side is a large product (256 types x 13 parameter kinds x 256 flags; 256 tags x value types).",
  AX, [("applicability and flag checks", "agentx/pdu.go EncodePdu"), ("allowed flags table", "agentx/pdu_tag.go"), ("recover", "agentx/pdu.go")],
  ["ok result of agentx.EncodePdu"])
p("C04", "Header decoding accepts exactly well-formed headers",
  "Decoding a header succeeds exactly when the data is 20 bytes long, the version is 1, the type is known, the flags are allowed for that type, the reserved byte is zero and the payload length is non-negative and a multiple of 4. On success the type, flags, three ids and payload length are exactly those in the bytes, read in the byte order the flags select.",
  ["inputs"], "every byte string; in particular every value of the first four bytes and of the length field",
  "4 billion first-word values and all length values; tests use valid headers only.",
  ["agentx/pdu.go", "agentx/pdu_tag.go", "agentx/flags.go", "agentx/encoding.go"], [("DecodePduHeader", "agentx/pdu.go"), ("NotAllowedFlags", "agentx/pdu_tag.go")],
  ["result of agentx.DecodePduHeader"])
p("C05", "Payload decoding accepts exactly well-formed payloads",
  "For a PDU with a valid header, payload decoding succeeds exactly when the data has the announced size and is a complete, well-formed payload of that PDU type with nothing left over: correct lengths, zero padding and reserved bytes, at most 128 sub-identifiers per OID, known 16-bit varbind types, IpAddress of length 4, non-negative GetBulk counters. On success the context, parameters, ranges and varbinds are exactly those in the bytes and the header fields are unchanged.",
  ["inputs"], "every header and every payload byte string",
  "The malformed side (one wrong length, padding, reserved, type or count byte anywhere, truncation at any point, trailing data) is a space tests do not enter.",
  AX, [("DecodePduPayload", "agentx/pdu.go"), ("parse* methods with checks", "agentx/encoding.go, agentx/varbind.go, agentx/payload_params.go")],
  ["result of agentx.DecodePduPayload and the decoded Pdu"])
p("C06", "Hostile bytes cannot crash, hang or exhaust the decoder",
  "Header and payload decoding (and their debug versions) return an ok/fail result for every byte string: they never panic, always terminate, and allocate an amount of memory bounded by a linear function of the number of input bytes, whatever lengths and counts the bytes announce.",
  ["inputs", "fault_sequences"], "every byte string offered as header or payload of every PDU type, including huge announced lengths, truncation at every byte and single-byte corruption",
  "Tests never measure allocation and never decode hostile input.",
  AXD, [("recover in every entry point", "agentx/pdu.go"), ("size checks before allocation", "agentx/encoding.go parseOpaque, parseOctetString, parseObjectId")],
  ["panics, termination and allocated bytes of the four decode functions"])
p("C07", "Debug variants behave like the plain functions",
  "For every input the debug version of encoding, header decoding and payload decoding gives the same verdict as the plain function and, on success, the same bytes or PDU. When it fails, the log says so with a record marked !!!; when it succeeds no such record is written; and no log record contains a formatting error.",
  ["inputs"], "every PDU and byte string, valid or not",
  "The debug code is a separate second implementation; tests compare it on valid samples only.",
  AXD, [("EncodePduDbg, DecodePduHeaderDbg, DecodePduPayloadDbg", "agentx/pdu.go"), ("encoderDbg/decoderDbg", "agentx/encoding_dbg.go")],
  ["results and log records of the *Dbg functions compared with the plain ones"])
p("C08", "Codec results and caller data never share or change",
  "Encoding never modifies the PDU or the slices it refers to, and decoding never modifies the input bytes or reads or writes beyond them; overwriting or reusing an input buffer, or modifying or extending a result, never changes any other result. Decoding a payload into a PDU variable that was used before gives the same payload fields as decoding into a fresh one.",
  ["histories"], "every sequence of encode/decode/mutate/reuse steps on shared buffers and PDU variables",
  "Tests use fresh values for every call; aliasing only shows in multi-step histories.",
  AX, [("copies in parse*/append*", "agentx/encoding.go"), ("result slice allocated per call", "agentx/pdu.go")],
  ["values and buffers observed after later steps of a history"])
p("C09", "Concurrent codec and formatting calls are independent",
  "Any number of goroutines may encode, decode, format and compare values, different ones or the same one (which nobody modifies), at the same time; under every interleaving each call returns exactly what it returns when it runs alone, without data races or deadlock.",
  ["schedules"], "all interleavings of 2-3 goroutines each making codec/formatting calls",
  "Tests are sequential; a shared scratch buffer or lazily built table is invisible to them.",
  AXD + ["hex/dump.go", "oid/oid.go", "asn/value.go", "internal/struct.go", "internal/indent.go"], [("no package-level mutable state", "all packages"), ("read-only tables", "agentx/pdu_tag.go, agentx/varbind.go, asn/value.go")],
  ["results of concurrent calls"])
p("C10", "A byte stream of PDUs is self-delimiting and contains faults",
  "If any sequence of encoded PDUs is concatenated, a reader that alternately takes 20 header bytes and then the announced number of payload bytes recovers exactly that sequence and ends exactly at the end of the stream. A payload corrupted in place without changing its length affects only its own PDU: all others are still recovered, unchanged and in order.",
  ["histories", "fault_sequences"], "every sequence of PDUs of all types and byte orders, with payload corruption at any position",
  "Tests encode and decode single PDUs.",
  AX, [("payload length in the header", "agentx/pdu.go"), ("per-PDU state only", "agentx/pdu.go DecodePduPayload")],
  ["PDUs recovered by the read loop documented in agentx/agentx.go"])
p("C11", "OID comparison is the lexicographic total order",
  "Comparing two OIDs returns -1, 0 or +1 according to lexicographic order of unsigned 32-bit sub-identifiers with a proper prefix before its extensions; it is a total order, and the six predicates (lt, le, eq, ne, ge, gt) agree with it. The prefix test is true exactly when the OID starts with the given sub-identifiers.",
  ["inputs"], "every pair and triple of OIDs",
  "Tests sample pairs with small sub-identifiers; sign, width and length-difference errors need specific pairs.",
  ["oid/oid.go"], [("Compare, Lt..Gt, HasPrefix", "oid/oid.go")], ["results of oid.Compare, Lt, Le, Eq, Ne, Ge, Gt, HasPrefix"])
p("C12", "OID text form round-trips and the parser is strict",
  "The text form of an OID is its sub-identifiers in decimal joined by dots, and parsing it gives the OID back. Parsing accepts exactly an optional leading dot followed by nothing or by 1 to 128 dot-separated decimal numbers of at most 32 bits, and panics on every other string.",
  ["inputs"], "every OID of up to 128 sub-identifiers and every string",
  "Tests cover a handful of strings; the accept/reject boundary (empty parts, signs, overflow, count limit) is not enumerated.",
  ["oid/oid.go"], [("Parse", "oid/oid.go"), ("String, Fprint", "oid/oid.go")], ["results or panics of oid.Parse, oid.String, oid.Fprint"])
p("C13", "Cloned and concatenated OIDs are independent copies",
  "Cloning an OID or concatenating sub-identifiers to it yields the expected sub-identifiers in memory shared with no argument and no other result: later changes to (or appends to) any of them never show in another, and the arguments, including spare capacity behind them, are left unmodified.",
  ["histories"], "every sequence of clone/cat/append/overwrite steps over shared slices",
  "Tests check values, not aliasing through spare capacity.",
  ["oid/oid.go"], [("Clone, Cat allocate a new slice", "oid/oid.go")], ["slice contents after later mutations"])
p("C14", "OID tree contents follow add, remove and clear exactly",
  "After any sequence of add, remove and clear, the tree contains exactly the nodes of the prefix-closed set those operations define: adding returns the new node with its missing ancestors created, or nil if the OID is empty or already present; removing deletes the node with all its descendants and reports whether it was present; lookup returns the node of that OID or nil. Nodes keep their identity and attached data until removed, parents and children stay mutually consistent and sorted by sub-identifier, and the OID slices passed in may be reused by the caller.",
  ["histories"], "every sequence of tree operations",
  "The only tree test inserts three OIDs and prints them.",
  ["oid/tree.go", "oid/node.go"], [("addNode/removeNode/searchChild", "oid/node.go"), ("sorted Children", "oid/node.go addChild")],
  ["results of AddNode, GetNode, RemoveNode, Clear, ForRangeLeaves and exported Node fields"],
  [("Tree.root", "root of the prefix tree", "oid/tree.go"), ("Node.Children", "children sorted by Subid", "oid/node.go")])
p("C15", "GetNext returns the least leaf in the requested range",
  "For every tree, get-next with a start OID, an end OID and an include flag returns the leaf with the smallest OID that is greater than the start (or equal to it when include is set) and less than the end (an empty end means no upper limit), and nil exactly when there is none. Consequently repeated get-next from the empty OID visits every leaf once, in ascending order.",
  ["histories", "inputs"], "every tree content and every (start, end, include)",
  "No test calls get-next at all.",
  ["oid/tree.go", "oid/node.go"], [("getNextNode", "oid/node.go")], ["node returned by Tree.GetNextNode"])
p("C16", "Leaf enumeration is complete, ordered and uses fresh OIDs",
  "Enumerating the leaves calls the function exactly once per leaf, in ascending OID order, with that leaf's node and its full OID. The OID slice passed is the callback's to keep: retaining, modifying or appending to it changes neither the tree nor the OIDs passed for other leaves.",
  ["histories"], "every tree content and every callback that keeps or modifies its argument",
  "The only test prints three leaves and asserts nothing.",
  ["oid/tree.go", "oid/node.go", "oid/oid.go"], [("forRangeLeaves", "oid/node.go"), ("Cat", "oid/oid.go")], ["callback invocations of Tree.ForRangeLeaves"])
p("C17", "Concurrent OID tree operations are atomic and never deadlock",
  "When several goroutines call tree operations (add, get, get-next, remove, clear, leaf enumeration) concurrently, every interleaving is equivalent to executing the calls one after another in some order consistent with real time, without data races or deadlock. A panic in an enumeration callback leaves the tree usable, and several enumerations or lookups may run at the same time.",
  ["schedules"], "all interleavings of 2-3 goroutines each making 1-2 tree calls",
  "Tests are sequential; lock omissions and early unlocks only show in particular interleavings.",
  ["oid/tree.go", "oid/node.go"], [("Tree.lock read/write lock with deferred unlock", "oid/tree.go")], ["call/return history of concurrent Tree calls"],
  [("Tree.lock", "RWMutex protecting the node structure", "oid/tree.go")])
p("C18", "Hex dumps show exactly the requested bytes",
  "A hex dump of data[i1:i2] consists of lines holding the prefix, the 8-digit upper-case offset of the line's first byte and up to 4 bytes in upper-case hex, so that the bytes and offsets can be read back exactly; an empty range gives only the offset. Out-of-range bounds (including an oversized or negative tail) give the out-of-range message instead of a panic.",
  ["inputs"], "every data, prefix and pair of bounds",
  "No test covers the package.",
  ["hex/dump.go"], [("DumpSub, DumpTail, Dump, encodeOffset", "hex/dump.go")], ["strings returned by hex.Dump, DumpSub, DumpTail"])
p("C19", "Hex diff is empty iff equal and marks exactly the differences",
  "The diff of two byte slices is the empty string exactly when they are equal; otherwise it lists every 4-byte row of both in order, a row with equal bytes once and unmarked, a row that differs twice with the two marks, showing the first and then the second slice's bytes.",
  ["inputs"], "every pair of byte slices",
  "Only used by tests to print failures; never asserted.",
  ["hex/dump.go", "generics/generics.go"], [("DumpDiff, encodeData", "hex/dump.go"), ("Min, Max", "generics/generics.go")], ["string returned by hex.DumpDiff"])
p("C20", "Symbolic names are total, distinct and match the protocol",
  "PDU types, flags, close reasons, value tags and error codes render their protocol names for every defined value, and a distinct fallback carrying the number for every other value, never panicking; rendered flags list exactly the bits set. The known/value tests hold exactly for defined codes, and the not-allowed-flags query returns exactly the bits outside the set allowed for the type (all bits for an unknown type).",
  ["inputs"], "the full domains: 256 types, 256x256 type/flags, 256 reasons, 256 tags, 65536 error codes",
  "Tests never render unknown values or enumerate the tables.",
  ["agentx/pdu_tag.go", "agentx/flags.go", "agentx/close_reason.go", "asn/tag.go", "asn/value.go", "pduerror/error.go", "pduerror/error_string.go"],
  [("name tables and switches", "agentx/pdu_tag.go, agentx/close_reason.go, asn/value.go, pduerror/error_string.go")], ["String, IsKnown, IsValueTag, NotAllowedFlags"])
p("C21", "A value is declared valid exactly when it can be encoded",
  "For every value tag and every Go value, the tag's validity test says yes exactly when a varbind with that tag and value encodes successfully (for OIDs within the length limit), decoding returns values for which the test says yes, and formatting a valid value shows it in its textual form while an invalid one shows '?'.",
  ["inputs"], "256 tags x values of every relevant Go type",
  "Two tables in different packages must agree; no test relates them.",
  ["asn/value.go", "agentx/varbind.go", "ipa/ip_address.go"], [("asn table", "asn/value.go"), ("varbind table", "agentx/varbind.go")], ["Tag.IsValidValue, Tag.Fprint, agentx.EncodePdu"])
p("C22", "Well-known OID names map to their registered OIDs",
  "Every predefined name in the OID name table maps to the OID registered for it (RFC 1155/3418/2863 system and interfaces groups), names do not share an OID or its memory, and no library operation changes the table.",
  ["inputs", "histories"], "every name in the table, before and after sequences of library operations on its OIDs",
  "The test only reads back an entry it has itself inserted.",
  ["oid/name.go"], [("Name map", "oid/name.go")], ["oid.Name"])
p("C23", "PDU, varbind and range rendering is total and faithful",
  "Rendering a PDU, varbind or search range never panics for any content (any depth of 0 or more), is deterministic, and shows every field with its name and its value in textual form, nested parts indented by depth; PDUs that differ in a shown field render differently (for strings without control characters).",
  ["inputs"], "every PDU, varbind, search range and depth, including unknown types, nil parameters and mismatched values",
  "Tests only print renderings on failure.",
  ["agentx/pdu.go", "agentx/search_range.go", "asn/varbind.go", "asn/value.go", "internal/struct.go", "internal/indent.go", "ipa/ip_address.go"],
  [("StructString by reflection", "internal/struct.go"), ("Fprint methods", "agentx/search_range.go, asn/varbind.go")], ["Pdu.String, SearchRange.String, asn.Varbind.String, ipa.String"])
p("C24", "The console logger writes every record whole and in order",
  "Every record given to the console logger appears on standard output exactly once, completely and verbatim (formatted records as formatted), followed by one newline, in call order; records written concurrently are never mixed within a line or lost.",
  ["histories", "schedules"], "every sequence of plain and formatted records, sequential or from several goroutines",
  "Tests use the logger but never look at its output.",
  ["logger/logger.go"], [("Console", "logger/logger.go")], ["bytes written to standard output"])
p("C25", "Whatever decoding accepts can be sent on",
  "Every PDU that header and payload decoding accept can be encoded again, in the received and in the other byte order; decoding that encoding gives the same PDU (apart from the payload size, the byte order flag when it was changed, and what the wire format cannot carry), and encoding the result once more gives the same bytes.",
  ["inputs"], "every header and payload the decoder accepts, in particular those no encoder of this library would produce (uncompressed OIDs, unusual prefixes, include flags, types without values)",
  "Tests decode only what the library itself encoded; a payload of another implementation that is accepted but cannot be forwarded is never seen.",
  AX, [("EncodePdu, DecodePduPayload", "agentx/pdu.go"), ("limits on both sides", "agentx/encoding.go maxSubids; agentx/payload_params.go")],
  ["result of DecodePduPayload fed to EncodePdu and back"])
p("C26", "Debug logs show the processed bytes where they are",
  "Every line of a hex dump in the log of a debug call shows bytes of the encoded or decoded data at exactly the offset it names, and no dump is out of range. The log of a decoding shows all its input bytes, and when it succeeds each byte is shown a second time where it is parsed and every decoded number, string, OID and address appears in textual form; the log of a successful encoding shows all bytes of the result.",
  ["inputs"], "every PDU encoded and every byte string decoded with the debug functions, successful or not",
  "Tests never look at the content of a debug log.",
  AXD + ["hex/dump.go"], [("nextChunk and the append*/parse* methods", "agentx/encoding_dbg.go"), ("EncodePduDbg, DecodePduHeaderDbg, DecodePduPayloadDbg", "agentx/pdu.go")],
  ["records written to the logger.Log argument"])
p("C27", "Fprint appends exactly the text form",
  "Fprint of an OID, address, flags, varbind, search range or value appends to the builder exactly the text that String gives for it (for a bare value: that it writes to an empty builder), whatever the builder holds already, and leaves what it holds unchanged; any sequence of such calls gives the concatenation of the texts.",
  ["inputs", "histories"], "every printable value, every content and capacity of the builder, every sequence of calls",
  "Tests call String only; a separator, shared buffer or trimming that depends on the builder's content is never seen.",
  ["oid/oid.go", "ipa/ip_address.go", "agentx/flags.go", "agentx/search_range.go", "asn/varbind.go", "asn/value.go"], [("Fprint functions", "oid, ipa, agentx, asn")],
  ["content of the strings.Builder"])
p("C28", "Min and Max give the lesser and the greater argument",
  "For every ordered type and every two arguments (other than NaN), Min returns the lesser and Max the greater of them.",
  ["inputs"], "all signed, unsigned, floating-point and string types, named types included, and all pairs of values",
  "No test calls them directly.",
  ["generics/generics.go"], [("Min, Max", "generics/generics.go")], ["result"])
p("C29", "Structure diffs are empty iff equal and mark the differing lines",
  "Rendering a structure lists every field with its name and value, nested fields and elements below it. The diff of two structures is empty exactly when their renderings are equal; otherwise it lists the lines of both in order, an equal line once and unmarked, a differing one (or one that only one of them has) twice with the two marks, first and then second.",
  ["inputs"], "every pair of structures (fields of any supported kind, lists, pointers, interfaces, several lines of text)",
  "The repository's own tests rely on this diff to notice a wrong PDU, so a diff that overlooks a difference also blinds them.",
  ["internal/struct.go", "internal/indent.go"], [("StructString, StructsDiff, StringsLinesDiff", "internal/struct.go")], ["internal.StructString, internal.StructsDiff"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
