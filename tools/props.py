"""Source of /verif/properties.jsonl and of the per-check text in /verif/MANIFEST.json.

Run `python3 tools/props.py` to regenerate both (deterministic)."""
import json, os, sys

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False,
         technique=None, level="exploration", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, state=state, hook=hook,
                  technique=technique, level=level, note=note, na=na))

PR = "mbus/mbus-protocol.c"
PH = "mbus/mbus-protocol.h"
AX = "mbus/mbus-protocol-aux.c"
AH = "mbus/mbus-protocol-aux.h"
SE = "mbus/mbus-serial.c"
TC = "mbus/mbus-tcp.c"

CODEC = "Real library built with clang ASan+UBSan (and MSan where stated), driven by generated frames; "
SESS = "Real library linked against a deterministic virtual device layer (--wrap of system calls, virtual time) that records every event; "

# ---------------------------------------------------------------- memory / robustness
prop("M01", "Decoding any bytes never corrupts memory or invokes undefined behaviour",
  "For every byte string handed to mbus_parse, and for every frame that it accepts, every decoding, printing, XML, normalisation and record-access function of the library stays inside its objects (including struct members), never uses freed memory, never executes undefined behaviour and always returns.",
  ["inputs", "histories"], "all byte strings of any length, parsed into fresh or previously used frame objects, followed by every public decode/print/XML/normalise function in any order",
  "110 fixed hex files run without sanitizers; an out-of-range read or one-byte overflow inside a struct or static buffer is silent there.",
  [PR, AX], [("frame parser", "mbus_parse"), ("record parser bounds", "mbus_data_variable_parse"), ("XML buffer growth", "mbus_data_variable_xml / mbus_frame_xml"), ("text encoder", "mbus_str_xml_encode")],
  "sanitizer reports, canary bytes and process status of a worker that runs the public API",
  technique="ASan+UBSan runtime monitoring under structured generation and coverage-guided fuzzing",
  note="Runs every public decoder on generated, mutated and coverage-guided inputs with fatal sanitizers and exact-size heap inputs. Blind spots: paths never driven, and in-struct overruns that UBSan's array-bounds instrumentation does not see.")

prop("M02", "No result depends on uninitialised or out-of-message memory",
  "Every observable result of decoding (return codes, decoded fields, XML text, printed text, normalised records, packed bytes) is a function of the input bytes alone: no branch or output depends on memory the library never initialised.",
  ["inputs", "histories"], "all byte strings and all public decode/pack functions",
  "Tests compare output for one heap layout; a value read from uninitialised memory usually happens to be zero there.",
  [PR, AX, TC, SE], [("frame object zeroing", "mbus_frame_new"), ("record zeroing", "mbus_data_record_new"), ("out-parameters of codecs", "mbus_data_int_decode and users")],
  "MemorySanitizer shadow state at every branch and at the observed outputs; equality of outputs under differing heap fill patterns",
  technique="MemorySanitizer plus differential runs under different malloc fill patterns",
  note="Same workload as M01 in an MSan build with origin tracking; outputs are checked for initialisedness at the worker's boundary.")

prop("M03", "Every allocation is released exactly once",
  "After the caller frees what the interface hands over (frames incl. chained telegrams, frame data, records, XML strings, address strings, handles), no library allocation of that operation remains and nothing is freed twice, on success paths and on every parse or transport error path.",
  ["inputs", "fault_sequences", "histories"], "all inputs accepted or rejected by the decoder and all session outcomes (timeouts, invalid replies, resets, multi-telegram failures)",
  "The tests are short-lived processes: leaks and double frees on error paths do not change their output.",
  [PR, AX, SE, TC], [("record list release", "mbus_data_record_free"), ("frame data release", "mbus_frame_data_free"), ("multi-telegram clean-up", "mbus_sendrecv_request / mbus_frame_xml")],
  "balance of malloc/free events per operation, recorded through the sanitizer allocator hooks",
  technique="online allocation-balance monitor over ASan malloc/free hooks",
  note="Per-operation conservation (allocated = freed after the documented releases) over decode operations and virtual bus sessions.")

prop("M04", "A failed allocation is reported, not dereferenced",
  "If any single allocation made by the library fails, the operation that needed it still returns, through its documented failure value or with a result from which only what could not be built is absent, without dereferencing NULL, corrupting memory, or leaking what it had already allocated.",
  ["fault_sequences", "inputs"], "every position k of a failing malloc/calloc/realloc/strdup/strndup/asprintf within each public operation, over representative inputs",
  "No test injects allocation failure; the unchecked results are only visible when memory runs out.",
  [PR, AX, SE, TC], [("checked allocation", "mbus_frame_new"), ("XML growth", "mbus_data_variable_xml realloc"), ("normalised strings", "mbus_vif_unit_normalize strdup")],
  "process status, sanitizer reports and return values with the k-th allocation failing, for every k",
  technique="exhaustive single-fault allocation-failure injection under ASan", level="fault_enumeration",
  note="For each driven operation every single failing allocation index is enumerated until the operation completes without a fault.")

prop("M05", "A hostile or faulty bus cannot break the master",
  "Whatever bytes, silences, disconnects and system-call failures a serial line or TCP peer produces, every master operation (request, ping, select, probe, scan, purge, receive, set address, read slave) terminates after a number of telegrams bounded by the retry options and by what the peer sends, with one of its documented result values, never corrupts memory and never blocks when the peer is silent.",
  ["fault_sequences", "histories", "inputs"], "all sequences of peer bytes and of read/write/recv outcomes (short, zero, EINTR, EAGAIN, ECONNRESET, EIO, EPIPE) during every master operation",
  "The test suite never opens a handle; no transport code runs at all.",
  [AX, SE, TC], [("receive loops", "mbus_serial_recv_frame / mbus_tcp_recv_frame"), ("request loop", "mbus_sendrecv_request"), ("probe loop", "mbus_probe_secondary_address")],
  "sanitizer reports, step counts in virtual time and return values of sessions against scripted peers",
  technique="ASan+UBSan sessions on a virtual bus with randomised fault scripts",
  note="Bounded progress: every operation must finish within a step budget on the virtual clock; SIGPIPE or a fatal signal counts as a violation.")

prop("M06", "Missing arguments are refused, never dereferenced",
  "Every library function that reports a result refuses a call without the frame, data, record, buffer, text, address or handle it works on (a null pointer, or a handle that is not connected) with its failure value, and every void one ignores it: no crash, nothing is sent, no descriptor or memory is left behind and the other arguments stay as they are. (Not judged: the output pointers of mbus_variable_value_decode and the registration of callbacks on a missing handle.)",
  ["inputs"], "every pointer argument of every function of the public headers, one at a time, around telegrams of all sizes",
  "The test suite calls a handful of functions, always with all arguments.",
  [PR, AX, SE, TC], [("parse", "mbus_parse"), ("pack", "mbus_frame_pack"), ("probe", "mbus_probe_secondary_address"), ("transport", "mbus_tcp_send_frame / mbus_serial_recv_frame")],
  "sanitizer reports, return values, descriptors and allocations around the call",
  technique="ASan+UBSan calls over the table of entry points",
  note="The table of calls (harness/args.h) covers the public headers; every call is repeated around several telegrams.")

# ---------------------------------------------------------------- frames
prop("F01", "Exactly the well-formed frames are accepted",
  "mbus_parse returns 0 exactly for a complete ACK (E5), short (10), control or long (68) frame whose start bytes, two equal lengths (at least 3), checksum, stop byte and control code (short: 40,5A,5B,7A,7B; long and control: 53,73,08,18,28,38) are all right and then reports the fields, type, direction and data unchanged; everything else gets a non-zero result (not judged: bytes behind a complete ACK, which no receive function ever reads). mbus_frame_verify gives the same verdict on the resulting frame object.",
  ["inputs"], "all byte strings; every single-byte and single-bit corruption of a valid frame; every value of every header byte",
  "The frame files cover a handful of corrupted frames; acceptance is a predicate over all byte strings.",
  [PR], [("parser", "mbus_parse"), ("verification", "mbus_frame_verify"), ("checksum", "mbus_frame_calc_checksum / calc_checksum")],
  "return value and public fields of the frame after mbus_parse",
  technique="reference-parser oracle over exhaustive header sweeps and corruptions",
  note="Independent Python acceptance predicate compared with every execution; sweeps every header byte value and single-byte corruption of many frames.")

prop("F02", "The need-more count drives byte-exact reassembly",
  "For every proper prefix of a frame that can still become valid, mbus_parse returns a positive count never exceeding the bytes still missing, and following those counts reads exactly the frame's own bytes: never a byte beyond it, always reaching the same final verdict as parsing it whole.",
  ["inputs", "histories"], "all prefixes of all valid frames (and of frames with a wrong checksum, stop or control byte) and all trailing garbage",
  "Tests hand whole files to the parser, never prefixes.",
  [PR, SE, TC], [("short/long prefix counts", "mbus_parse"), ("reader loop", "mbus_tcp_recv_frame / mbus_serial_recv_frame")],
  "the sequence of return values for growing prefixes",
  technique="online monitor of the parse-return protocol over all prefixes",
  note="Each generated frame is fed prefix by prefix; the count sequence is judged against the frame's true length.")

prop("F03", "Parsing leaves no trace of earlier messages",
  "The verdict on a message, the fields, type, data and payload decoding of the resulting frame, and its XML, are the same whether the frame object is fresh or was used before for any other accepted, rejected or truncated message; rejected data is never presented as part of a later message.",
  ["histories", "inputs"], "all sequences of messages (valid, corrupt, truncated, ACK, short, long) parsed into one frame object, and any interleaving of decodings of several frames",
  "Every test process parses a single message with a fresh frame.",
  [PR], [("ACK/short/long assignment", "mbus_parse"), ("static work buffers", "mbus_data_record_value and other static buffers")],
  "decoded results after a history compared with results from a fresh process state",
  technique="differential history monitor (used frame vs fresh frame)",
  note="Each history's final message is decoded on the used object and on a fresh one; all public observations must agree.")

prop("F04", "Packing inverts parsing and respects the caller's buffer",
  "For every frame the library can represent, mbus_frame_pack emits exactly the link-layer encoding with correct length bytes and checksum and parsing it gives the frame back; a buffer that is too small or an unknown type gives a negative result and no byte outside the caller's buffer is ever written.",
  ["inputs"], "all frame types, control/address/CI values, payload lengths 0..252 and buffer sizes",
  "No test packs a frame.",
  [PR], [("packer", "mbus_frame_pack"), ("length", "mbus_frame_calc_length"), ("checksum", "mbus_frame_calc_checksum")],
  "bytes written into an exactly sized heap buffer and the return value",
  technique="round-trip oracle with exact-size ASan buffers",
  note="Reference encoder in Python; every payload length and buffer size around the boundary.")

prop("F05", "Printed and dumped views show the whole message",
  "mbus_frame_print, mbus_hex_dump and the send/receive dump callbacks print every byte of the frame or buffer, in order and in hex, for every length up to the maximum frame, and report failure rather than printing garbage for a frame they cannot print.",
  ["inputs"], "all frames of every type and length and all dump buffers",
  "Debug printing is never exercised by the tests.",
  [PR], [("frame print", "mbus_frame_print"), ("hex dump", "mbus_hex_dump")],
  "captured standard output/error",
  technique="output-parsing oracle under ASan",
  note="Captured output is parsed back to bytes and compared with the input.")

# ---------------------------------------------------------------- variable data
prop("V01", "Record segmentation is exact and complete",
  "For every variable-data payload, mbus_frame_data_parse either yields one record per DIF in order - filler bytes skipped, each with exactly its DIF, DIFEs, VIF, VIFEs, custom unit text, data bytes and data length, and the DIF 0F/1F tail (1F flagging more records) as one last record - or fails as a whole when a record is cut short, has more than 10 DIFEs or 10 VIFEs, or a custom unit text of more than 128 bytes. Record count and more-records flag are those of this telegram, whatever the data object held before.",
  ["inputs"], "all payloads: every data-field code incl. variable length, 0-10 extension bytes, every truncation point, total length up to 252",
  "The sample telegrams hit few extension depths, few variable-length codes and almost no truncation points.",
  [PR], [("record parser", "mbus_data_variable_parse"), ("data length table", "mbus_dif_datalength_lookup")],
  "record list returned by the public structs",
  technique="reference-segmentation oracle over generated payloads and all truncations",
  note="Independent Python record splitter; DIFs and LVAR codes reserved by the standard are generated for M01 but not judged here.")

prop("V02", "Storage, tariff, subunit and function are decoded in full",
  "For every record, storage number, tariff and subunit equal the value assembled from DIF bit 6 and all DIFEs (4, 2 and 1 bits each, least significant first) as long as it fits the return type, tariff and subunit are -1 without DIFE, and the function text follows the two function bits (or names the special DIF), identically in the accessors, the plain XML and the normalised XML.",
  ["inputs"], "all combinations of DIF and up to 10 DIFE bytes",
  "Sample files rarely have more than two DIFEs.",
  [PR, AX], [("storage", "mbus_data_record_storage_number"), ("tariff", "mbus_data_record_tariff"), ("device", "mbus_data_record_device"), ("function", "mbus_data_record_function")],
  "accessor return values and XML elements",
  technique="reference-decoder oracle",
  note="Values beyond the return type's range are not judged (but remain under M01).")

prop("V03", "Numeric record values are exact",
  "For every integer (8-64 bit two's complement, little endian), BCD (2-12 digits, negative when the top digit is F) and 32-bit real record, mbus_data_record_value prints exactly that number, and mbus_variable_value_decode returns the same number as a double.",
  ["inputs"], "all data-field codes with all byte contents, in particular sign, carry and digit boundaries of each width",
  "Samples contain few negative, wide or boundary values.",
  [PR, AX], [("integer decode", "mbus_data_int_decode / long_decode / long_long_decode"), ("BCD decode", "mbus_data_bcd_decode"), ("float decode", "mbus_data_float_decode"), ("value text", "mbus_data_record_value"), ("normalised value", "mbus_variable_value_decode")],
  "value text and decoded double per record",
  technique="reference-decoder oracle with boundary-biased generation",
  note="BCD with non-decimal digits is only checked for memory safety and, in error-state records, for the hexadecimal text. The portable float decoder (_HAS_NON_IEEE754_FLOAT, for hosts without IEEE floats) is built separately and held to the same values, infinities and NaN excepted.")

prop("V04", "Dates and times decode to the encoded calendar instant",
  "For every valid type F (32-bit), type G (16-bit) and type I (48-bit) date value, the value text is the encoded year, month, day, hour, minute and second as YYYY-MM-DD or YYYY-MM-DDTHH:MM:SS, with the century rule of the type applied, for every VIF that denotes a date.",
  ["inputs"], "all calendar dates and times 1900-2299 representable in each type",
  "A few samples dates cover neither century bits nor field boundaries.",
  [PR, AX], [("bit-field decode", "mbus_data_tm_decode"), ("formatting", "mbus_data_record_value / mbus_variable_value_decode")],
  "value text in plain and normalised output",
  technique="reference-decoder oracle",
  note="Values with the invalid/leap/summer flags set or out-of-range fields are not judged.")

prop("V05", "Text, binary and manufacturer data survive decoding",
  "For every variable-length record, ASCII text is the transmitted bytes in reading (reversed) order, and binary, unknown-type and manufacturer-specific data is the complete hex dump of the record's bytes (binary numbers most significant byte first, manufacturer-specific data in the order of transmission, as in the documents shipped with the library), for every length the frame can carry.",
  ["inputs"], "all variable-length codes, lengths 0..max and byte contents, and DIF 0F/1F tails",
  "Samples contain short ASCII strings only.",
  [PR, AX], [("text decode", "mbus_data_str_decode"), ("hex dump", "mbus_data_bin_decode"), ("value text", "mbus_data_record_value")],
  "value text per record, plain and normalised",
  technique="reference-decoder oracle",
  note="Embedded NUL bytes end a text value by design of the char* interface; texts are judged up to the first NUL.")

prop("V06", "Header, identity and error telegrams are reported as sent",
  "For every accepted variable, fixed or error telegram, the reported id, three-letter manufacturer, version, medium, access number, status, signature and error text are those encoded in the telegram's bytes, and the product name is that of the known device with this identity or empty, in the structs and in both XML forms; payloads too short for their header, unknown CI fields and MSB-first modes are rejected.",
  ["inputs"], "all header byte values, all medium and error codes, all CI values and payload lengths",
  "Samples cover a fraction of media, manufacturers and status values.",
  [PR, AX], [("header parse", "mbus_data_variable_parse / mbus_data_fixed_parse"), ("manufacturer", "mbus_decode_manufacturer"), ("medium table", "mbus_data_variable_medium_lookup"), ("error table", "mbus_data_error_lookup")],
  "struct fields and XML elements",
  technique="reference-table oracle",
  note="Medium, error and function texts are compared with tables transcribed from the standard/headers, case-insensitively where free text.")

# ---------------------------------------------------------------- XML
prop("X01", "Every XML document is well-formed and safely escaped",
  "For every accepted telegram or chain of telegrams, the plain and the normalised XML document is well-formed in its structure, carries each value as text (markup characters in meter-supplied text are escaped, control characters neutralised, nothing injected), and mbus_str_xml_encode never writes past the destination and never cuts an entity in half.",
  ["inputs"], "all telegrams, in particular text values and custom unit texts made of markup, quotes, control and 8-bit characters, at every length",
  "Samples contain no markup characters.",
  [PR, AX], [("escaping", "mbus_str_xml_encode"), ("document assembly", "mbus_data_variable_xml / mbus_frame_xml / mbus_data_variable_xml_normalized")],
  "the XML strings, parsed by an independent XML parser",
  technique="independent-parser oracle over hostile text",
  note="8-bit bytes are parsed as ISO-8859-1 as declared by the document; text must round-trip (control characters to blanks).")

prop("X02", "XML holds every record of every telegram once, in order",
  "The XML of a telegram, and of a multi-telegram reply via mbus_frame_xml, contains exactly one DataRecord per decoded record in order with consecutive ids and (for chains) frame numbers, each with the same function, storage, tariff, device, unit and value the record accessors report; an undecodable telegram yields no document rather than a partial one; the sample telegrams of real meters shipped with the library give the documents shipped with them.",
  ["inputs", "histories"], "all telegrams, chains of 1..n telegrams with 0..max records, long values and long unit texts",
  "Sample files are single telegrams; the chain and buffer-growth paths never run.",
  [PR, AX], [("single frame XML", "mbus_data_variable_xml"), ("chain XML", "mbus_frame_xml")],
  "parsed XML compared with accessor results",
  technique="conservation oracle: XML elements vs decoded records",
  note="Chains are linked through the public next pointer as the master does; includes telegrams whose records exceed the XML growth step.")

# ---------------------------------------------------------------- normalisation
prop("N01", "Normalised records carry the right unit and magnitude",
  "For every primary VIF, every FD/FB-extension VIF the library knows, and, outside the FD/FB tables, an optional first VIFE scaling factor (70-77, 7D), the normalised record's quantity, SI unit and value equal the transmitted number times the factor EN 13757-3 assigns to that VIF (energy, volume, mass, time, power, flow, temperature, pressure, dates, identification, FD and FB tables).",
  ["inputs"], "all VIF/VIFE codes crossed with integer, BCD and real values incl. negative",
  "The .norm.xml samples touch a small part of the VIF tables.",
  [AX], [("VIF table", "vif_table"), ("VIF lookup", "mbus_vif_unit_normalize"), ("extension and VIFE scaling", "mbus_vib_unit_normalize")],
  "unit, quantity and value of mbus_parse_variable_record and mbus_vib_unit_normalize",
  technique="standard-derived reference-table oracle",
  note="Table transcribed independently from EN 13757-3; month/year use the library's documented lengths; additive VIFEs (78-7B) and reserved codes are not judged.")

prop("N02", "Plain unit text and normalised unit never contradict",
  "For every VIF and FD/FB extension that both renderings know, the quantity, base unit and power of ten spelled in the plain unit text denote the same physical magnitude as the normalised unit and exponent, and the custom text of a plain-text VIF is reproduced with its scale prefix.",
  ["inputs"], "all VIF/VIFE codes known to both the plain and the normalised tables",
  "The tests compare each rendering to stored files, never to each other.",
  [PR, AX], [("plain unit", "mbus_vib_unit_lookup / mbus_vif_unit_lookup / mbus_unit_prefix"), ("normalised unit", "mbus_vib_unit_normalize")],
  "unit strings and exponents from the public functions",
  technique="cross-implementation consistency oracle",
  note="Plain texts are parsed semantically (prefix, unit, quantity), so a reworded text with the same meaning is accepted.")

prop("N03", "Normalised XML equals the normalised record interface",
  "mbus_frame_data_xml_normalized lists, for every variable-data telegram and record, exactly the unit, quantity, function, storage, tariff, device and value that mbus_parse_variable_record returns for that record, one DataRecord each; for a fixed-data telegram it is the plain document.",
  ["inputs"], "all variable and fixed telegrams",
  "The record interface is never called by the tests.",
  [AX], [("record normalisation", "mbus_parse_variable_record"), ("XML", "mbus_data_variable_xml_normalized")],
  "parsed XML vs returned record structs",
  technique="differential oracle between two public interfaces",
  note="Compares the two public renderings field by field.")

# ---------------------------------------------------------------- fixed data
prop("D01", "Fixed-format counters decode to value, unit and medium",
  "For every fixed-format telegram, both counters are reported with the value in the announced coding (BCD or binary, from all four bytes), the function (actual/stored), the unit of their 6-bit code and the medium of the two type bytes, in the structs, accessors and XML.",
  ["inputs"], "all type/unit byte pairs, status bytes and counter values",
  "The few fixed samples touch a handful of unit codes.",
  [PR, AX], [("parse", "mbus_data_fixed_parse"), ("unit", "mbus_data_fixed_unit"), ("medium", "mbus_data_fixed_medium"), ("XML", "mbus_data_fixed_xml")],
  "accessor results and XML",
  technique="reference-table oracle",
  note="All 65536 type byte pairs and all status bytes are swept.")

prop("D02", "Fixed-format normalisation keeps the physical value",
  "For every fixed-format unit code except time, date and the reserved ones, normalising counter value v gives the base unit, quantity and v times the factor the EN 1434-3 unit table assigns, and a same-as-counter-1-but-historic code or unknown code never yields a wrong unit; the document of the telegram shows both counters with the value their coding gives.",
  ["inputs"], "all unit codes, both codings, all counter values",
  "Normalised output for fixed telegrams is sampled for very few codes.",
  [AX], [("fixed table", "fixed_table"), ("normalise", "mbus_data_fixed_normalize"), ("record", "mbus_parse_fixed_record")],
  "unit/quantity/value of mbus_parse_fixed_record",
  technique="standard-derived reference-table oracle",
  note="Plain fixed unit text and normalised value are also checked against each other.")

# ---------------------------------------------------------------- codecs
prop("E01", "Value codecs are exact and mutually inverse",
  "For every value in range, integer, BCD and manufacturer encoders produce the standard encoding of exactly the requested size, decoding returns the original value for every size 1-8, and three-letter manufacturer codes convert to and from their 15-bit id without loss.",
  ["inputs"], "all sizes, sign and digit boundaries, all 26^3 manufacturer codes",
  "Encoders are not called by any test.",
  [PR], [("integer", "mbus_data_int_encode / mbus_data_*_decode"), ("BCD", "mbus_data_bcd_encode / mbus_data_bcd_decode"), ("manufacturer", "mbus_data_manufacturer_encode / mbus_decode_manufacturer / mbus_manufacturer_id")],
  "bytes and return values of the public codecs",
  technique="round-trip oracle, exhaustive for manufacturers and small widths",
  note="Exhaustive for 8/16-bit, 2/4-digit BCD and all manufacturers; boundary-biased random for wider sizes.")

prop("E02", "Hex text conversion takes exactly the hex byte pairs",
  "mbus_hex2bin converts every sequence of two-digit hex bytes separated by optional white space into exactly those bytes, stops at the first thing that is not a hex byte pair, never writes more than the destination holds and returns the number written.",
  ["inputs"], "all texts, all destination sizes incl. zero, upper/lower case, all white space, odd digits, signs and prefixes",
  "Test files contain clean hex only.",
  [AX], [("converter", "mbus_hex2bin")],
  "returned length and destination bytes",
  technique="reference-converter oracle with exact-size buffers",
  note="Independent converter; exact-size heap buffers under ASan.")

prop("A01", "Secondary addresses are validated and encoded faithfully",
  "mbus_is_secondary_address accepts exactly the strings of 16 hex digits, and the select telegram built for a valid mask (by mbus_frame_select_secondary_pack and mbus_send_select_frame) carries exactly that id, manufacturer, version and medium including wildcards; invalid masks send nothing.",
  ["inputs"], "all strings; all masks over digits and wildcards in either case",
  "No test touches secondary addressing.",
  [PR, AX], [("validation", "mbus_is_secondary_address"), ("encoding", "mbus_frame_select_secondary_pack")],
  "return codes and telegram bytes",
  technique="reference-encoder oracle",
  note="Judges id nibble order, manufacturer byte order, version, medium, control, CI and address fields of the select telegram.")

prop("A02", "A slave's reported secondary address selects that slave",
  "For every variable-data reply, mbus_frame_get_secondary_address returns the 16-character address of the replying slave (id, manufacturer, version, medium) such that a select telegram built from it matches exactly the identity bytes of that reply's header.",
  ["inputs"], "all variable-data headers with decimal ids",
  "No test touches secondary addressing.",
  [PR], [("address string", "mbus_frame_get_secondary_address"), ("encoding", "mbus_frame_select_secondary_pack")],
  "address string and select telegram bytes",
  technique="inverse-pair oracle",
  note="The header's eight identity bytes must come back in the select payload.")

prop("R01", "Re-encoding decoded data reproduces the telegram",
  "For every decoded variable- or fixed-data telegram, mbus_frame_internal_pack on its decoded form either rebuilds a payload that decodes to the same header and records, or fails with a negative result without writing outside the frame.",
  ["inputs"], "all accepted fixed and variable telegrams incl. extensions, custom units, variable lengths, manufacturer tails",
  "No test packs decoded data.",
  [PR], [("payload packer", "mbus_frame_internal_pack")],
  "payload bytes and a second decoding",
  technique="decode-encode-decode round-trip oracle under ASan",
  note="Filler bytes may be dropped; everything else must survive.")

# ---------------------------------------------------------------- master: telegrams
prop("T01", "Master telegrams on the wire are byte-exact",
  "For every valid argument, the request, ping, user-data, application-reset, baud-rate, set-address and select operations put exactly one telegram on the wire with the documented control, address, CI and data bytes and a correct checksum.",
  ["inputs", "configurations"], "all addresses, subcodes, baud rates, user data of length 0..252, on serial and TCP handles",
  "No test sends anything.",
  [AX], [("request", "mbus_send_request_frame"), ("ping", "mbus_send_ping_frame"), ("user data", "mbus_send_user_data_frame"), ("set address", "mbus_set_primary_address"), ("baud", "mbus_send_switch_baudrate_frame"), ("reset", "mbus_send_application_reset_frame")],
  "bytes written to the virtual line",
  technique="wire-trace oracle on a virtual bus",
  note="Exhaustive over addresses/subcodes/baud rates; randomised user data.")

prop("T02", "Invalid requests never reach the bus",
  "Arguments outside the documented ranges (primary addresses outside 0-255, new addresses that are not assignable (outside 0-255 or FD, FE, FF), unsupported baud rates, malformed secondary addresses, oversized user data, out-of-range options) are refused with a failure result, put no byte on the wire and leave the handle's settings unchanged.",
  ["inputs", "histories"], "all integers, baud rates, strings and option values",
  "No test sends anything.",
  [AX], [("address check", "mbus_is_primary_address / mbus_set_primary_address"), ("option check", "mbus_context_set_option"), ("baud check", "mbus_send_switch_baudrate_frame")],
  "bytes on the virtual line and return values",
  technique="wire-trace oracle on a virtual bus",
  note="Boundary-biased argument sweep; option effects are observed through later retry/purge behaviour.")

# ---------------------------------------------------------------- transports
prop("S01", "A TCP byte stream is cut into frames exactly",
  "Over TCP, whatever the chunking, interrupted calls and delays of the stream, each mbus_recv_frame delivers the next frame's bytes completely and in order and consumes no byte of the following frame, so consecutive frames are delivered exactly once each.",
  ["schedules", "inputs", "fault_sequences"], "all chunkings of all sequences of frames, with EINTR at any read",
  "No test opens a socket.",
  [TC], [("receive loop", "mbus_tcp_recv_frame")],
  "frames delivered and bytes consumed from a scripted stream",
  technique="stream-conservation monitor on a virtual socket",
  note="Random chunkings incl. 1-byte reads and EINTR storms; delivered bytes compared with the sent stream.")

prop("S02", "TCP receive outcomes are classified truthfully",
  "Over TCP a receive that gets no complete frame before the peer is silent reports timeout, an orderly close reports reset, another socket error reports error, and bytes that cannot be a frame report invalid; none of them reports success, and a success always carries a frame that verifies.",
  ["fault_sequences", "inputs"], "all fault positions within and between frames, all corrupt frames",
  "No test opens a socket.",
  [TC, AX], [("receive loop", "mbus_tcp_recv_frame"), ("result codes", "mbus_recv_frame")],
  "return values against the scripted cause",
  technique="fault-script oracle on a virtual socket", level="fault_enumeration",
  note="Every cut position of each generated frame is combined with every fault kind.")

prop("S03", "Serial receive assembles frames and classifies silence and noise",
  "On a serial line, whatever the chunking and the gaps shorter than the time-out, mbus_recv_frame delivers each frame exactly once without consuming following bytes; total silence reports timeout, an incomplete or malformed message invalid, and a read error error. (Fewer than three empty read periods inside one message are tolerated.)",
  ["schedules", "fault_sequences", "inputs"], "all chunkings, single empty reads within a frame, all cut positions, corrupt frames and read errors",
  "No test opens a serial port.",
  [SE], [("receive loop", "mbus_serial_recv_frame")],
  "frames delivered, bytes consumed, return values",
  technique="stream-conservation and fault-script oracle on a virtual serial line", level="fault_enumeration",
  note="At most one empty read is injected inside a frame in must-succeed cases; longer silences are judged as timeouts/invalid.")

prop("S04", "The serial port is configured as M-Bus requires",
  "Connecting a serial handle and mbus_serial_set_baudrate leave the port at the requested supported baud rate in both directions, 8 data bits, even parity, one stop bit, raw mode and a read time-out no shorter than the standard's response time; unsupported rates are refused and change nothing, and a device that cannot be opened or configured reports failure.",
  ["configurations", "fault_sequences"], "all baud rates, sequences of settings, and failures of open/tcsetattr",
  "No test opens a serial port.",
  [SE], [("open and set-up", "mbus_serial_connect"), ("baud", "mbus_serial_set_baudrate")],
  "termios state recorded at the virtual port",
  technique="state monitor on recorded termios calls",
  note="Termios captured from tcsetattr; timeout compared with 330 bit times + 50 ms.")

prop("S05", "Sending is all-or-error",
  "mbus_send_frame reports success only if every byte of the packed frame, and nothing else, was handed to the device in order; a short or failed write, an unpackable frame or a missing handle is reported as failure, and the process survives a peer that has gone away.",
  ["fault_sequences", "inputs"], "all frames and all write outcomes on serial and TCP handles",
  "No test sends anything.",
  [SE, TC, AX], [("serial send", "mbus_serial_send_frame"), ("TCP send", "mbus_tcp_send_frame"), ("dispatch", "mbus_send_frame")],
  "bytes accepted by the virtual device vs return value",
  technique="fault-script oracle on a virtual device", level="fault_enumeration",
  note="Short writes at every position, EIO/EPIPE/EAGAIN; a chain of frames and over-long data sizes.")

prop("C01", "Echo cancellation drops exactly the first echoed frame",
  "With the purge option selecting the direction of a frame, mbus_recv_frame discards exactly one leading frame of that direction and delivers the next one; with the option off or a frame of the other direction it delivers the first frame itself, and the delivered frame is time-stamped.",
  ["histories", "configurations"], "all purge settings, all frame kinds and sequences of frames on both transports",
  "No test receives anything.",
  [AX], [("purge logic", "mbus_recv_frame"), ("direction", "mbus_frame_direction")],
  "frames delivered vs frames on the line",
  technique="sequence oracle on a virtual bus",
  note="All three settings crossed with frame kinds; judged by unique frame contents.")

prop("C02", "Multi-telegram readout is complete, ordered and bounded",
  "mbus_sendrecv_request asks for a further telegram exactly while the last one announces more records (DIF 1F) and the frame limit (0 meaning none) is not reached, toggles the frame-count bit for each further telegram, and links all received telegrams in order through next, each exactly once.",
  ["histories", "schedules"], "all numbers of telegrams, frame limits, and losses/corruptions repaired by retries",
  "No test performs a request.",
  [AX], [("request loop", "mbus_sendrecv_request")],
  "request telegrams on the wire and the resulting chain",
  technique="trace oracle against a simulated slave that follows the frame-count-bit protocol",
  note="The slave model repeats its telegram when the FCB is not toggled, so a lost toggle shows up as a duplicate or missing telegram.")

prop("C03", "Retries are bounded and corrupt replies are never accepted",
  "When a reply is missing or corrupt, mbus_sendrecv_request repeats the same request (same frame-count bit) at most max_data_retry times per telegram, then fails; other transport errors, and valid frames that hold no decodable data, fail at once; and no reply that was corrupt, or is not a data reply, is ever returned as data with a success result.",
  ["fault_sequences", "histories", "configurations"], "all sequences of silence, corruption, ACKs, resets and errors, all retry settings 0..9",
  "No test performs a request.",
  [AX, PR], [("retry loop", "mbus_sendrecv_request"), ("stale frame fields", "mbus_parse")],
  "request telegrams on the wire, result code and reply contents",
  technique="trace oracle on a virtual bus with exhaustive short fault scripts", level="fault_enumeration",
  note="All outcome sequences up to length 4 over six reply kinds plus random longer ones.")

prop("C04", "Selection outcomes reflect what answered",
  "mbus_select_secondary_address and mbus_probe_secondary_address report nothing exactly for silence or a valid telegram of an unexpected kind, single exactly if a valid ACK (and for probe a valid data reply whose address is returned) came, collision for garbled or repeated answers, error for transport failures or invalid masks, and a probe sends each select at most max_search_retry+1 times. (Over TCP an answer that breaks off counts as silence.)",
  ["fault_sequences", "histories", "configurations"], "all sequences of select answers and request answers, all search-retry settings",
  "No test selects a slave.",
  [AX], [("select", "mbus_select_secondary_address"), ("probe", "mbus_probe_secondary_address")],
  "return codes, matching address, telegrams on the wire",
  technique="fault-script oracle on a virtual bus", level="fault_enumeration",
  note="All short scripts over answer kinds are enumerated.")

prop("C05", "A secondary scan finds every slave exactly once",
  "On a collision-faithful bus, mbus_scan_2nd_address_range from the all-wildcard mask, or any mask, reports exactly the slaves whose ids match the mask and are not duplicates in id, each once with its own address, for any population; announces every mask to a registered progress callback before trying it; fails when a telegram cannot be sent, at whatever depth; and terminates within the bounded number of probes the wildcard digits allow.",
  ["programs", "histories", "configurations"], "all populations of slaves (ids clustered to force deep collisions) and all masks",
  "No test scans; correctness is over all populations.",
  [AX], [("recursion", "mbus_scan_2nd_address_range"), ("probe", "mbus_probe_secondary_address")],
  "found events vs the simulated population",
  technique="exactly-once monitor against a simulated bus population",
  note="Simulated slaves implement wildcard selection, ACK collisions and data replies.")

prop("C06", "Connections are clean: no leaked or foreign descriptors",
  "Across any sequence of connect, failed connect, use, disconnect and free, each handle closes exactly the descriptors it opened, once each, touches no other descriptor, reports failure of open/connect/resolve, and leaks no memory.",
  ["histories", "fault_sequences"], "all operation sequences with failures injected at socket, connect, setsockopt, open, tcsetattr and gethostbyname",
  "No test opens a handle.",
  [SE, TC, AX], [("serial", "mbus_serial_connect / mbus_serial_disconnect"), ("TCP", "mbus_tcp_connect / mbus_tcp_disconnect"), ("handles", "mbus_context_serial / mbus_context_tcp / mbus_context_free")],
  "ledger of descriptor events at the virtual system-call layer",
  technique="descriptor-ledger monitor on wrapped system calls", level="fault_enumeration",
  note="Every descriptor obtained must be closed exactly once; uses of descriptors not obtained are violations.")

prop("C07", "Send and receive callbacks mirror the wire",
  "With callbacks registered, the send callback sees exactly the bytes of each telegram put on the wire and the receive callback exactly the bytes of each message taken from it, in order; handles with and without callbacks behave the same.",
  ["histories", "schedules"], "all sessions on both transports incl. corrupt messages",
  "No test registers callbacks.",
  [SE, TC, AX], [("send event", "mbus_*_send_frame"), ("receive event", "mbus_*_recv_frame")],
  "callback log vs virtual wire log",
  technique="event-log comparison monitor",
  note="Concatenated callback bytes must equal concatenated consumed/accepted wire bytes for complete messages.")

prop("C08", "Purging drains stale telegrams and stops",
  "mbus_purge_frames discards all messages already waiting on the line, reports whether there were any (echoes dropped by the purge option are not counted), returns when the line is silent, and does not loop on errors; afterwards the next reply received is the first one that arrives after the purge.",
  ["histories", "fault_sequences"], "all sequences of waiting valid and invalid messages followed by silence, close or error",
  "No test purges.",
  [AX], [("purge", "mbus_purge_frames")],
  "bytes left on the virtual line and return value",
  technique="sequence oracle on a virtual bus",
  note="Bounded progress on the virtual clock; a purge that never returns is reported as a violation.")

prop("S06", "TCP time-out and peer are the configured ones",
  "mbus_connect on a TCP handle resolves and connects to the configured host and port, trying each address of the host until one accepts, and puts the last time-out accepted by mbus_tcp_set_timeout_set on the socket in both directions; negative time-outs and NaN are refused and change nothing.",
  ["inputs", "histories"], "all positive and negative time-outs, ports and call sequences",
  "No test opens a connection.",
  [TC], [("time-out", "mbus_tcp_set_timeout_set"), ("connect", "mbus_tcp_connect")],
  "socket options and addresses seen by the system call monitor",
  technique="system call monitor on a virtual bus",
  note="The value 0 (no time-out at all for the kernel) is not judged.")

prop("S07", "The master works over real sockets and terminals",
  "Over the operating system's TCP connections and terminals (pseudo terminals included, also when configured before) connecting, pinging, reading, selecting, scanning, addressing, changing the rate, disconnecting and connecting again give the documented results: the slave's telegrams unchanged however the line cuts them up, one time-out (0.3 s at 2400 baud, the chosen one over TCP) per request to a silent slave and no more, failures without SIGPIPE or lost descriptors when the peer closes or refuses the connection, and a usable connection after connecting again.",
  ["inputs", "histories", "fault_sequences", "schedules"], "all slaves, ways of cutting up the stream, silences, garbled replies, closed and refused connections",
  "No test opens a port or a connection; the other checks replace the system calls by a model of them.",
  [TC, SE, AX], [("socket", "mbus_tcp_connect"), ("terminal", "mbus_serial_connect")],
  "results, telegrams at the peer, line speed at the peer's end of the terminal, durations and descriptors of real sessions",
  technique="end-to-end runs under ASan+UBSan against simulated meters on loopback sockets and pseudo terminals",
  note="Real time: a deviation is reported when it shows in four consecutive runs of the same plan, and durations have wide margins.")

prop("C09", "Reading a slave returns only what it answered",
  "mbus_read_slave puts one request to the primary address, or a select and a request to FD for a secondary one, on the wire and succeeds only with the frame received after that request; refused addresses, failed or ambiguous selections, silence, garbled replies and transport errors are failures.",
  ["histories", "fault_sequences"], "all address kinds, selection answers and replies",
  "No test talks to a slave.",
  [AX], [("read", "mbus_read_slave")],
  "telegrams and result on a virtual bus",
  technique="sequence oracle on a virtual bus",
  note="Selection answers and replies are enumerated in all combinations, then randomised.")

# ---------------------------------------------------------------- independence
prop("P01", "Viewing a telegram never changes it",
  "Verifying, printing, dumping, packing, rendering as XML or normalised XML, decoding, and reading records, values, units, addresses or normalised records of an accepted telegram leaves the frame and its decoded data unchanged, so that every view shows the same thing however often and in whatever order the views are asked for. (mbus_frame_internal_pack writes to the frame it is given, never to the decoded data.)",
  ["histories", "inputs"], "all accepted telegrams and all sequences of views",
  "The tests ask each view once, in a fixed order, of a fresh object.",
  [PR, AX], [("accessors with static buffers", "mbus_data_record_value / mbus_data_record_decode"), ("XML", "mbus_frame_data_xml"), ("packing", "mbus_frame_pack / mbus_frame_internal_pack")],
  "fingerprints of all fields before and after each view, and the views themselves",
  technique="state fingerprint monitor and differential history oracle",
  note="Random sequences with repetitions; the reference is each view asked for on an object of its own.")

prop("L01", "The printed listing shows every field of the telegram as received",
  "For every decodable telegram, what mbus_frame_data_print, mbus_data_variable_print, mbus_data_variable_header_print, mbus_data_fixed_print and mbus_data_error_print write to standard output lists the header, each record once and in order, and for each record its DIF, function, DIFEs, VIF, VIFEs, length and (manufacturer-specific) bytes, or both counters of a fixed telegram, with the values the telegram carries, and nothing else.",
  ["inputs"], "all variable, fixed and error telegrams, all header bytes, DIF, DIFE, VIF and VIFE values",
  "No test prints a decoded telegram.",
  [PR], [("variable listing", "mbus_data_variable_print"), ("header listing", "mbus_data_variable_header_print"), ("fixed listing", "mbus_data_fixed_print"), ("error listing", "mbus_data_error_print")],
  "every line of the captured standard output against the telegram's bytes",
  technique="reference-decoder oracle over the captured output",
  note="Unit texts of fixed telegrams are left to D01; names and order of the lines are those of the library.")

prop("O01", "Diagnostics change no result and every failure leaves its message",
  "Switching the library's debug output on changes no verdict, decoded value, document, telegram on the wire or session result; after a failed parse, data parse, XML, verification or secondary-address call mbus_error_str holds a non-empty bounded message set by that failure, mbus_error_str_set never overflows, and mbus_error_reset clears it.",
  ["inputs", "configurations", "histories"], "all messages and sessions, with and without debug output",
  "No test switches on debug output or reads the error text.",
  [PR, AX], [("debug switch", "mbus_parse_set_debug"), ("error text", "mbus_error_str_set / mbus_error_reset")],
  "complete observations of the same command with and without debug output; error text after a reset and a failure",
  technique="differential monitor (debug on/off) and error-text monitor",
  note="Texts printed by a scan are left out of the comparison, because debug lines are printed between them.")

prop("H01", "Handles do not interfere with each other",
  "When an application works with two handles in turn (any mix of TCP and serial; also when it serves the one from within a callback of the other), each handle's connection, options, line speed, telegrams, results, callbacks and delivered frames are exactly those it would have if it were used alone, and every callback gets the handle it was registered on.",
  ["histories", "configurations"], "all pairs of sessions and all interleavings of their operations",
  "No test opens a single connection.",
  [AX, SE, TC], [("options", "mbus_context_set_option"), ("serial settings", "mbus_serial_set_baudrate"), ("callbacks", "mbus_register_*"), ("request state", "mbus_sendrecv_request")],
  "event log of each of two virtual lines, interleaved against alone",
  technique="differential interleaving monitor on two virtual buses",
  note="Operations are interleaved whole (the library is not thread safe by design); the TCP time-out is a documented library-wide setting and is left alone.")

prop("K01", "Options start at their defaults and take only valid values",
  "A new connection of either kind repeats an unanswered data request three times and an unanswered search once and drops leading frames sent by a master; mbus_context_set_option takes 0 to 9 for either retry option and the three purge directions, refuses every other value or option with -1 leaving all options as they were, and what was set governs every later readout, probe and receive, also after disconnecting and connecting again.",
  ["histories", "configurations"], "all sequences of valid and invalid settings, reconnections and measurements",
  "No test opens a connection or sets an option.",
  [AX], [("options", "mbus_context_set_option"), ("defaults", "mbus_context_serial / mbus_context_tcp"), ("retries", "mbus_sendrecv_request / mbus_probe_secondary_address"), ("purge", "mbus_recv_frame")],
  "telegrams on a virtual bus and delivered frames",
  technique="behavioural measurement of each option against a model of the settings",
  note="Options are observed by what the master does (requests to a silent slave, selections of a silent mask, frame delivered behind an echo), not by reading the handle.")

# ---------------------------------------------------------------- tools
prop("B01", "Primary scan tools report exactly the responding addresses",
  "mbus-tcp-scan and mbus-serial-scan ping every primary address 0-250 and no other, and print a device line for exactly the addresses that answer with a single ACK, a collision line for addresses that answer with garbage or with more than an ACK, and nothing for silent ones; an address that stays silent is asked again up to the retry count of -r. A scan whose connection breaks down fails and reports no address that did not answer.",
  ["programs", "fault_sequences"], "all populations of acknowledging, garbling and silent addresses, answers on a later attempt, retry options, line speeds and transport faults",
  "The tools are not tested.",
  ["bin/mbus-tcp-scan.c", "bin/mbus-serial-scan.c"], [("scan loop", "main / ping_address")],
  "printed lines, exit status and pings on the wire vs the simulated population",
  technique="end-to-end monitor of the real tools against a simulated bus",
  note="Real tool processes (ASan/UBSan, partly MSan) whose serial and socket calls are answered by a bus model over a control socket. Valid answers other than an ACK are not judged.")

prop("B02", "Readout tools print the slave's data or fail",
  "The request-data and request-data-multi-reply tools print on standard output the XML document of exactly the telegrams the addressed slave answered, for primary and secondary addresses, and exit non-zero without a document when the selection fails or is ambiguous, the slave is silent, answers only with corrupt telegrams or with telegrams that cannot be decoded, or the transport breaks. The multi-reply tools ask for the next telegram exactly while the slave announces more and the limit of -f is not reached, and repeat a request at most three times.",
  ["programs", "fault_sequences"], "all address kinds, populations, reply sequences, frame limits and fault scripts",
  "The tools are not tested.",
  ["bin/mbus-tcp-request-data.c", "bin/mbus-serial-request-data.c", "bin/mbus-tcp-request-data-multi-reply.c", "bin/mbus-serial-request-data-multi-reply.c"], [("readout", "main")],
  "stdout, exit status and the telegrams on the simulated bus",
  technique="end-to-end monitor of the real tools against a simulated bus",
  note="Standard output is compared with the library's document for the telegrams the simulated slaves sent (the document itself is judged by X01-X03); receive timestamps are ignored here.")

prop("B03", "set-address never assigns an address that is in use or forbidden",
  "mbus-serial-set-address puts an assignment on the wire only for a new address that is not 253, 254, 255 or outside 0-255, only after the new address was asked and stayed completely silent, and only to the given primary address or, after a selection answered by a single ACK, to the selected slave; it reports success exactly if an ACK followed, and otherwise no slave's address is reported changed.",
  ["programs", "fault_sequences"], "all old/new address pairs, occupied, garbling or silent new addresses, selection results, acknowledging or silent slaves, transport faults",
  "The tools are not tested.",
  ["bin/mbus-serial-set-address.c"], [("guard and assignment", "main")],
  "telegrams on the simulated bus, exit status, output, addresses of all slaves afterwards",
  technique="end-to-end monitor of the real tool against a simulated bus",
  note="The reserved addresses 251 and 252 and numbers beyond int are not judged; simultaneous identical ACKs of several slaves cannot be told from one by any master and are not generated.")

prop("B04", "Scan, select, reset, baud rate and raw tools act on the right slaves",
  "The scan-secondary tools print each matching slave of a bus exactly once with its address; select-secondary reports a slave only if the selection is answered by a single ACK and the slave sends its data, with that slave's address; application-reset, switch-baudrate and raw-send put exactly the requested telegram on the wire, after a successful selection for secondary addresses; each exits zero and reports success exactly if the slave answered, and refuses malformed addresses, speeds and telegrams without sending.",
  ["programs", "fault_sequences"], "all populations, masks, collision forms, arguments and fault scripts",
  "The tools are not tested.",
  ["bin/mbus-tcp-scan-secondary.c", "bin/mbus-serial-scan-secondary.c", "bin/mbus-tcp-select-secondary.c", "bin/mbus-serial-select-secondary.c", "bin/mbus-tcp-application-reset.c", "bin/mbus-serial-switch-baudrate.c", "bin/mbus-tcp-raw-send.c"], [("tools", "main")],
  "stdout, exit status, telegrams on the simulated bus",
  technique="end-to-end monitor of the real tools against a simulated bus",
  note="An ACK followed by more bytes as the answer to a reset, baud rate or raw telegram is not judged.")


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    from_claims = os.path.join(root, "tools", "claimed.json")
    claimed = set(json.load(open(from_claims))) if os.path.exists(from_claims) else set()
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            anch = {"files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": [p["observe"]], "hook_needed": None}
            if p["state"]:
                anch["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": anch}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": [], "not_applicable": [],
           "notes": "run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]; see DESIGN.md."}
    for p in P:
        if p["id"] in claimed:
            man["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                                  "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                                  "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check still being built; not claimed yet"})
    json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__":
    main()
