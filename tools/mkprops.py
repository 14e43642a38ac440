#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))

M5 = ["rfc5424/machine.go", "rfc5424/machine.go.rl", "rfc5424/syslog_message.go", "common/functions.go", "common/common.rl"]
M3 = ["rfc3164/machine.go", "rfc3164/machine.go.rl", "rfc3164/syslog_message.go", "common/common.rl"]
BU = ["rfc5424/builder.go", "rfc5424/builder.go.rl", "common/functions.go", "rfc5424/syslog_message.go"]
OC = ["octetcounting/parser.go", "octetcounting/scanner.go", "octetcounting/tokens.go"]
NT = ["nontransparent/parser.go", "nontransparent/parser.go.rl"]

prop("C01", "RFC 5424 parsing accepts exactly the RFC 5424 messages",
 "In strict mode an input is accepted (a message and no error) exactly when the whole of it is an RFC 5424 syslog message: PRI 0-191 without leading zeros in angle brackets, VERSION 1-999, a TIMESTAMP that is '-' or an RFC 3339 timestamp with at most 6 fractional digits naming an existing calendar day, HOSTNAME, APP-NAME, PROCID and MSGID of at most 255, 48, 128 and 32 printable US-ASCII characters without spaces, STRUCTURED-DATA that is '-' or one or more elements with distinct ids, ids and names of 1 to 32 characters and UTF-8 values with '\"', '\\' and ']' escaped, and optionally a space and any MSG. Every other input yields no message and an error. The locking parser and the bare machine agree on this.",
 ["inputs", "configurations"], "every byte string, parsed in strict mode with both constructors",
 "The table tests try a few hundred hand picked strings; acceptance is decided by a generated automaton of ~600 states, and each state can go wrong for any one of 256 bytes, at any field length up to 255.",
 M5, [("Ragel grammar 'main'", "rfc5424/machine.go.rl:262-342"), ("Parse: first_final / en_fail test", "rfc5424/machine.go.rl:Parse"), ("time.Parse on the timestamp", "rfc5424/machine.go.rl:set_timestamp"), ("duplicated SD-ID detection", "rfc5424/machine.go.rl:set_id")],
 ["rfc5424.NewParser().Parse", "rfc5424.NewMachine().Parse"])

prop("C02", "RFC 5424 header fields and message are reported exactly",
 "For every accepted RFC 5424 message each reported field is exactly what the input says: priority, facility = priority/8 and severity = priority mod 8, version, the timestamp's instant and UTC offset to the microsecond, and hostname, app-name, procid, msgid and message byte for byte. A field given as the nil value '-' (or an absent or empty message) is reported as absent, never as some other value.",
 ["inputs"], "every accepted RFC 5424 message",
 "Tests compare fields for sampled messages; offsets into the input, lengths at the limits, time zones and days, and empty or odd messages range over an unbounded space.",
 M5 + ["syslog.go"], [("mark/text offsets and set_* actions", "rfc5424/machine.go.rl"), ("export", "rfc5424/syslog_message.go:export"), ("ComputeFromPriority", "syslog.go:ComputeFromPriority")],
 ["*rfc5424.SyslogMessage returned by Parse"])

prop("C03", "RFC 5424 structured data is reported exactly, with escapes removed",
 "For every accepted message the reported structured data has exactly the elements and parameters of the input: one entry per element id (also for elements without parameters), one entry per parameter name (the last value when a name is repeated in an element), and no structured data for '-'. Each value is the input value with every '\\\"', '\\\\' and '\\]' replaced by the character it escapes and every other byte untouched.",
 ["inputs"], "every accepted message with structured data, whatever the number of elements, parameters and escapes and wherever the escapes are",
 "Escape removal deletes bytes at recorded positions relative to an offset: the tests try few escape layouts, few elements, and short values.",
 M5, [("set_id / set_paramname / set_paramvalue", "rfc5424/machine.go.rl"), ("RemoveBytes", "common/functions.go:RemoveBytes")], ["SyslogMessage.StructuredData"],
 [("m.backslashat", "positions of the escapes in the current value", "rfc5424/machine.go"), ("m.currentelem / m.currentparam", "element and parameter being parsed", "rfc5424/machine.go")])

prop("C04", "Compliant MSG mode: BOM means valid UTF-8, nothing else changes",
 "With the compliant-message option a message is accepted exactly when it is accepted without it and its MSG either does not start with the UTF-8 byte order mark or is valid UTF-8 after it (RFC 3629: no overlong forms, no surrogates, nothing above U+10FFFF). The fields of accepted messages are the same with and without the option, and the BOM stays part of the message. Without the option every byte string is a valid MSG.",
 ["inputs", "configurations"], "every message, with and without the option, in strict and best effort mode",
 "The tests sample a list of UTF-8 sequences; all sequences of up to 4 bytes and their placement at the end or in the middle of a message are not covered.",
 M5 + ["rfc5424/options.go"], [("select_msg_mode, msg_any, msg_compliant", "rfc5424/machine.go.rl"), ("utf8 rules", "common/common.rl")], ["rfc5424.NewParser(WithCompliantMsg()).Parse"])

prop("C05", "RFC 5424 errors give the right column and the right part",
 "Whenever an RFC 5424 input is rejected the error ends with ' [col N]', N being the 0-based offset of the first byte that makes the input not a prefix of any valid message, or the input length when the input is merely incomplete (for an impossible calendar day the offset right after the timestamp, for a duplicated element id the offset right after the id). The text before it describes the part of the message (priority, version, timestamp, hostname, ..., structured data, message) in which N lies, or is the generic parsing error. The accessor for the last error returns the same error, and nil after an accepted message.",
 ["inputs", "configurations"], "every rejected input, in strict and best effort mode, with and without compliant messages",
 "Columns are computed by error actions attached to hundreds of states; tests pin the column of some of them.",
 M5, [("err_* actions", "rfc5424/machine.go.rl"), ("ErrPrival ... ErrParse, ColumnPositionTemplate", "rfc5424/machine.go.rl:11-53")], ["error returned by Parse", "Err()"])

prop("C06", "RFC 5424 best effort keeps exactly the parts that were complete",
 "Best effort mode accepts the same inputs with the same messages, and gives the same errors, as strict mode. A rejected input also yields a message exactly when its priority and its version are there, and that message has exactly the fields that were complete before the error: header fields up to their delimiter, structured data elements whose id was complete with the parameters that were closed, and (in compliant mode) the MSG up to the offending byte. Nothing is invented, and nothing that was complete and followed by its delimiter is lost.",
 ["inputs", "configurations"], "every input, valid or not, best effort with and without the compliant-message option",
 "Partial messages are the result of actions interleaved with error actions; tests list some dozens of truncated messages, mostly in the header.",
 M5 + ["rfc5424/parser.go"], [("minimal / export", "rfc5424/syslog_message.go"), ("err_sdid / err_sdparam / err_msg", "rfc5424/machine.go.rl"), ("Parse best effort branch", "rfc5424/machine.go.rl:Parse")], ["rfc5424.NewParser(WithBestEffort()).Parse"],
 [("m.currentelem / m.currentparam / m.msgat", "what is being parsed when the error occurs", "rfc5424/machine.go")])

prop("C07", "Parsing depends only on the input, and owns what it returns",
 "The outcome of parsing an RFC 5424 or RFC 3164 message depends only on its bytes and on the parser's options: not on what the same or other parsers parsed before, nor on whether the locking parser or the bare machine is used. Parsing never modifies the input buffer. Messages and errors returned earlier never change when more messages are parsed or when their input buffer is overwritten, and changing a returned message changes no other one. The parts of a message are its own, one by one: changing one in place changes none of the others.",
 ["histories", "inputs"], "every sequence of parse calls with any inputs on any parsers, with buffers reused between calls",
 "The tests parse each message on a fresh parser and never reuse a buffer or compare results across calls.",
 M5 + M3 + ["rfc5424/parser.go", "rfc3164/parser.go"], [("per call reset of the machine", "rfc5424/machine.go.rl:Parse, rfc3164/machine.go.rl:Parse"), ("string(m.text()) copies", "rfc5424/machine.go.rl, rfc3164/machine.go.rl"), ("RemoveBytes copies", "common/functions.go:RemoveBytes")], ["Parse results over a history of calls"],
 [("machine fields (pb, msgat, backslashat, currentelem, currentparam, err)", "state carried between calls unless reset", "rfc5424/machine.go, rfc3164/machine.go")])

prop("C08", "A shared parser can be used by many goroutines at once",
 "Any number of goroutines may call Parse on the same parser made by the RFC 5424 or RFC 3164 parser constructor, in any option combination: every call returns exactly what it would return alone, without data races. Distinct parsers used concurrently do not influence each other.",
 ["schedules", "inputs"], "every interleaving of concurrent Parse calls",
 "No existing test calls a parser from two goroutines.",
 ["rfc5424/parser.go", "rfc3164/parser.go"] + M5[:1] + M3[:1], [("sync.Mutex around machine.Parse", "rfc5424/parser.go:Parse, rfc3164/parser.go:Parse")], ["concurrent Parse calls under the race detector"])

prop("C09", "RFC 3164 parsing accepts exactly the supported BSD syslog messages",
 "In strict mode an input is accepted exactly when the whole of it is: PRI 0-191 without leading zeros in angle brackets, a 'Mmm dd hh:mm:ss' timestamp with a space padded day that exists in that month (or, only when the RFC 3339 option is on, a 'YYYY-MM-DDThh:mm:ss' timestamp with 'Z' or numeric offset and no fractions), a space, a hostname of 1 to 255 printable US-ASCII characters without spaces, a space, and a message of one or more bytes each in 32-126 or 128-255. Every other input yields no message and an error. The locking parser and the bare machine agree on this.",
 ["inputs", "configurations"], "every byte string, with and without the RFC 3339 option",
 "Seven messages make up the test table of this parser.",
 M3 + ["rfc3164/parser.go"], [("Ragel grammar 'main'", "rfc3164/machine.go.rl"), ("Parse: first_final / en_fail test", "rfc3164/machine.go.rl:Parse")], ["rfc3164.NewParser().Parse", "rfc3164.NewMachine().Parse"])

prop("C10", "RFC 3164 fields: host, app name, pid and message are split losslessly",
 "For every accepted RFC 3164 message priority, facility, severity and hostname are those of the input. When the part after the hostname is a tag (1 to 32 printable US-ASCII characters other than space, ':' and '['), optionally a bracketed content without ']', then ': ' and at least one more byte, the app name is the tag, the procid the content and the message all that follows; otherwise there is no app name and no procid and the message is the whole part, byte for byte. A hostname, tag or content '-' and an empty content are reported as absent.",
 ["inputs"], "every accepted RFC 3164 message",
 "The tests have two messages with brackets and none where a colon or a bracket is not a tag delimiter.",
 M3, [("msg = tag content? ':' sp mex | mex", "rfc3164/machine.go.rl"), ("export", "rfc3164/syslog_message.go:export")], ["*rfc3164.SyslogMessage returned by Parse"])

prop("C11", "RFC 3164 timestamps follow the year, time zone and RFC 3339 options",
 "A 'Mmm dd hh:mm:ss' timestamp is reported with that month, day and time of day, in the year which the strategy of the year option gives when the message is parsed (year 0 without it), as UTC or, with the locale time zone option, as wall clock time of that zone; the time zone option then only changes the zone the same instant is expressed in. With the RFC 3339 option an RFC 3339 timestamp is reported as the very instant and offset it says, whatever the year and zone options are. (29 February with a configured year that is not a leap year is out of scope.)",
 ["inputs", "configurations"], "every timestamp and every combination of year, time zone, locale time zone and RFC 3339 options",
 "Examples use one timestamp and one combination of options each.",
 M3 + ["rfc3164/options.go", "rfc3164/year.go"], [("set_timestamp / set_rfc3339", "rfc3164/machine.go.rl"), ("WithYear / WithTimezone / WithLocaleTimezone / WithRFC3339", "rfc3164/options.go")], ["SyslogMessage.Timestamp"],
 [("m.yyyy, m.loc, m.timezone, m.rfc3339", "timestamp options", "rfc3164/machine.go")])

prop("C12", "RFC 3164 errors give the column; best effort keeps the complete parts",
 "Whenever an RFC 3164 input is rejected the error ends with ' [col N]', N being the 0-based offset of the first byte that makes the input not a prefix of any valid message, or the input length when it is merely incomplete (for an impossible calendar day the offset right after the timestamp). The text before it describes the part of the message (priority, timestamp, hostname, or the tag or content of the message) in which N lies, or is the generic parsing error. The accessor for the last error returns it, and nil after an accepted message. Best effort mode accepts the same inputs with the same messages and gives the same errors. In best effort mode a rejected input also yields a message exactly when its bracketed priority is complete, having exactly the fields that were complete, each followed by its delimiter, before the error.",
 ["inputs", "configurations"], "every rejected input, in strict and best effort mode, with and without the RFC 3339 option",
 "No existing test looks at an error or a partial message of this parser.",
 M3 + ["rfc3164/parser.go"], [("err_* actions", "rfc3164/machine.go.rl"), ("minimal / export", "rfc3164/syslog_message.go")], ["rfc3164.NewParser(WithBestEffort()).Parse", "Err()"])

prop("C13", "Builder setters take valid values exactly and ignore invalid ones",
 "Setting priority, version, timestamp, hostname, app-name, procid, msgid or message on a message being built takes effect exactly when the value is valid for that field in RFC 5424 (priority 0-191, version 1-999, existing RFC 3339 timestamp with at most 6 fractional digits, 1 to 255/48/128/32 printable US-ASCII characters other than '-' alone, non-empty message), and then the field has exactly that value, with facility and severity following the priority; the same holds when the fields of the message were assigned other values in between. An invalid value leaves the whole message as it was. No setter touches any other field or a value taken from the message before, no two fields share their value so that changing one in place would change the other, and every setter returns the same message for chaining.",
 ["inputs", "histories"], "every sequence of setter calls with any values",
 "Tests set each field to a handful of values, once.",
 BU + ["syslog.go"], [("entry points timestamp ... msg", "rfc5424/builder.go.rl"), ("SetPriority / SetVersion", "rfc5424/builder.go.rl")], ["fields of *rfc5424.SyslogMessage after each call"])

prop("C14", "Builder structured data: add-only, valid ids, names and values only",
 "Setting an element id adds an empty element exactly when the id is valid (1 to 32 printable US-ASCII characters other than space, '=', ']' and '\"') and new. Setting a parameter adds the element first under the same rule, then adds the parameter exactly when the element exists, the name is valid by the same rule and new in it, and the value is UTF-8 with each '\"', '\\' and ']' escaped by a backslash; the stored value is the unescaped one. Everything already there stays as it is, no two elements are the same map, and an invalid id, name or value adds neither a parameter nor an empty placeholder for it.",
 ["inputs", "histories"], "every sequence of element and parameter settings with any strings",
 "Tests set a few parameters and only count the entries after invalid ones.",
 BU, [("SetElementID / SetParameter", "rfc5424/builder.go.rl"), ("entry points sdid, sdpn, sdpv", "rfc5424/builder.go.rl"), ("RemoveBytes", "common/functions.go")], ["SyslogMessage.StructuredData after each call"])

prop("C15", "What the builder serializes parses back to what was built",
 "Whatever sequence of setters was called, if the message has a priority and a version then serializing it succeeds and parsing the result in strict mode gives a message equal to the one built in every field (timestamps as instants with their offset, structured data and message byte for byte). If priority or version is missing, serializing fails with an error and an empty string. Serializing does not change the message. The same holds after fields are assigned directly with values that the setters would take (timestamps to the microsecond), or unset, elements and parameters being added, replaced or deleted in the map.",
 ["inputs", "histories"], "every builder history",
 "One serialization test with US-ASCII values.",
 BU + M5[:1], [("String", "rfc5424/builder.go.rl:String"), ("EscapeBytes", "common/functions.go:EscapeBytes"), ("Valid", "rfc5424/syslog_message.go")], ["String(), then Parse"])

prop("C16", "Serializing a parsed message is canonical and loses nothing",
 "For every accepted RFC 5424 message the serialization is itself a valid message which parses back to equal field values, with element ids and parameter names in sorted order, '\"', '\\' and ']' escaped in values, and everything else byte for byte. Serializing again, or serializing the re-parsed message, gives the identical string, and messages with equal fields give identical strings; which other messages are serialized before or after it changes none of them. A message (also a partial one) serializes without error exactly when it is valid, that is when it has a priority in 0-191 and a version in 1-999.",
 ["inputs"], "every accepted message, and every partial message of best effort mode",
 "Tests serialize builder made messages only; map iteration order and escaping over arbitrary values are not covered.",
 BU + M5[:1], [("String: sorted ids and names, RFC3339 formatting", "rfc5424/builder.go.rl:String"), ("EscapeBytes", "common/functions.go")], ["Parse, then String(), then Parse"])

prop("C17", "Distinct messages can be built and serialized concurrently",
 "Building, serializing and inspecting distinct RFC 5424 messages from different goroutines is free of data races, and each message ends up exactly as if it had been built alone. Interleaving the building of several messages in one goroutine does not mix their values either. One message may be serialized and inspected by several goroutines at once.",
 ["schedules", "histories"], "every interleaving of builder calls on distinct messages",
 "No existing test builds two messages at once.",
 BU, [("no shared state between messages", "rfc5424/builder.go.rl:set/run")], ["builder histories on several messages, under the race detector"])

prop("C18", "Octet counting: every framed message is delivered, once and in order",
 "For every stream that is a concatenation of octet counted frames (MSGLEN, a space, and a message of exactly MSGLEN octets starting with '<', with MSGLEN within the limit), the listener gets exactly one result per frame, in order, equal to parsing just those octets as an RFC 5424 message; message bytes, including digits, spaces, newlines, NUL and '<', never affect framing. In best effort mode results for bad messages carry their error and partial message and the stream goes on. In strict mode the first bad message gives one result having only the error, and nothing follows.",
 ["inputs", "configurations"], "every sequence of frames with any content, any length limit, strict and best effort",
 "Tests use streams of one to three short frames.",
 OC + M5[:1], [("run loop", "octetcounting/parser.go:run"), ("scanSyslogMsg", "octetcounting/scanner.go"), ("scanMsgLen", "octetcounting/scanner.go")], ["results received by the listener"])

prop("C19", "Octet counting: framing violations end the stream with one error",
 "At the first place where the stream is not a frame (no MSGLEN, a MSGLEN with a leading zero or another byte in it, no single space after it, a message not starting with '<', or a stream that ends within a frame), the listener gets the results of all the earlier frames, then exactly one more result having an error, then nothing, in strict and best effort mode alike. That last result has a message only in best effort mode when the stream ends within the octets of a message and these parse (in best effort) to one. A stream that ends between frames produces no error, and an empty stream one error.",
 ["inputs", "fault_sequences", "configurations"], "every stream with a violation at any position: any byte, truncation at any point",
 "Tests try a dozen malformed streams, always short.",
 OC, [("token checks in run", "octetcounting/parser.go:run"), ("Scan, isDigit, isNonZeroDigit", "octetcounting/scanner.go")], ["results received by the listener"])

prop("C20", "Octet counting: the message length limit is exact",
 "A frame is parsed as such if its MSGLEN is at most the maximum message length (8192 by default), and otherwise gives exactly one 'message too long' result telling the announced size and the limit, without a message, after which nothing follows - in strict and best effort mode, whether or not the octets are there, and for any number of digits in MSGLEN. Every frame within the limit is parsed fully, however large the limit is.",
 ["inputs", "configurations"], "every limit, every MSGLEN (also beyond the integer range), every stream position",
 "Tests try one message too long, for the default limit.",
 OC + ["options.go"], [("maxMessageLength check", "octetcounting/parser.go:run"), ("NewScanner buffer size", "octetcounting/scanner.go:NewScanner"), ("ParseUint", "octetcounting/scanner.go:scanMsgLen")], ["results received by the listener"],
 [("maxMessageLength", "limit", "octetcounting/parser.go"), ("msglen", "announced length", "octetcounting/scanner.go")])

prop("C21", "Non transparent framing: every message is delivered, once and in order",
 "For every stream of messages starting with '<' each ended by the configured trailer (LF or NUL), the listener gets exactly one result per message, in order, equal to parsing as RFC 5424 the bytes between the start of the message and its last trailer; trailers not followed by '<' belong to the message, and the other trailer byte is always ordinary content. Bad messages give their own result with their error (and, in best effort mode, their partial message) and never affect the other messages.",
 ["inputs", "configurations"], "every sequence of messages, single or multi line, with both trailers, strict and best effort",
 "Tests use a few streams of up to three messages; the results depend on accumulated state over the stream.",
 NT + ["nontransparent/trailer_type.go"], [("on_init / on_trailer / process", "nontransparent/parser.go.rl"), ("WithTrailer", "nontransparent/parser.go")], ["results received by the listener"],
 [("m.candidate", "the message accumulated so far", "nontransparent/parser.go")])

prop("C22", "Stream tail: an unterminated message is delivered with an error",
 "When a non transparent stream ends (or its reader fails) within a message not ended by the trailer, that last unterminated piece gives exactly one last result, after those of all the complete messages: parsed like any message, with its own parsing error or, if it is valid, with an error telling the unexpected end or the reader's failure. A stream that ends (or whose reader fails) right after a trailer produces no such result, and an empty stream produces nothing.",
 ["inputs", "fault_sequences"], "every truncation point of every stream, and every position at which the reader can fail",
 "Tests truncate a few streams; none makes the reader fail.",
 NT, [("OnErr / OnCompletion", "nontransparent/parser.go.rl")], ["results received by the listener"],
 [("m.lastChunk / m.readError", "what was read without trailer, and why reading stopped", "nontransparent/parser.go")])

prop("C23", "Stream parsing does not depend on how reads are split",
 "For both stream parsers the sequence of results for a given byte stream is the same however the reader splits it into reads: one byte at a time, any fragment sizes, empty reads in between, or the end of file reported with the last bytes or after them. This holds also for frames larger than any internal buffer, and for readers which use the space they are given as scratch space. The parser only reads: it does not close a reader, move it to another place, write to it or set its deadlines, even when the reader can do that.",
 ["inputs", "schedules"], "every stream and every way of splitting it into reads",
 "Tests read from in-memory readers that give everything at once.",
 OC + NT, [("bufio.Reader, Peek", "octetcounting/scanner.go"), ("delimited reader", "nontransparent/parser.go:Parse")], ["results received by the listener"])

prop("C24", "A stream parser can be reused, and parsers do not interfere",
 "Parsing several streams one after the other with the same stream parser gives for each stream exactly the results a new parser would give, whatever the previous streams contained, however they ended (also by a panic of the reader or the listener from which the caller recovered), and whether they come from the same reader or from another. Results received earlier are not changed by later parsing, and two parsers used in turn do not influence each other.",
 ["histories", "inputs"], "every sequence of streams parsed with the same parser",
 "Tests use a new parser for each stream.",
 OC + NT, [("Parse resets scanner / candidate / lastChunk / readError", "octetcounting/parser.go:Parse, nontransparent/parser.go:Parse")], ["results received by the listener over several Parse calls"],
 [("p.last, p.stepback", "token pushed back", "octetcounting/parser.go"), ("m.candidate, m.lastChunk, m.readError", "previous stream leftovers", "nontransparent/parser.go")])

prop("C25", "Priority, facility, severity and their names are consistent",
 "For every message, however obtained, facility is priority/8 and severity is priority mod 8, and a message is valid exactly when it has a priority of at most 191 (and, for RFC 5424, a version from 1 to 999). For each of the 24 facilities and 8 severities of RFC 5424 the name accessors return the text and keyword of RFC 5427 (and the short severity keyword of syslog(3)), and they return nothing when the code is absent; they name the codes the message has, also when its owner assigned them. The codes of one message are its own: changing one of them changes no other message and no other code.",
 ["inputs"], "every priority value 0-255, for base, RFC 3164 and RFC 5424 messages, parsed or computed",
 "Tests look at a few priorities and do not check the tables.",
 ["syslog.go", "common/facility.go", "common/severity.go", "common/functions.go"], [("ComputeFromPriority, Valid, *Message/*Level", "syslog.go"), ("tables", "common/facility.go, common/severity.go")], ["syslog.Base accessors"])

prop("C26", "Trailer types convert to and from text consistently",
 "Parsing a text as trailer type succeeds exactly for LF and NUL in any letter case, bare or in matching single or double quotes, and gives the trailer named; every other text is an error and names neither of the two, never a panic. The text, TOML and string conversions agree and are inverse of each other, the byte value is 10 for LF and 0 for NUL, and trailer types outside of the two have no text and no value (the error does not come with 10 or 0). An option with an unknown trailer type leaves the parser's trailer as it was.",
 ["inputs"], "every string and every trailer type value",
 "Tests try some strings.",
 ["nontransparent/trailer_type.go", "nontransparent/parser.go"], [("TrailerTypeFromString, Value, String, MarshalText, UnmarshalText, UnmarshalTOML", "nontransparent/trailer_type.go"), ("WithTrailer", "nontransparent/parser.go")], ["nontransparent.TrailerType API"])

prop("C27", "No input makes a parser or a builder panic, hang or lie about success",
 "For every byte string, every option combination and every sequence of calls, the message parsers, the stream parsers (with readers failing or splitting reads anywhere) and the builder return normally: they never panic and never loop or wait forever, and the time taken grows in proportion to the size of the input. A message parser returns exactly one of: a message and no error, or an error and (only in best effort mode) possibly a valid message. No result given to a stream listener lacks both message and error.",
 ["inputs", "configurations", "fault_sequences"], "every byte string on every entry point",
 "Panics live in inputs nobody thought of; there is no fuzzing in the repository.",
 M5 + M3 + BU[:1] + OC + NT, [("error states of the automata", "rfc5424/machine.go, rfc3164/machine.go"), ("RemoveBytes slicing", "common/functions.go"), ("Peek/Discard", "octetcounting/scanner.go")], ["all public entry points"])

prop("C28", "Options do what they say, in any order, and nothing else",
 "The behaviour of message and stream parsers depends only on the set of options given, not on their order, on giving one twice (of one given with several values the last one counts), nor on whether an option is given at construction or (for those with a method) set on the constructed parser, also after it has parsed something. Option values may be used for several parsers, each of which can be changed later without an effect on the others. Best effort is reported as on exactly when it was requested, for every message and stream parser. Options that do not concern an input (another timestamp format, another framing, a limit not exceeded) do not change its results.",
 ["configurations", "inputs"], "every list of options and every input",
 "Tests use one option at a time, always at construction.",
 ["options.go", "rfc5424/options.go", "rfc3164/options.go", "rfc5424/parser.go", "rfc3164/parser.go", "octetcounting/parser.go", "nontransparent/parser.go"], [("functional options", "options.go, rfc5424/options.go, rfc3164/options.go, nontransparent/parser.go:WithTrailer"), ("HasBestEffort", "all parsers")], ["HasBestEffort()", "parse results under permuted options"])

prop("C29", "Stream results are delivered as the stream is read",
 "A stream parser delivers the results during the reading of the stream: the octet counting one delivers a frame's result as soon as its octets have been read, before asking the reader for anything more, and the non transparent one delivers a message's result at the latest when the end of the following message has been read. The listener is called from within the parse call, one result at a time, and no result is withheld until the end of the stream or delivered after the parse call returned. Once an octet counting parser has been given the bytes that end the parsing (a violation of the framing, or a message not valid in strict mode), it asks the reader for nothing more: it returns though the connection stays open.",
 ["schedules", "inputs"], "every stream and every way the data arrives",
 "Tests collect the results after parsing whole streams.",
 OC + NT, [("emit in run before scanning further", "octetcounting/parser.go:run"), ("on_init emits the previous message", "nontransparent/parser.go.rl")], ["order of Read calls and listener calls"])

prop("C30", "Distinct stream parsers can be used concurrently",
 "Stream parsers used at the same time from different goroutines, one parser per goroutine, are free of data races, whatever their framing, their options and their streams: each of them delivers exactly the results it would deliver alone, and results delivered earlier do not change. Trailer types can be read and written at the same time as well. So a server can serve each connection with a stream parser of its own.",
 ["schedules", "histories", "inputs"], "every number of parsers, all streams, all interleavings of their reads and listener calls",
 "The tests never use two stream parsers at the same time, and do not run under the race detector.",
 OC + NT + M5[:1], [("parsers, scanners and message machines hold their state in their own struct", "octetcounting/parser.go:NewParser, octetcounting/scanner.go:NewScanner, nontransparent/parser.go:NewParser")], ["results received by the listeners of concurrent Parse calls"])

prop("C31", "Messages relayed over either framing arrive as they were sent",
 "A valid RFC 5424 message, built by any sequence of setter calls or parsed, that is serialized and put on an octet counted stream (within the limit), or on a stream with LF or NUL trailer (when the trailer followed by '<' does not occur in it), is received by the stream parser without error and equal to the message sent in every field, and so are all the messages of the stream, once and in order. The received messages can be serialized and sent on in the same way, over the other framing, without any change.",
 ["inputs", "histories"], "every sequence of valid messages, both framings, both trailers, both modes, every way to read the stream",
 "Each part is tested alone with its own samples: no test sends what the builder made through the stream parsers.",
 BU + OC + NT + ["rfc5424/machine.go"], [("String", "rfc5424/syslog_message.go:String"), ("setters", "rfc5424/builder.go.rl"), ("framing", "octetcounting/parser.go, nontransparent/parser.go.rl")], ["rfc5424.SyslogMessage.String", "results received by the listener"])

prop("C32", "Parsing keeps nothing: memory does not grow with what was parsed before",
 "However many messages are parsed with one parser, built or serialized, however many streams are parsed, and however long one stream is, the memory in use and the number of goroutines, once the results have been dropped, do not grow with their number: nothing of an earlier input, result or stream is kept beyond the current one. What is allocated for an input is in proportion to its size, also when a frame announces any number of octets of which few are there, whatever the maximum message length.",
 ["histories", "inputs", "fault_sequences"], "every history of messages and streams of any length, every announced length",
 "Tests parse one short input with a new parser each; none looks at the memory in use.",
 M5 + M3 + BU[:1] + OC + NT, [("machine state reset by each Parse, strings copied out of the input", "rfc5424/machine.go.rl, rfc3164/machine.go.rl"), ("buffer of the scanner, pieces of large frames", "octetcounting/scanner.go"), ("candidate, window of the reader", "nontransparent/parser.go.rl")], ["memory in use after a collection, goroutines, memory allocated by a call"],
 [("m.candidate, m.lastChunk", "what is kept of the stream", "nontransparent/parser.go"), ("p.last, s.r", "last token and buffer", "octetcounting/parser.go, octetcounting/scanner.go")])

prop("C33", "The octet counting scanner yields the tokens of the framing",
 "For every byte stream, however its reads are split and whatever maximum length the scanner was told, the scanner yields for each frame the token MSGLEN with all the consecutive digits (the first one not 0), WS for one space, and SYSLOGMSG with exactly as many octets as announced, whatever they are, of a message that starts with '<'; when less octets are there, or nothing is, it yields EOF, and any other byte in the place of one of these is yielded as ILLEGAL (or as the token which it starts). Tokens and their types are written by their names, token types out of the known ones as TokenType(n).",
 ["inputs", "schedules"], "every byte stream and every way of reading it, up to the first token out of place",
 "The tests of the package look at a dozen token sequences through the parser only.",
 OC + ["octetcounting/tokens.go"], [("Scan, scanMsgLen, scanSyslogMsg", "octetcounting/scanner.go"), ("Token.String, TokenType.String", "octetcounting/tokens.go")], ["octetcounting.NewScanner, Scanner.Scan, Token.String, TokenType.String"])

prop("C34", "The helpers of package common are exact for every input",
 "Converting decimal digits gives their number, whatever the leading zeros (0 for no digits). Removing bytes at ascending positions, counted from an offset, gives the other bytes in order, and leaves the data and the positions as they are. Escaping puts one backslash before each '\"', '\\' and ']' and leaves every other byte, of any encoding, untouched. A value is in a range exactly when it is not below the minimum nor above the maximum; a priority is valid from 0 to 191 and a version from 1 to 999, for every 8 and 16 bit number.",
 ["inputs"], "every number of up to 18 digits, every byte string with every set of positions, every value",
 "Tests of the package convert four numbers; they never call the others.",
 ["common/functions.go"], [("UnsafeUTF8DecimalCodePointsToInt, RemoveBytes, EscapeBytes, InBetween, ValidPriority, ValidVersion", "common/functions.go")], ["exported functions of package common"])

prop("C35", "Only the current-year strategy depends on the clock",
 "The outcome of parsing, building, serializing and inspecting a message, and of reading a stream, does not depend on the moment at which it is done, nor on how much time passes between the calls, the reads of the stream or the results taken by the listener: nothing times out or ages. The sole exception is the CurrentYear strategy, with which the timestamp of an RFC 3164 message, whatever its month, is in the year in which the message is parsed, also when the parser was made, or used before, in another year.",
 ["inputs", "histories", "schedules"], "every input, every moment, every pause between the calls, reads and results",
 "The one test concerned compares with the current year at the moment of the test, which never changes during a run.",
 M3 + M5[:1] + OC + NT, [("CurrentYear.Apply, YearOperation.Operate", "rfc3164/year.go"), ("Parse", "rfc3164/machine.go.rl, rfc5424/machine.go.rl"), ("Parse, run", "octetcounting/parser.go, nontransparent/parser.go.rl")], ["Timestamp of rfc3164.SyslogMessage", "results received by the listener", "rfc5424.SyslogMessage.String"])

prop("C36", "Using the library has no effect on the rest of the process",
 "Parsing, building, serializing and inspecting messages, reading streams of either framing, and converting trailer types have no effect besides their results: nothing is written to the standard output or error nor logged, no file or goroutine is left behind, also when the reader fails or panics, and the working directory, the environment, the local time zone, the default logger, the flags and the limits of the process stay as they are.",
 ["inputs", "histories", "fault_sequences"], "every input, with every option, good or bad, and every way a stream ends",
 "Tests compare results; none looks at what else the process has or does.",
 M5 + M3 + BU[:1] + OC + NT + ["syslog.go", "nontransparent/trailer_type.go"], [("Parse", "rfc5424/machine.go.rl, rfc3164/machine.go.rl, octetcounting/parser.go, nontransparent/parser.go.rl"), ("options", "rfc3164/options.go, options.go"), ("Set*, String", "rfc5424/builder.go.rl")], ["file descriptors 1 and 2, goroutines, open files, process wide settings before and after the calls"])

prop("C37", "All the parts of the library can be used at the same time",
 "Goroutines which do different things with objects of their own - parsing messages of either format, reading streams of either framing, building and serializing messages, converting trailer types - do not influence each other: there are no data races between the parts of the library, and each outcome is the one which the same gives alone.",
 ["inputs", "schedules"], "every combination of uses at the same time, with every option",
 "Tests use one part at a time, in one goroutine.",
 M5 + M3 + BU[:1] + OC + NT + ["common/functions.go", "nontransparent/trailer_type.go"], [("what the packages share: package common and syslog.Base", "common/functions.go, common/facility.go, common/severity.go, syslog.go"), ("internal parser of the stream parsers", "octetcounting/parser.go, nontransparent/parser.go.rl")], ["outcomes in each goroutine, reports of the race detector"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
