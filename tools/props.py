"""Write properties.jsonl (single place where the property texts are edited)."""
import json
import os

NM, NR, NH, SW = (
    "src/pynmeagps/nmeamessage.py",
    "src/pynmeagps/nmeareader.py",
    "src/pynmeagps/nmeahelpers.py",
    "src/pynmeagps/socketwrapper.py",
)
NC = "src/pynmeagps/nmeatypes_core.py"
TABLES = [
    "src/pynmeagps/nmeatypes_get.py",
    "src/pynmeagps/nmeatypes_get_prop.py",
    "src/pynmeagps/nmeatypes_set_prop.py",
    "src/pynmeagps/nmeatypes_poll.py",
    "src/pynmeagps/nmeatypes_poll_prop.py",
]
P = []


def prop(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": m.strip(), "where": files[0]} for m in mech.split(",")]},
        }
    )


prop(
    "C01",
    "Every well-formed sentence in a mixed stream is delivered exactly once",
    "Reading a byte stream in which well-formed NMEA sentences are interleaved with any other data (UBX, RTCM3, text, control bytes, stray dollar signs; but no dollar sign followed by the first letter of a talker id, which starts a sentence reaching to the next line end) delivers every well-formed sentence exactly once and in stream order, with raw bytes identical to those in the stream and with the message that parsing those bytes alone gives. Data which belongs to no sentence is never delivered, and end of stream is reported as (None, None) or end of iteration only after the last sentence.",
    ["inputs", "histories"],
    "every sequence of stream elements (sentences and foreign data) up to the bound, every short foreign byte string around and between sentences, for read() and iteration; sentences end in CRLF",
    "Tests read a handful of fixed log files; which foreign bytes precede, separate or follow a sentence is unbounded, and loss, duplication or reordering only shows for particular neighbours.",
    [NR],
    "header scan (two bytes), line read and parse loop of the reader; iterator protocol",
)
prop(
    "C02",
    "A bad sentence costs exactly one error, handled as configured, nothing else",
    "In a stream, each sentence with a wrong checksum, an unconvertible field or (when message id validation is on) an unknown id yields exactly one error and is never delivered: the error is dropped when errors are ignored, passed once to the error handler (or logged once if there is none) when errors are logged, and raised to the caller when errors are raised. Whatever the policy, all other sentences of the stream are delivered exactly as if the bad one were absent, and after a raised error reading can simply continue with the next sentence.",
    ["inputs", "histories", "configurations"],
    "every sequence of good and bad sentences up to the bound x error policy x validation flags x handler present or not",
    "Tests try single bad messages per policy; the interplay of several errors, policies and their neighbours is combinatorial.",
    [NR, "src/pynmeagps/exceptions.py"],
    "exception handling in the read loop, error policy dispatch",
)
prop(
    "C03",
    "Arbitrary bytes never crash, hang or leak a foreign exception",
    "For any byte string, message mode, validation setting and error policy, parsing a message and reading a stream terminate after work bounded by a linear function of the input length, and either return normally or raise one of the package's own NMEA errors. No other exception type escapes, however malformed the header, field content, repeat counts, message id, checksum or text encoding.",
    ["inputs", "configurations"],
    "all byte strings up to the bound over a structural alphabet; every published message id x field mutations (empty, truncated, over-long, non-numeric, huge counts) x mode x validation",
    "Malformed inputs are unbounded in number; tests contain about a dozen.",
    [NR, NM, NH],
    "splitting, payload definition lookup, field conversion, repeating groups",
)
prop(
    "C04",
    "Checksum validation accepts exactly the sentences whose checksum is right",
    "With checksum validation on, a message is returned only if the two hex digits after the asterisk (in either letter case) equal the XOR of all bytes between the dollar sign and the asterisk; in particular every change of a single byte of the content or of the checksum digits of a valid sentence is rejected with a parse error or returns no message. With checksum validation off the checksum value has no influence on the returned attributes. Checksums produced by the helpers, carried by messages created from attributes or a payload, and found in serialized output are always that XOR as two upper case hex digits.",
    ["inputs", "configurations"],
    "every single-byte substitution of representative sentences of every kind, all 256 checksum values in both cases, all validation settings, all message definitions for generated messages, non-ASCII text included",
    "Tests check a few wrong checksums; detection must hold for each position and byte value.",
    [NH, NR, NM],
    "XOR helpers, comparison in parse, checksum generation for new messages",
)
prop(
    "C05",
    "Socket delivery is independent of how TCP segments the data",
    "Reading NMEA data from a socket gives exactly the same sequence of raw and parsed results for every way in which the same bytes are split into received segments and for every receive buffer size. No byte is lost, duplicated or reordered by the socket stream's fixed-length and line reads.",
    ["schedules", "inputs", "configurations"],
    "every partition of short streams into recv() results, every one- and two-cut partition of longer ones, every small buffer size, every interleaving of read(n) and readline() calls up to the bound",
    "Tests use one or two fixed segmentations out of exponentially many.",
    [SW, NR],
    "internal buffer, top-up from recv(), read and readline",
)
prop(
    "C06",
    "Chunked and compressed transfer decoding is independent of segmentation",
    "For a stream sent with chunked transfer encoding, plain or with each chunk gzip, compress or deflate coded, the bytes delivered are exactly the concatenation of the decoded chunk contents, for every way the transfer is cut into received segments, every chunk size (including chunks which themselves contain CRLF) and every buffer size. Cuts inside the length line, the chunk data, or the chunk terminator lose and duplicate nothing.",
    ["schedules", "inputs", "configurations"],
    "every partition of short chunked transfers, every one- and two-cut partition of longer ones, x chunk sizes x encodings x buffer sizes",
    "Tests decode fixed segments; the faults live at particular cut positions.",
    [SW],
    "dechunk(), partial chunk carry-over, decompression",
)
prop(
    "C07",
    "Timeouts, socket errors and end of data lose at most the interrupted sentence",
    "When a socket receive times out, fails or reports end of data, or a serial-style stream returns short or empty reads, at any point of a stream, the read in progress reports end of stream or a stream error instead of hanging, raising a foreign exception or delivering a truncated sentence. Reading can then be resumed: only the sentence which was interrupted may be lost, and every sentence after it and every sentence before it is delivered exactly once.",
    ["fault_sequences", "schedules"],
    "every placement of up to the bounded number of faults (timeout, OS error, end of data, short read) between and inside segments of a multi-sentence stream",
    "Tests never inject receive faults at chosen offsets.",
    [SW, NR],
    "error handling around recv(), empty and short read detection in the reader",
)
prop(
    "C08",
    "NMEA-only mode reports foreign data and still delivers the sentences",
    "With NMEA-only mode on, data which is not NMEA is reported as an error under the configured error policy, once for each foreign header found; with the mode off the same data is skipped without any error. In both modes well-formed sentences which follow are delivered unchanged.",
    ["inputs", "histories", "configurations"],
    "every sequence of sentences and foreign elements up to the bound x error policy x mode",
    "Tests hold two mixed streams.",
    [NR],
    "unknown protocol header branch of the read loop",
)
prop(
    "C09",
    "Independent readers and messages in different threads do not interfere",
    "Parsing, generating, serializing and reading with distinct objects in concurrent threads gives each thread exactly the results it would get running alone, under every interleaving. No state is shared between message objects or readers through the package.",
    ["schedules"],
    "every interleaving at source line granularity of two threads with at most the bounded number of preemptions, over pairs of operations",
    "Tests are single-threaded; interference needs a preemption at a particular line.",
    [NM, NR, NH, SW],
    "absence of shared mutable module or class state",
)
prop(
    "C10",
    "Threads sharing one reader receive each sentence exactly once, intact",
    "When several threads call read() on one reader whose stream is itself thread-safe, every sentence of the stream is returned to exactly one of them, complete and correctly parsed, whatever the interleaving. Each thread sees its sentences in stream order, errors are reported once, and no schedule deadlocks.",
    ["schedules"],
    "every interleaving at source line granularity of two (three) threads sharing one reader with at most the bounded number of preemptions, files and sockets, streams with good, bad and foreign elements",
    "The documented thread-safety of read() is not tested at all.",
    [NR, SW],
    "lock around the read of one sentence",
)
prop(
    "C11",
    "Every published sentence layout is decoded field by field as published",
    "For every published sentence definition in every message mode, a received sentence is decoded into exactly the attributes of its layout, in order, each with the value and type of the corresponding field; repeating groups are numbered from 01 for fixed, counted and indeterminate repeats. A sentence which ends early (older device, but after any repeat count) has exactly the attributes of the fields it carries, extra trailing fields are ignored, and an empty field never shifts its neighbours.",
    ["inputs", "configurations"],
    "every definition x mode x every truncation length x repeat counts x field value classes (distinct values, empty, boundary)",
    "Tests parse roughly 60 sentences of some 600 definitions, each at one length and with one set of values.",
    [NM] + TABLES,
    "payload tables, recursive attribute and group processing, typed conversion",
)
prop(
    "C12",
    "Parsing then serializing reproduces the sentence; repr recreates the message",
    "For every sentence accepted by the parser, serializing the resulting message gives back exactly the received bytes, known or unknown, proprietary or not, whatever its field contents or text encoding. Evaluating the repr of any message whose id is not user-defined recreates a message with the same identity, mode, payload, attributes and string form, and (for a correct upper case checksum) the same serialized form.",
    ["inputs", "configurations"],
    "every definition x mode x truncation x value class, unknown and user-defined ids, checksum case, non-ASCII text, messages generated from attributes",
    "Tests round-trip some fixed sentences.",
    [NM, NR],
    "payload retention, serialize(), __repr__",
)
prop(
    "C13",
    "A message generated from attributes parses back to those attributes",
    "For every published definition and mode, creating a message from any subset of its attributes gives a sentence with the layout's full number of fields and a valid checksum which, when parsed, yields the supplied values (to the field's precision), with every omitted attribute at the nominal value of its type; arguments which are no attribute of the layout have no influence. Numeric fields are written in plain decimal notation and standard lat/lon fields with 5 decimals of minutes, or 7 in high precision mode.",
    ["inputs", "configurations"],
    "every definition x mode x (all attributes, none, each single attribute, each single omission) x value classes x repeat counts x precision mode",
    "Tests generate about 20 messages.",
    [NM, NH] + TABLES,
    "generation branch of attribute processing, nominal values, value formatting",
)
prop(
    "C14",
    "Latitude/longitude sign and hemisphere letter always agree",
    "For every published sentence carrying attributes lat and lon with hemisphere fields, parsing gives a negative lat exactly for S and a negative lon exactly for W, and generating from signed lat/lon writes the matching letter, whatever letter is passed as an attribute. The magnitude never depends on the hemisphere.",
    ["inputs", "configurations"],
    "every definition with signed position x all four quadrants x poles, equator, meridian, antimeridian and empty positions, parsed and generated",
    "Tests cover a few definitions and quadrants.",
    [NM, NH],
    "sign override after hemisphere fields, derivation of letters on generation",
)
prop(
    "C15",
    "A message object cannot be changed after creation",
    "Whatever sequence of attribute assignments, deletions, or modifications of lists obtained from or passed to a message is attempted, its attributes, payload, checksum, identity, string form and serialized bytes stay the same. Assignments and deletions raise the package's message error.",
    ["histories"],
    "every sequence of mutation attempts up to the bound on messages of every origin (parsed, generated, unknown, user-defined, proprietary)",
    "Tests try one assignment.",
    [NM],
    "__setattr__/__delattr__ guard, defensive payload copies",
)
prop(
    "C16",
    "Results do not depend on what was done before, and inputs are never modified",
    "The result of any parse, generation, serialization, stream read or conversion depends only on its arguments: after any history of earlier successful or failing operations it equals the result in a fresh process. Arguments passed in (payload lists, keyword values, user-defined definition dictionaries, message bytes) and the published definition tables are left unmodified.",
    ["histories"],
    "every operation sequence up to the bound over an alphabet of successful and failing operations, compared with the operation alone",
    "Tests run each operation once in a fixed order.",
    [NM, NR, NH, SW],
    "absence of retained state, defensive copies",
)
prop(
    "C17",
    "Unknown sentences and talkers are handled exactly as the flags say",
    "A sentence with an unknown id is returned with its fields as nominal attributes field_01, field_02, ... when message id validation is off, and is rejected with a parse error when it is on; an unknown talker is rejected only when message id validation is on. Known ids parse identically for every talker and validation setting, invalid message modes are always rejected, and the static parser and the stream reader agree. Messages made from keywords follow the same flags.",
    ["inputs", "configurations"],
    "talkers x (standard, proprietary, unknown ids) x modes x all validation flag values x parse, reader and constructor",
    "Tests cover single combinations of the matrix.",
    [NM, NR, NC],
    "definition source selection and validation flags",
)
prop(
    "C18",
    "The right layout variant is chosen for overloaded proprietary sentences",
    "For sentences whose layout depends on content (field count, first field, supplied attributes), parsing selects the variant whose published layout matches: OK and ERROR,n responses to any Quectel QTM command, with/without version and interface forms, enable/disable forms, message types in the first field, and first-field message ids of UBX, TNL, ASHR, FEC, SSN and GPPADV. Generating from attributes which distinguish a variant produces that variant, and it parses back to the same attributes.",
    ["inputs", "configurations"],
    "every overloaded id x mode x every field count x discriminating values, and every defining attribute combination for generation",
    "Tests cover some variants at one payload each.",
    [NM],
    "variant selection functions, msgId concatenation",
)
prop(
    "C19",
    "User-defined sentences behave like published ones",
    "For any user-defined definition built from the documented attribute types and repeating groups (fixed or counted by an earlier field, alone, in sequence or nested, or a final indeterminate one), sentences are decoded, serialized, generated and re-parsed according to that definition in every mode, both through the static parser and a reader. A user-defined definition never alters the handling of standard or proprietary ids, and is ignored when not supplied.",
    ["inputs", "configurations", "programs"],
    "every definition up to the bounded number of elements over all attribute types and group kinds x payload lengths x repeat counts",
    "Tests have one user-defined dictionary.",
    [NM, NR],
    "user-defined definition source, group rules",
)
prop(
    "C20",
    "Lat/lon fields convert to degrees and back within field precision",
    "Converting any latitude or longitude to an NMEA field gives (d)ddmm.mmmmm (7 decimals in high precision mode) with minutes below 60 and the right zero padded width, and converting it back gives the magnitude within half a unit of the last digit. Every well-formed (d)ddmm.m field of any number of decimals is converted to degrees + minutes/60 correct to 10 decimals, and anything without the minimum form gives an empty value.",
    ["inputs"],
    "a grid over all degrees, all minutes and rounding boundary values of seconds x lat/lon x precision; every field string shape up to the bound",
    "Tests convert about ten values; carries and widths fail at isolated values.",
    [NH],
    "dmm/decimal degree conversion helpers",
)
prop(
    "C21",
    "Display conversions of positions denote the same position",
    "The degrees-minutes, degrees-minutes-seconds and ISO6709 renderings of any position denote that position within the documented rounding, with minutes and seconds below 60, the right hemisphere letter or exactly one sign per component, and plain decimal notation. Parsing a rendered degrees-minutes(-seconds) string back returns the signed value within the rounding, and malformed strings are rejected.",
    ["inputs"],
    "a grid over degrees, minutes and rounding boundary seconds, both signs and axes; all short strings over the rendering alphabet for the parser",
    "Tests check a few literals.",
    [NH],
    "deg2dms, deg2dmm, latlon2*, llh2iso6709, dms2deg",
)
prop(
    "C22",
    "Date and time fields convert exactly in both directions",
    "Every valid calendar date converts to and from each of the three NMEA date layouts without change (two-digit years to the window 1969-2068), and every time of day to and from hhmmss.ss exactly to the field's hundredths, and from fields with no or up to six decimals. Fields of digits of the right length which denote no valid date or time, empty fields and fields with letters convert to an empty value, never to a wrong date or time.",
    ["inputs"],
    "all dates of the two-digit window and all (boundary) four-digit years x 3 layouts; all 86400 seconds x hundredths boundaries; all 6-digit strings",
    "Tests convert four values.",
    [NH, NM],
    "date2utc, date2str, time2utc, time2str",
)
prop(
    "C23",
    "GNSS week/time-of-week conversions are exact inverses with right leap seconds",
    "For every supported GNSS time system, converting UTC to week number, time of week and leap seconds and back returns the same instant to the millisecond, with time of week always within 0 to 604,799,999 and the week number within its rollover range in modular form. The leap second offset changes exactly at each announced leap second date by the published amount, relative to the system's epoch (GLONASS, which keeps UTC, has none), and with automatic rollover the latest instant not after now is returned.",
    ["inputs"],
    "all week and leap second boundaries of every system +- offsets, each day since epoch, all rollovers, explicit and derived leap seconds",
    "Tests check about 20 instants; errors live within seconds of boundaries.",
    [NH, NC],
    "utc2wnotow, wnotow2utc, leapsecond and the leap second table",
)
prop(
    "C24",
    "Geodetic and ECEF coordinates are inverse conversions",
    "For positions from the deep ocean floor to beyond GNSS satellite orbits, at all latitudes and longitudes including poles and antimeridian, converting geodetic to ECEF coordinates and back returns the same position within a nanodegree-scale and sub-millimetre tolerance, on WGS84 and on other ellipsoids passed as arguments. The ECEF result satisfies the ellipsoid's defining equation, and positions near the Earth's core give the documented nominal value.",
    ["inputs"],
    "a grid over latitude, longitude, height and ellipsoids, with octant and branch boundaries",
    "Tests check three positions.",
    [NH],
    "ecef2llh, llh2ecef",
)
prop(
    "C25",
    "Distance, bearing, area and unit conversions obey their geometry",
    "Spherical distance is symmetric, zero for equal points, never above half the circumference, equal to the great-circle distance for all pairs including antipodal and antimeridian ones, and agrees with the planar approximation at short range; the bearing lies in [0, 360) and points along that great circle. The area between two coordinates, knot conversions and hex formatting equal their defining formulas for all arguments, and invalid units are rejected.",
    ["inputs"],
    "all pairs of a global grid with poles, antimeridian, antipodes and short offsets; all units",
    "Tests check a few pairs.",
    [NH],
    "haversine, planar, bearing, area, knots2spd, hex2str",
)

prop(
    "C26",
    "An endless stream is read with bounded memory",
    "Reading, parsing, generating, serializing and converting any number of messages, valid, invalid or foreign, from files, sockets and chunked or compressed transfers, under every error policy, retains no memory per message: once messages and errors have been handed to the caller (or discarded) nothing of them is kept, however long the process runs.",
    ["histories"],
    "loops over every element kind, transport, policy, operation and pair of element kinds, with different data in each round",
    "Tests read a few sentences and never look at memory; a receiver runs for months.",
    [NR, NM, SW],
    "stream buffer trimming, message construction without retained references",
)
prop(
    "C27",
    "A socket stream can be written while read and knows what it buffered",
    "Data written through a socket stream reaches the socket once, unchanged and in order, the number of bytes the socket accepted is returned, and writing never disturbs what is read. At any time the buffer and the number of bytes waiting are exactly the bytes received and not yet read, and asking for them receives nothing. No more than the configured buffer size is ever received at once.",
    ["histories", "schedules"],
    "all sequences of reads, line reads, writes and queries up to a depth x all segmentations x partial sends",
    "Tests write once and never look at the buffer between segments.",
    [SW],
    "write, in_waiting, buffer",
)
prop(
    "C28",
    "Copies of a message are equal, immutable and independent",
    "Shallow and deep copies of any message and its pickles of any protocol, also when loaded in another process, have the same attributes, payload, checksum, identity, string forms and serialized bytes as the original, are as immutable as the original, and share nothing through which one could change the other. Every message and copy is hashable, equal to itself, and comparable with other objects without an error.",
    ["histories", "inputs"],
    "every definition, mode and origin of messages x all sequences of copy operations up to a depth",
    "Tests never copy or pickle a message; applications pass them through queues to other processes.",
    [NM],
    "attribute storage and immutability flag of NMEAMessage",
)
prop(
    "C29",
    "Time-dependent results follow the clock, all others ignore it",
    "Dates and times omitted when a message is generated are the current UTC date and time at that moment, in every local time zone, at every instant including midnights, year ends and leap days, and also after the clock was set back. The current week and time of week and automatic week rollover are resolved against the now, exactly to the latest instant not after it. Every other result is independent of clock and local time zone.",
    ["inputs", "histories"],
    "all definitions with date or time fields x pairs of instants x zones; systems x instants x offsets from now; every parse and conversion x instants x zones",
    "Tests run at one moment in one time zone.",
    [NM, NH],
    "nominal values of dates and times, wnotow2utc, utc2wnotow, leapsecond",
)

prop(
    "C30",
    "Identities, descriptions and decode tables agree with the decoded messages",
    "The identity, talker, message id, mode and payload of every message, known or unknown, in every mode and for every talker, are those of its sentence (with the proprietary message id field where that is part of the identity). The description of an id is the published one and any other id is described as unknown. The value decoded from a field looks up its published meaning in the decode tables (fix quality, position mode, system and signal ids).",
    ["inputs"],
    "all definitions x modes x talkers x value classes; all ids and near-ids; all decode codes x the fields which carry them",
    "Tests look at about ten identities and five table entries.",
    [NM, NH, NC, "src/pynmeagps/nmeatypes_decodes.py"],
    "identity and other getters, msgdesc, decode tables",
)
prop(
    "C31",
    "A message is created whole or not at all",
    "Creating a message, for any talker and id texts, mode, validation setting and attribute values of any built-in type (right or wrong for their field, known or unknown names), from a published or user-defined, even malformed, definition, either succeeds or raises one of the package's own errors; invalid modes and, with message id validation, unknown ids and talkers are refused. A created message can always be serialized and shown; its sentence is talker, id and all fields of the definition with the right checksum, and parsing it again succeeds or raises a package error.",
    ["inputs"],
    "all definitions x modes x attributes x values of all built-in types, singly and combined; constructor arguments; malformed definitions",
    "Tests construct with right values and about five wrong ones.",
    [NM],
    "constructor, attribute conversion and its exception handling, serialize, checksum generation",
)

prop(
    "C32",
    "Results do not depend on interpreter settings, and the process is left as it was",
    "Any parse, generation, stream read or conversion gives the same result, or error, whatever the interpreter and program are set to: optimisation (-O, -OO), hash seed, encodings and UTF-8 mode, development and isolated modes, locale, time zone, decimal context, garbage collection, logging level, standard streams, calling thread, which module of the package is imported first, and whether the package is imported from a directory, a zip file or compiled files. Importing the package and using it leave the state of the process (locale, decimal context, logging configuration, signal handlers, threads, timeouts, environment, open files, random numbers ...), the file system and the standard streams as they were; sockets and files it reads keep their settings.",
    ["configurations"],
    "operations (all definitions, families of variants, real sockets and files) x interpreter options and process settings",
    "Tests run in one interpreter configuration and never compare the state of the process.",
    [NM, NR, NH, SW],
    "use of asserts, sets, locale- or context-dependent library functions, module-level side effects",
)

prop(
    "C33",
    "A complete sentence is delivered at once, and nothing behind it is consumed",
    "A sentence read from a live stream or socket (plain, chunked or compressed) is delivered, or its error reported, as soon as its line end is available, without asking for further data. After each delivery the stream stands exactly behind the sentence, so that the stream can be handed to another reader or read by the program itself with nothing lost; a reader on a stream which is no socket asks for no data before it is read from.",
    ["schedules", "inputs"],
    "element sequences x configurations on a source observing every request; handovers; segmentations of sockets; real pipes, sockets, terminals, files",
    "Tests read complete files and endless dummy sockets only.",
    [NR, SW],
    "byte-wise header reads, line reads, receive only when the buffer is exhausted, chunk decoding",
)

prop(
    "C34",
    "An exception of the program passes through and leaves the reader usable",
    "An exception raised outside the package while it reads - by the stream (interrupt, exit, cancellation, operating system errors, ValueError of a closed file, any other than EOFError and the package's own), by a socket's recv (other than the operating system's), by the error handler or by a logging handler to which an NMEA error is reported - comes out of the reader as the very same object under every error policy, neither swallowed nor replaced nor reported as an NMEA error. Afterwards the reader goes on working, in the same or in another thread: every sentence is delivered once and in order, apart from at most the one that was being read when the exception struck. The error handler may itself read from the reader: its reads deliver the next sentences. An exception of a socket's send comes out of the wrapper's write and leaves the wrapper as it was. An interrupt raised by a value while a message is made comes out unchanged, and later messages are not affected.",
    ["faults", "schedules"],
    "every call to a collaborator x exception x before/after it consumed data x policy x read/iterate x same/other thread; pairs of faults; all sets of errors with a reading handler",
    "Tests raise no exceptions from streams or handlers.",
    [NR, SW, NM],
    "error handling of read, SocketWrapper receive and write, do_error, construction of messages",
)

prop(
    "C35",
    "The same bytes give the same results from every kind of stream",
    "Reading the same bytes gives the same sentences and errors from every kind of stream the documentation allows: any object with read(n) and readline() returning bytes - memory, files however opened, compressed files and archives, pipes, terminals, files made of sockets, HTTP responses, memory maps, serial ports, objects which delegate, are false or empty, compare strangely or have a method named recv - and any socket, of whatever family, type or subclass. The reader leaves the stream as the program set it up: open, in the same blocking mode and timeout, without new attributes, with nothing but read, readline and (sockets) recv called on it.",
    ["inputs", "configurations"],
    "element sequences x kinds of streams (in memory, files, operating system) x policies x read/iterate; state of the stream before and after",
    "Tests read from regular files, memory and one dummy socket.",
    [NR, SW],
    "choice between stream and socket wrapper, _read_bytes, _read_line",
)

prop(
    "C36",
    "A damaged chunk costs only itself",
    "In a chunked transfer whose chunks are gzip, compress or deflate coded (or several of these), a chunk which cannot be decompressed is logged once as an error and its bytes are passed on as they are; all other chunks are delivered exactly, however the transfer is segmented. An invalid length line (not hexadecimal, negative or beyond any possible size) raises nothing and loses at most what follows it in the same received segment: every chunk before it and every chunk which begins in a later segment is delivered exactly, and sentences in undamaged chunks are all read.",
    ["inputs", "fault_sequences", "schedules"],
    "every damage of every byte position and length of each of three chunks x codings x one and two cuts; invalid length lines x all placements x all segmentations at chunk boundaries and inside the line",
    "Tests decode intact chunks only.",
    [SW],
    "dechunk(): length lines, decompression errors",
)

prop(
    "C37",
    "Parameters act as documented, by name, by position or left out",
    "Every public function, constructor and method takes its documented parameters by name or by position in the documented order, in any mixture, with the same result; a parameter left out acts exactly as its documented default given explicitly; and every optional parameter has the effect documented for it. The documented constants (modes, validation flags, error policies, encodings, systems, attribute types, ellipsoid) have their documented values and can be given as name or number.",
    ["inputs", "configurations"],
    "every function x sample call x up to three optional parameters at other values x number of positional arguments x subsets of the defaults left out",
    "Tests call each function in one spelling; a default or an order no test uses can change unnoticed.",
    [NR, SW, NM, NH],
    "signatures, defaults, constants",
)

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
