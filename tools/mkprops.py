#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, state=state or [], hook_needed=None)))

p("C01", "Every message survives encode then decode",
  """For each of the 65 built-in message types and any header (terminal number of up to 12 decimal digits including 0,
  any serial number, any sub-package total/index or none, any reserved property bits), encoding a message whose fields fit
  their wire slots and decoding the resulting frame gives back the same header and the same field values: numbers, bytes,
  GB18030-representable text without NUL, list contents and order, optional fields, and location extras
  (which only location messages carry: the locations in the media messages 0801 and 0802 are sent without them).
  Fixed-width text fields longer than their slot come back cut to the slot, and never disturb the fields after them.
  Whenever the encoded body is at most 1023 bytes, encoding and decoding both succeed.""",
  ["inputs"], "all 65 message types x all in-range field values x all headers",
  """Each existing test encodes and decodes one hard-coded body per type, most never through a frame or header; boundary
  values (empty lists, zero hours, year 2005, phone number 0) are never sampled.""",
  ["protocol/message.go", "protocol/header.go", "protocol/bufio.go", "protocol/helpers.go", "protocol/t808_0x*.go", "protocol/extra/*.go"],
  [("Message.Encode/Decode", "protocol/message.go"), ("Header.Encode/Decode", "protocol/header.go"), ("per-type Encode/Decode", "protocol/t808_0x*.go")],
  ["return values of Message.Encode and Message.Decode"])

p("C02", "Encoded bytes follow the JT/T 808 wire layout",
  """Every encoded frame is 0x7e, escaped content, 0x7e, where the content is header, body and an XOR checksum of both, with 0x7e and
  0x7d (checksum included) escaped as 0x7d 0x02 and 0x7d 0x01, so that no other 0x7e appears. The header is message ID, property word (body length in
  the low ten bits, bit 10 encrypted, bit 13 sub-packaged), 6-byte BCD terminal number, serial number, and total and index when sub-packaged; all integers big-endian.
  Each message type's body is exactly its fields in their documented order (count and length prefixes, BCD times, GB18030 text,
  coordinates in 1e-6 degree with hemisphere bits, zero-padded fixed fields), and conversely decoding bytes laid out that way yields those fields,
  and a location extra's Value is the value its bytes stand for;
  a body's Decode reports exactly the bytes it read.
  The named result codes, flags, commands, kinds, resolutions and sample rates have the wire values JT/T 808 gives them.""",
  ["inputs"], "all message types, field values and headers; both directions against an independent reference encoder",
  """Existing tests only compare the encoder with its own decoder, so a symmetric layout change (two swapped fields, another
  byte order, another checksum) passes all of them and breaks every real terminal.""",
  ["protocol/message.go", "protocol/header.go", "protocol/property.go", "protocol/bufio.go", "protocol/t808_0x*.go", "protocol/extra/*.go"],
  [("escaping and checksum", "protocol/message.go"), ("header layout", "protocol/header.go"), ("body layouts", "protocol/t808_0x*.go")],
  ["bytes returned by Message.Encode and Entity.Encode", "values produced from reference bytes by Decode"])

p("C03", "No input crashes or hangs the decoder or the server",
  """Decoding any byte sequence, as a whole frame (with or without a private key), as the body of any message type, as a location extra, or as
  a stream fed to the codec or to a running server, terminates with a value or an error and never panics.
  Whatever one connection sends, including malformed, truncated or hostile frames, the server process stays up and keeps
  serving other connections and new ones.""",
  ["inputs"], "all byte strings, at frame, body, extra, codec-stream and live-server level",
  "Existing tests feed the decoder only well-formed output of its own encoder.",
  ["protocol/message.go", "protocol/header.go", "protocol/bufio.go", "protocol/t808_0x*.go", "protocol/extra/*.go", "protocol.go", "session_handler.go"],
  [("length checks before reads", "protocol/t808_0x*.go"), ("Reader bounds", "protocol/bufio.go"), ("frame scanning", "protocol.go")],
  ["absence of panics", "a second live session keeps getting answers"])

p("C04", "Damaged frames never deliver a body",
  """A frame whose content (after unescaping) does not XOR to zero, which contains an escape byte not followed by 0x01 or 0x02, which lacks
  either delimiter, or which is too short for its header is rejected with an error; in particular any change of a single content
  byte of a valid frame is rejected. A frame whose declared body length differs from the actual one never delivers a decoded body.
  A compressed-upload body whose compressed data is damaged or cut short is refused, not delivered partially.""",
  ["inputs"], "all valid frames x all corruptions (byte changes, insertions, deletions, truncations, broken escapes, wrong lengths)",
  "No existing test decodes a damaged frame.",
  ["protocol/message.go", "protocol/header.go", "protocol/t808_0x0901.go"],
  [("checksum verification", "protocol/message.go Decode"), ("length comparison", "protocol/message.go Decode"), ("gzip errors", "protocol/t808_0x0901.go")],
  ["error and body returned by Message.Decode"])

p("C05", "What does not fit the wire is refused, never silently altered",
  """Encoding a message whose body exceeds 1023 bytes (by any amount), or that has a length-prefixed text, a parameter value or a list longer than
  its one-byte length or count prefix can express, or a terminal number of more than 12 digits, returns an error instead of a frame. So a frame the encoder returns never decodes to other lists, texts, payloads or terminal number than it was given (fields of fixed width, which are cut to their slot, excepted). Encoding a message with no body, or with the sub-package bit set but no sub-package numbers,
  returns a frame or an error and does not panic.""",
  ["inputs"], "all messages including over-long bodies, strings and lists around every size limit (255/256, 1023/1024, 65535/65536)",
  "Existing tests never exceed a limit.",
  ["protocol/message.go", "protocol/property.go", "protocol/header.go", "protocol/t808_0x*.go"],
  [("body size limit", "protocol/property.go SetBodySize"), ("length prefixes", "protocol/t808_0x*.go")],
  ["error and bytes returned by Message.Encode"])

p("C06", "A received message can be re-sent without change",
  """For every frame that decodes to a message with a body (its texts being valid GB18030), including frames not produced by this library, re-encoding the decoded message either
  returns an error or gives a frame that decodes to the same header and the same field values, location extras' values and payload bytes included.
  A frame in the documented layout (its texts valid, its body not compressed) is re-encoded to its very bytes.
  Encoding a message twice gives the same bytes (except for a body that is read from a one-shot stream or encrypted), and decoding the same bytes twice gives the same message.""",
  ["inputs"], "all decodable frames: generated valid ones and structurally mutated ones with corrected checksum and length",
  "Existing tests never re-encode a decoded value.",
  ["protocol/message.go", "protocol/t808_0x*.go", "protocol/extra/*.go"],
  [("extras keep their payload", "protocol/extra/*.go Decode/Data"), ("Encode/Decode", "protocol/t808_0x*.go")],
  ["Decode(Encode(Decode(x)))"])

p("C07", "Encrypted bodies decrypt to the original, and only with the key",
  """A message encoded with an RSA public key is marked encrypted in its header (and one marked for encryption but given no key is refused, never sent in clear), its body on the wire is a whole number of
  key-sized blocks that does not contain the plain body, and decoding with the matching private key gives the
  original message for every body that fits. Decoding it without a key or with another key returns an error
  and no body, unencrypted messages decode identically whether or not a key is supplied, and an encrypted body that would exceed 1023 bytes is refused.""",
  ["inputs", "configurations"], "all messages x body sizes around multiples of the OAEP block size x right / wrong / no key",
  "No existing test uses encryption.",
  ["protocol/message.go", "protocol/helpers.go", "protocol.go"],
  [("EncryptOAEP/DecryptOAEP chunking", "protocol/helpers.go"), ("encrypt flag", "protocol/property.go"), ("codec key selection", "protocol.go Send")],
  ["Message.Encode(key)/Decode(key)", "bytes written by the codec"])

p("C08", "The stream codec yields the same messages however bytes arrive",
  """Reading a concatenation of valid frames from a connection yields exactly those messages in order, no matter how the bytes are split across reads
  or whether the last read also reports end of stream; messages already received are not changed by later reads.
  A bad but delimited frame, or stray non-delimiter bytes between frames, cause errors but lose no valid frame that follows, and more than 65535 bytes without a complete frame is an error, not unbounded buffering.
  Sending writes exactly one complete frame per message, and writes nothing when the value is not a message or cannot be encoded.""",
  ["inputs", "schedules"], "all frame sequences x all read boundaries x interleaved garbage and bad frames",
  "The stream codec has no test at all.",
  ["protocol.go"],
  [("receive buffer and frame scan", "protocol.go Receive/readFromBuffer"), ("Send", "protocol.go Send")],
  ["values returned by the codec's Receive", "bytes written by the codec's Send"])

p("C09", "Each message reaches its handler exactly once, in order, isolated",
  """For every connection, each decodable message whose type has a registered handler is passed to that handler (the one most recently
  registered, nil registrations being ignored) exactly once each time it arrives (identical repetitions included, whatever its terminal and serial number), with that connection's session and the sent content, in the order sent; no other handler is called and
  messages without handler are skipped silently. Traffic of other connections never appears in, reorders or
  suppresses it. A handler or callback that panics loses nothing else: the connection and later messages carry on.""",
  ["inputs", "histories", "schedules"], "all interleavings of generated message sequences on several concurrent connections, arbitrary write splits, panicking handlers",
  "The server has no test at all.",
  ["server.go", "session_handler.go", "session.go"],
  [("dispatchMessage", "server.go"), ("receive loop", "session_handler.go HandleSession")],
  ["calls of registered handlers on a live server"])

p("C10", "Undecodable messages are answered 'unsupported', replies echo the request",
  """A well-framed message of an unregistered type, or whose body cannot be decoded, is answered on the same connection with a platform general response
  carrying that message's serial number and type and result 3 (unsupported), and the connection stays usable. A reply sent for a received message carries that message's serial number
  and type and the given result. Every platform message is addressed with the (nonzero) terminal number of the latest message received on that
  connection, from the very first one on.""",
  ["inputs", "histories"], "all sequences of supported, unsupported and malformed messages from terminals with any number",
  "The server has no test at all.",
  ["session_handler.go", "session.go"],
  [("unsupported reply", "session_handler.go"), ("Reply", "session.go"), ("terminal number tracking", "session.go")],
  ["frames a client receives from a live server"])

p("C11", "Platform serial numbers are nonzero, sequential and not reused early",
  """The messages a session sends, whether by send, reply or request and from any number of goroutines, arrive carrying the serial numbers 1, 2, ... 255 and then 1 again in exactly this order,
  each used exactly once per cycle and never 0; so any 255 consecutive ones are distinct. The number returned to the caller is the one on the wire of that caller's message, and each session counts independently.""",
  ["schedules", "histories"], "all interleavings of concurrent senders on one or more sessions, across wrap-around",
  "The session code has no test; wrap-around and races need hundreds of sends or concurrent ones.",
  ["session.go"], [("nextID compare-and-swap", "session.go"), ("Send", "session.go")],
  ["return values of Send/Reply/Request and frames at the client"])

p("C12", "A request's callback runs exactly once, for its own answer",
  """When a terminal answers (general response, parameter, location, question, vehicle-control, recorder-data, media-search or camera answer) with the serial number of a pending
  request of the same session, that request's callback runs exactly once with that answer, even when the answer arrives before the requesting call returns.
  An answer with any other serial number, a repeated answer, an answer on another session, an answer to a request superseded by a newer request of the same
  message type, one to a serial number since reused for another message, or one to a request that was refused with an error runs no stale callback. The answer is also dispatched to its ordinary handler.""",
  ["histories", "schedules"], "all histories of requests, plain sends, answers in any order, repetition and timing, across serial wrap-around",
  "The session code has no test.",
  ["session.go"], [("request contexts", "session.go Request/addRequestContext/takeRequestContext"), ("answer matching", "session.go message")],
  ["callback invocations on a live server"])

p("C13", "Live sessions are exactly those registered; closing is reported once",
  """From its first message on, a connected terminal's session can be looked up by its ID, is reached exactly once by each broadcast and is counted in the broadcast's result
  (one that does not read and whose queue is full is disconnected and not counted).
  When a connection ends for any reason (peer closes, session closed, bad frame, server stopped), the close handler runs exactly once for that session, by then the session can no longer
  be looked up or broadcast to, and a panicking close handler affects nothing else. When Stop returns, every session that had delivered a message is closed, reported and
  unregistered, and soon none stays open or registered, even those connecting at that moment.""",
  ["histories", "schedules"], "all histories of connects, disconnects of every kind, lookups, broadcasts and stop",
  "The server has no test at all.",
  ["server.go", "session_handler.go"], [("session map", "server.go"), ("close callback", "server.go handleClose, session_handler.go")],
  ["GetSession, Broadcast result, close-handler calls, frames and EOF at clients"])

p("C14", "Silent terminals are disconnected, talking ones are not",
  """With a keepalive of K seconds, a connection on which nothing valid was received for K seconds (up to about two seconds more for the timer's granularity) is closed by the server.
  A connection that keeps delivering any well-framed message, whether or not a handler is registered for it or it is supported or part of a sub-packaged upload,
  at intervals safely below K (by more than one second) is never closed for inactivity.
  This holds for every K, however large; a keepalive of zero or less means 60 seconds.""",
  ["histories", "schedules"], "all activity patterns over time, message kinds and keepalive settings",
  "No test runs a server or waits for a timeout.",
  ["server.go", "session_handler.go", "timer.go"], [("timer refresh on receive", "session_handler.go/server.go"), ("handleReadTimeout", "server.go")],
  ["EOF time at clients of a live server"])

p("C15", "The countdown timer fires each idle key once, and only idle keys",
  """A key last refreshed at time T with expiration S seconds (the setting in force at that refresh) fires exactly once, not before T+S minus one second and not later than
  T+S plus two seconds, unless it is refreshed or removed before; refreshing restarts its countdown and removing prevents firing. (A refresh or removal made at the very tick at which the key is due, for instance by a callback of that tick, may come too late.) This holds for any number of keys with any refresh and removal order,
  from concurrent goroutines and from within the callback, and keys do not influence each other; expirations may be arbitrarily long. Non-positive expiration settings are ignored.""",
  ["histories", "schedules"], "all operation histories over many keys on a virtual clock, plus concurrent refreshes of the same key",
  "The timer has no test.",
  ["timer.go"], [("expiration heap + key map under mutex", "timer.go")],
  ["callback invocations of CountdownTimer on a virtual clock"])

p("C16", "Sub-package files: full exactly when complete, merged in order",
  """For any set of uploads of N parts (N at least 1) distinguished by terminal, message type and tag, an upload reports full exactly when every part 1..N has been written since its last merge, regardless of
  order, repetition and other uploads, and reports not full (without failing) when nothing was written. Merging a full upload yields exactly the latest data of
  parts 1 to N concatenated in numeric order, with no remnant of other uploads, of parts beyond N or of an earlier upload with the same identity.
  This also works for an unprivileged process.""",
  ["histories", "inputs"], "all histories of part writes, full queries and merges over several look-alike uploads, N up to hundreds",
  "The one test writes three parts once and never reads the merged content.",
  ["multipart.go"], [("part files per terminal/type/tag", "multipart.go"), ("Merge", "multipart.go")],
  ["MultipartFile.IsFull and content returned by Merge"])

p("C17", "Automatic merging delivers each upload once and intact",
  """With automatic merging on, each media-data part (that can be stored) is acknowledged with result 0, and the upload's handler is called exactly once each time the last missing part of 1..N arrives,
  in whatever order, with retransmissions, and interleaved with other uploads, other terminals and other messages, over one connection of the terminal or several at once, or several terminals over one connection; it receives the media payload of all parts in numeric order.
  No handler call happens for an incomplete upload. Messages not sub-packaged, or of types without merge support, are dispatched directly.""",
  ["histories", "schedules", "inputs"], "all arrival orders and interleavings of generated uploads on several connections, including re-uploads under the same media ID",
  "No test runs a server or automatic merging.",
  ["session_handler.go", "multipart.go", "protocol/t808_0x0801.go"],
  [("packet branch of the receive loop", "session_handler.go"), ("DecodePacket/SetReader", "protocol/t808_0x0801.go")],
  ["handler calls and payload read on a live server", "acknowledgements at clients"])

p("C18", "Typed parameters, bit helpers and readers/writers obey their laws",
  """A terminal parameter returns the value and ID it was set with for every kind (byte, bytes, 16- and 32-bit, GB18030 text) directly and after a trip through the set- and query-parameter messages,
  does not share memory with the caller's slice, and reading a kind wider than the stored value is an error. Setting a bit changes
  exactly that bit, getting it returns it, and offsets beyond the width read false and change nothing; the named flag setters and getters of the status, area and road-section words use their documented bit, and the header's size setter keeps the flag bits. Sized writes produce exactly the given size (zero-padded or cut),
  and reads consume exactly what they return, in order, or fail without consuming when not enough is left.
  Each log level's name, in any case, sets that level; other text is an error and changes nothing.""",
  ["inputs", "histories"], "all values, widths, offsets and sequences of primitive writes and reads",
  "Existing tests use a few parameters and never inspect the helpers.",
  ["protocol/params.go", "protocol/bit.go", "protocol/bufio.go", "protocol/property.go", "logger.go"],
  [("Param accessors", "protocol/params.go"), ("bit helpers", "protocol/bit.go"), ("Writer/Reader", "protocol/bufio.go")],
  ["return values of these exported helpers"])

p("C19", "Custom messages and extras plug in; unknown extras are skipped",
  """A message type or location extra registered by the user is decoded by the registered constructor for its ID and by no other, each message getting a fresh instance, and replaces a built-in of the same ID (one type may serve several IDs);
  other IDs are unaffected. A location report containing extras of unregistered IDs still decodes, with all registered extras before, between and after them present in order and unknown ones left out, also in the messages that embed location reports.
  A message of an unregistered ID decodes to its header without a body.""",
  ["inputs", "configurations"], "all custom IDs and payloads, all mixtures and positions of known and unknown extras",
  "No test registers anything or uses an unknown extra.",
  ["protocol/register.go", "protocol/extra/register.go", "protocol/extra/extra.go", "protocol/t808_0x0200.go", "protocol/message.go"],
  [("registries", "protocol/register.go, protocol/extra/register.go"), ("extras loop", "protocol/t808_0x0200.go")],
  ["Message.Decode results"])

p("C20", "Coordinates and times keep their exact value",
  """Any coordinate from -90/-180 to +90/+180 degrees with up to six decimals, in every message that carries coordinates, decodes to exactly the same decimal with the right hemisphere and the matching south/west flag set (a flag already set by the caller on a non-negative value is the caller's own hemisphere). Any second from the years 2000 to 2099 local time, in every message that carries
  times, decodes to the same instant whatever the process's time zone and the value's own location (local times that a clock change repeats excepted); a time of day below 24 hours keeps its milliseconds, and digits, or non-digits, that form no valid date, in any date field of any message, are an error.""",
  ["inputs", "configurations"], "all micro-degree coordinates in range, all seconds 2000-2099, several process time zones",
  "Existing tests use one coordinate pair and the current time in the current zone.",
  ["protocol/helpers.go", "protocol/bufio.go", "protocol/t808_0x0200.go", "protocol/t808_0x860*.go", "protocol/t808_0x0702.go", "protocol/t808_0x0705.go", "protocol/t808_0x880*.go"],
  [("BCD time", "protocol/helpers.go"), ("coordinate scaling", "protocol/helpers.go getGeoPoint, protocol/t808_0x0200.go, t808_0x8600/2/4/6.go")],
  ["decoded Lat/Lng/Time fields and flags"])

p("C21", "The library may be used from many goroutines at once",
  """A server (adding handlers, looking sessions up, broadcasting, running, stopping), its sessions (sending, replying, requesting, getting and setting the public key, closing), its timer (refreshing, removing, changing the expiration)
  the codec (encoding and decoding, also the same bytes, and the same entity for several terminals) and upload files (writing distinct parts, asking, merging distinct uploads) may be used by any number of goroutines at the same time as terminals connect, talk and leave, without a data race in the library's memory,
  and what is handed to an application (messages, their data) is not touched by the library any more. Each encoding and decoding gives what it gives alone, every frame a terminal receives is one that was sent to it,
  at most one Run serves at a time and returns after Stop, and after stopping each session has been reported closed exactly once.""",
  ["schedules", "histories"], "all interleavings of generated operation plans of several goroutines and terminals",
  "No test starts a second goroutine; a data race shows no symptom in most runs.",
  ["server.go", "session.go", "session_handler.go", "protocol.go", "timer.go", "multipart.go", "protocol/message.go"],
  [("Server.mutex, sync.Map of handlers", "server.go"), ("atomics and Session.mux", "session.go"), ("timer mutex", "timer.go"), ("codec key", "protocol.go")],
  ["reports of the race detector on accesses by the library", "results, received frames and close reports"])

p("C22", "Encoding and decoding leave everything else alone",
  """Encoding does not change the entity it is given (a one-shot media reader is used up, and rectangles and polygons may get their hemisphere flags set), so that it can be sent again or edited and sent; decoding does not change the bytes it is given, and neither writes to standard output.
  What was encoded or decoded earlier is not changed by any later encoding or decoding nor by overwriting the input. Decoding into a message used before gives the same result as into a fresh one: in particular no body when the new message has none that can be decoded;
  and an entity that held another value decodes a body to what a fresh one does.""",
  ["inputs", "histories"], "all sequences of encodings and decodings of all message types, into fresh and used messages",
  "Existing tests look at one result of one call.",
  ["protocol/message.go", "protocol/bufio.go", "protocol/t808_0x*.go"],
  [("Message.Encode/Decode", "protocol/message.go"), ("per-type Encode", "protocol/t808_0x*.go")],
  ["entities, inputs and earlier results after each call"])

p("C23", "Failing disks and crashes never corrupt an upload",
  """A part of an upload counts as written only as a whole. A write that fails half-way (full disk, no file handles, no permission) is reported to the caller, and by an automatically merging server to the terminal as a failed result, and changes nothing: the upload is exactly as complete as before and an earlier version of that part stays.
  A merge that fails leaves the parts in place, so that it can be repeated, and nothing partial is delivered; merging needs only a handful of file handles, however many parts there are. When the process is killed at any point, every part completely written before (unless a merge of its upload was under way) is still there, and whatever is merged later consists only of whole parts, each the data of its last completed write or of the one under way.""",
  ["crash points", "faults", "histories"], "all fault points of writing and merging (size limit, handle limit), all kill points of a writing process",
  "Existing tests never see a failing write or a killed process.",
  ["multipart.go", "session_handler.go"],
  [("MultipartFile.Write", "multipart.go"), ("MultipartFile.Merge", "multipart.go"), ("sessionHandler.HandleSession", "session_handler.go")],
  ["completeness and merged content after each fault and after restart, acknowledgement results, handler calls"])

p("C24", "Ended connections and uploads leave nothing running or open",
  """When a connection has ended, however it ended (closed by either side or both, bad frame, half a frame, queue overflow, unread data, pending requests, uploads delivered, failed or abandoned, handlers that panic or do not read the merged data), the goroutines and file handles that served it are released while the server keeps running; and after the server is stopped no connection, listener or upload file stays open.""",
  ["histories", "schedules"], "all mixes of connections, traffic and endings",
  "Leaks have no symptom in a short test.",
  ["session_handler.go", "session.go", "server.go", "protocol.go", "multipart.go"],
  [("sessionHandler.HandleSession", "session_handler.go"), ("ProtocolCodec.Close", "protocol.go"), ("MultipartFile.Merge", "multipart.go")],
  ["goroutines and open file descriptors of the process after the connections ended and after Stop"])

p("C25", "Whatever an application sends, encoding gives an error or a well-formed frame",
  """Whatever an application puts into a message of any built-in type (nil entities, nil list items, nil readers, empty or oversized texts and lists, parameters without or with odd values, decimals with any exponent and digits, zero and far-away times, any numbers)
  and whatever public key it uses (none, without modulus, too small, odd exponent), encoding neither panics nor hangs: it returns an error, or a frame that is well-formed (delimiters, escaping, checksum, length field, the header as given) and that, unencrypted, the decoder accepts.
  On a running server sending, replying or requesting such a message at most ends the connection it was sent on: no terminal receives a malformed frame, and all other connections and new ones are served.""",
  ["inputs", "histories"], "all values of all fields of all message types, all public keys",
  "Existing tests encode one sensible value per type.",
  ["protocol/message.go", "protocol/t808_0x*.go", "protocol/params.go", "protocol/helpers.go", "session.go", "protocol.go"],
  [("Message.Encode", "protocol/message.go"), ("per-type Encode", "protocol/t808_0x*.go"), ("EncryptOAEP", "protocol/helpers.go"), ("ProtocolCodec.Send", "protocol.go")],
  ["errors and frames returned by Message.Encode", "frames received by terminals"])

p("C26", "Slowness stays local, and handlers may use the library",
  """A message handler, request callback, close handler or upload handler that does not return, or a terminal that does not read what it is sent, holds up at most its own connection: all others go on having their messages dispatched, requests answered, uploads merged, broadcasts and sends delivered, handlers registered and sessions looked up,
  terminals connect and leave (each leaving reported and unregistered), silent terminals are disconnected, and nobody's Close, Send, Request or Broadcast call waits for it. Once what was stuck returns, its connection is served again, and Stop returns.
  Message handlers, request callbacks and close handlers may themselves send, reply, request, close their own or other sessions, look sessions up, broadcast, register handlers and use keys, and message handlers and callbacks may stop the server, nested in any way, without any of these calls blocking for ever; each session is still reported closed exactly once.""",
  ["histories", "schedules"], "all mixes of stuck handlers, callbacks, close handlers, uploads and terminals; all sequences of calls made from handlers",
  "Existing tests run no handler; a lock held while calling out only shows when the callee waits or calls back.",
  ["server.go", "session.go", "session_handler.go", "timer.go", "protocol.go"],
  [("Server.mutex and mergeMutex", "server.go, session_handler.go"), ("request callbacks", "session.go"), ("read time-outs", "timer.go, server.go handleReadTimeout"), ("dispatchMessage, handleClose", "server.go")],
  ["return of calls, handler and callback invocations, received frames, close reports"])

p("C27", "A body that stops short is refused, and nothing is delivered that was not received",
  """A body in the documented layout cut off anywhere delivers no message body, although its frame is intact, unless what is left is a complete body by itself (of a type whose last field may be missing or of any length); then exactly that is delivered: sent again it is the same bytes
  (except that text cut inside a character, and a single stray byte after a location, need not be kept). More generally, whatever body bytes are received, a delivered message has no fields, list items or payload beyond them: encoded again it is never longer (compressed bodies and invalid text excepted).
  A location report one of whose extras (of a registered kind) is shorter or longer than its kind is refused, alone or inside another message. On a server such a cut message calls no handler and is answered 'unsupported'.""",
  ["inputs"], "all cuts of all bodies of all message types, all mutated bodies",
  "Existing tests never decode an incomplete body; the missing fields would silently be zero.",
  ["protocol/t808_0x*.go", "protocol/bufio.go", "protocol/extra/*.go", "protocol/message.go"],
  [("per-type Decode", "protocol/t808_0x*.go"), ("Reader", "protocol/bufio.go"), ("extras loop", "protocol/t808_0x0200.go")],
  ["Message.Decode results, re-encoded bytes, answers of a live server"])

p("C28", "What a connection sends decides only in proportion how much memory it takes",
  """Decoding a frame or body, whatever counts and lengths it claims, allocates at most 128 KiB plus 10,000 bytes for each byte received, and a server holds no more memory for a connection
  however many messages have come over it (handled, unhandled, undecodable, of unknown type, answers, fragments, under changing terminal numbers) and however many connections have come and gone;
  what a handler, a request not yet answered or an unfinished frame needs excepted.""",
  ["inputs", "histories"], "all bodies with all claimed counts and lengths; all traffic histories of a server",
  "No existing test looks at memory; a twenty-byte frame that claims 65535 positions, or something kept per message, passes them all.",
  ["protocol/t808_0x*.go", "protocol/bufio.go", "protocol.go", "session.go", "session_handler.go", "server.go", "timer.go"],
  [("lists sized by a received count", "protocol/t808_0x0704.go, 0705, 0802, 0805, 8604"), ("per-connection state", "session.go, protocol.go"), ("session table and timer", "server.go, timer.go")],
  ["bytes allocated by Decode, live heap of a serving process"])

p("C29", "An error tells its cause",
  """Whatever is wrong, the error is the one the errors package has for it. Decoding a frame: delimiters or escapes wrong, ErrInvalidMessage; checksum, ErrInvalidCheckSum; header too short, its number not decimal or its
  sub-package numbers missing, ErrInvalidHeader; encrypted and no key or the wrong one, ErrDecryptMessageFailed; nothing else is refused. Encoding: a list, text or body beyond its limit, ErrBodyTooLong; a header that cannot be sent
  (number over twelve digits, encryption without a key, sub-package bit without numbers), ErrInvalidHeader. A date the calendar lacks, ErrInvalidBCDTime; an unknown extra, ErrTypeNotRegistered, a short one, ErrInvalidExtraLength;
  sending what is no message, ErrInvalidMessage; a body size over 1023, ErrBodyTooLong.""",
  ["inputs"], "all frames, messages, dates, extras and headers",
  "No existing test asserts which error comes back; a swallowed or swapped error passes them all.",
  ["errors/errors.go", "protocol/message.go", "protocol/header.go", "protocol/property.go", "protocol/helpers.go", "protocol/errors.go", "protocol/extra/", "protocol.go"],
  [("frame, checksum, header, key", "protocol/message.go Decode; protocol/header.go"), ("limits", "protocol/t808_0x*.go Encode; protocol/property.go"), ("dates, extras", "protocol/helpers.go; protocol/extra")],
  ["errors returned by Decode, Encode, Send, SetBodySize"])

p("C30", "A server starts, stops and starts again as told",
  """Run serves until Stop and then returns an error; a second Run of a running server, or one on a port or network that cannot be had, returns an error and changes nothing, so that a later Run still works.
  Stop ends every connection, reports each session closed, frees the port and may be called at any time, running or not. A stopped server can be run again, on the same port or another, with the options it was created with and the handlers added before, meanwhile or after;
  sessions of before stay closed (sending and requesting are errors) and unregistered. Servers in one process share nothing: handlers, sessions, broadcasts and stops concern their own terminals only.
  A private key that is not 1024 bits is refused.""",
  ["histories"], "all histories of starts (also in vain), stops, restarts, handler registrations, connects and disconnects on one or several servers",
  "The server has no test at all.",
  ["server.go"], [("Run, listen, Stop", "server.go"), ("NewServer", "server.go")],
  ["results of Run, Send, Request, GetSession, Broadcast; handler and close-handler calls; the listening port"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
