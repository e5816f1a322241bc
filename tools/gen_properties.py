#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing; the jsonl is what is committed and read)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

MSG="src/common/core/msg/mod.rs"; FMT="src/common/core/msg/format.rs"; IDN="src/common/core/identifiers.rs"
ENC="src/common/core/encode_argument.rs"; DEC="src/common/core/decode_argument.rs"
CON="src/server/connection.rs"; TD="src/server/tokio/dispatch.rs"; TR="src/server/tokio/receiver.rs"; TT="src/server/tokio/transmitter.rs"
HS="src/server/core/handshake.rs"; CM="src/server/core/msg.rs"

p("C01","Formatted messages have the canonical wire form and parse back unchanged",
 "Every message with a valid message type and any sequence of byte-string arguments whose wire form fits in 1024 bytes is formatted to exactly the canonical wire form: `{`, the number of items, `|`, then each item as length, `:`, bytes, `,`, and finally `}`. Parsing that output gives back the same type and the same arguments in the same order and consumes exactly the formatted bytes, whatever bytes follow in the buffer.",
 ["inputs"],"all message types, all argument lists (0..~250 arguments, arbitrary bytes) within the 1024-byte limit, all trailing bytes",
 "Existing tests format three fixed messages and parse eight fixed inputs; no test composes the two, and none has framing characters, NULs or high bytes inside arguments on both sides.",
 [FMT,MSG],[("MessageFormatter::new/add_argument/finalize",FMT),("Message::parse and MessageIterator",MSG)],
 observe=["MessageFormatter output bytes","Message::parse result"])

p("C02","Formatting respects the buffer and the 1024-byte limit exactly",
 "Formatting any message, generic or one of the predefined kinds, into a buffer of any size succeeds exactly when the wire form fits both in the buffer and in 1024 bytes. On success the returned length is the length of the wire form and no byte of the buffer after it has been touched; otherwise the error states exactly how many bytes were missing relative to that limit, and no size combination makes formatting panic.",
 ["inputs"],"all messages x all buffer sizes (0..~5000), including sizes one off the required size and messages over 1024 bytes",
 "The unit test uses one 19-byte message over 38 buffer sizes and one 2016-byte message; the untouched-tail guarantee, split points inside multi-byte arguments, and predefined messages are never exercised.",
 [FMT,"src/msg/mod.rs","src/msg/core.rs","src/msg/posix.rs"],[("MessageFormatter cursor arithmetic, crop_buffer_to_max_msglen",FMT),("EncodeMessage impls","src/msg/*.rs")],
 observe=["Result<usize, BufferTooSmallError> and buffer contents"])

p("C03","The parser decides every byte string exactly as the message grammar does",
 "For every byte string, parsing yields what the message grammar dictates: the message at the front of the input together with its exact byte length, or the verdict that the input ended too early, or an error naming what was expected and the offset at which it was found. It never panics, never accepts a malformed message (wrong punctuation, superfluous leading zeros, oversized numbers, missing or invalid message type) and never rejects a well-formed one, however long.",
 ["inputs"],"all byte strings: valid messages, mutated messages, truncated messages, huge numbers, random bytes",
 "The unit tests check about 25 fixed inputs; the input space is all byte strings, and integer-boundary lengths, nested-looking contents and mutation combinations are not sampled.",
 [MSG],[("Cursor::consume_* and Message::parse",MSG)],
 state=[dict(name="Cursor.offset",meaning="position of the next byte to parse",where=MSG)],
 observe=["Message::parse Ok/Err kind and offset"])

p("C04","Parse verdicts are stable under arrival of more input",
 "If a byte string parses as a message then any bytes appended to it change neither the message nor its reported length, and every strict prefix of the message itself is reported as incomplete. If a byte string is rejected with any error other than incomplete, then every extension of it is rejected with the same kind of error. So a receiver that waits only while the verdict is incomplete never waits for a message that is already broken and never discards one that could still complete.",
 ["inputs"],"all (prefix, extension) pairs over valid, mutated and random byte strings",
 "Tests check nine truncations of one message; the relation between a prefix's verdict and its extensions' verdicts is never tested.",
 [MSG],[("UnexpectedEOF vs other ParseErrorKind decisions",MSG),("ParseError::is_incomplete",MSG)],
 observe=["Message::parse on prefixes and extensions"])

p("C05","Iterating over message arguments is exact at every step",
 "Iterating over the arguments of any parsed message yields exactly the declared arguments, in order and byte for byte, and then nothing forever. At every point of the iteration the number of remaining arguments reported (by the length, by the size hint and by adapters relying on them) equals the number of arguments still to come, and clones taken midway continue independently from the same point.",
 ["inputs","histories"],"all parsed messages x all interleavings of next/clone/len/size_hint/adapters",
 "Tests only drain the iterator once from the start; they never query the remaining length, use adapters, clone midway or poll after exhaustion.",
 [MSG],[("MessageIterator next/len",MSG)],state=[dict(name="remaining_items",meaning="arguments not yet yielded",where=MSG)],
 observe=["Iterator and ExactSizeIterator API of Message::arguments()"])

p("C06","Human-readable rendering of messages is faithful and unambiguous",
 "Rendering any parsed message for humans gives `(type arg arg ...)` with single spaces, where an argument stands bare exactly when it is non-empty and consists only of ASCII letters, digits, `.`, `_` and `-`, and is otherwise enclosed in double quotes with quotes, backslashes and every non-printable or non-ASCII byte escaped. The message type and every argument's exact bytes can be recovered from the rendering, so two different messages never render alike and no client-supplied byte reaches a log unescaped.",
 ["inputs"],"all parsed messages with arbitrary argument bytes",
 "Two fixed messages are rendered by tests; every other byte value and every quoting boundary (empty argument, lone quote, backslash, control bytes) is untested.",
 [MSG],[("Display for Message, char_needs_escaping",MSG)],observe=["format!(\"{}\", message)"])

p("C07","Argument values survive encoding and decoding",
 "Every boolean, integer of any width and sign, string, byte string, filesystem path, identifier-like value, and optional value encodes into exactly the announced number of bytes: `t`/`f`, minimal decimal with an optional minus sign, the verbatim bytes, or the empty string for an absent value. Decoding that encoding as the same type gives back the same value (for an optional value that is present, provided its encoding is not empty).",
 ["inputs"],"all values of all argument types: full integer ranges with boundary bias, arbitrary (non-)UTF-8 strings and paths, all identifier types, options",
 "Tests use about 4-8 constants per integer width and three strings; paths, options, identifier types and mid-range values (digit-count boundaries) are untested.",
 [ENC,DEC,IDN],[("EncodeArgument impls",ENC),("DecodeArgument impls",DEC),("EncodedArgument impls of identifier types",IDN)],
 observe=["get_size/encode/encode_to_vector/decode_argument"])

p("C08","Argument decoding accepts canonical encodings only",
 "Decoding an arbitrary byte string as a boolean, integer, string or identifier-like value succeeds exactly when the byte string is the canonical encoding of a value of that type, i.e. when encoding the decoded value reproduces the input. Everything else is rejected without panicking: leading zeros, an explicit plus sign, negative zero, whitespace, out-of-range numbers, invalid UTF-8, alternative spellings of booleans, the empty string.",
 ["inputs"],"all byte strings x all argument types, biased to near-misses of canonical encodings and to range limits of every width",
 "Tests reject six fixed strings for integers and five for booleans; sign handling and range limits per width are never tested.",
 [DEC,IDN],[("DecodeArgument impls",DEC),("parse() of identifier types",IDN)],observe=["decode_argument results"])

p("C09","Each class of identifier accepts exactly its grammar",
 "Client IDs are exactly the non-empty strings of ASCII letters and digits; identifiers exactly the strings of ASCII letters, `_` and `-` not starting with `-`; module identifiers an identifier followed by a major version from 1 to 65535 without leading zeros; module versions a module identifier, a dot and a minor version from 0 to 65535 in minimal decimal; scoped identifiers a module identifier, a dot and an identifier; message types are `want`, `have`, `nope` or a scoped identifier. Every accepted value prints and encodes as the string it was parsed from, reports its parts (name, versions, module, member) as written, and comparison of values agrees with equality of those strings.",
 ["inputs"],"all strings (ASCII and Unicode), biased to near-misses of the grammars and to version limits",
 "Tests classify about 60 fixed strings; no version limits (65535/65536), no Unicode digits or letters, no accessor checks beyond doc examples.",
 [IDN],[("parse_ident_or_module_ident, is_ident_leader, is_ident_char, is_client_id_char, *::parse",IDN)],observe=["parse(), Display, accessors, PartialEq"])

p("C10","Predefined messages survive format, parse and decode",
 "Every predefined message (want, have with or without version, nope, client-make, client-new, client-end, client-hello, parent-hello, server-hello, stdin-hello, stdout-hello) with any field values that fit in a message is formatted as the message type and argument list of its definition. Parsing and decoding the result gives back a message of the same kind with every field unchanged and in its own place, absent optional fields included.",
 ["inputs"],"all message kinds x all field values (ids, secrets, screen ids, paths incl. non-UTF-8, optional fields)",
 "No test touches the predefined message types at all.",
 ["src/msg/mod.rs","src/msg/core.rs","src/msg/posix.rs"],[("EncodeMessage/DecodeMessage impls","src/msg/*.rs")],observe=["encode(), Message::parse, decode_message()"])

p("C11","Messages decode only as the kind they are",
 "A parsed message decodes as a given predefined kind exactly when its message type is that kind's type and it carries exactly that kind's number of arguments, each valid for its field; every other message is declined without panicking. In particular no message decodes as two different kinds, and no argument is dropped, added or reinterpreted.",
 ["inputs"],"all parsed messages x all predefined kinds: right and wrong types, argument counts off by one or more, arguments invalid for one field",
 "No test touches the predefined message types; wrong-arity and wrong-type inputs are an open set.",
 ["src/msg/mod.rs","src/msg/core.rs","src/msg/posix.rs",MSG],[("decode_message impls","src/msg/*.rs"),("MessageIterator::exactly1/2/4",MSG)],observe=["decode_message() results"])

p("C12","Derived client IDs are valid, distinct and nested like the lifetimes they name",
 "For every base client ID and every choice of own, process-local, job or child index (the whole 32-bit range), the derived client ID is a valid client ID that starts with the base, and announces its exact encoded size. Different choices give different client IDs, and one derived ID is a prefix of another exactly when it names the enclosing lifetime: own encloses everything, and a job encloses exactly its own children.",
 ["inputs"],"all base IDs x all pairs of suffixes over the full u32 index range (very long encodings are exercised by size and by sampling)",
 "The unit test lists 41 pairs with indexes up to 122; pairwise prefix-freeness over the index range and the top of the range are untested.",
 ["src/client/core/client_id.rs"],[("ClientIDSuffix get_size/encode, get_size_for_number, encode_number","src/client/core/client_id.rs")],observe=["RelativeClientID encode/get_size, base(), suffix()"])

p("C13","Client selectors and identities report exactly what was put in",
 "A strictly-below selector contains a client ID exactly when the selector's ID is a proper prefix of it; an at-or-below selector contains exactly those and the selector's ID itself. A client or screen identity reports exactly the client ID, the three screen IDs (or their absence) and the screen ID it was built with, in whatever order the screen IDs were added.",
 ["inputs"],"all pairs of client IDs (biased to prefixes and near-prefixes), all builder call orders and screen IDs",
 "One doc test constructs an identity without checking it; selectors are untested.",
 ["src/server/auth.rs"],[("ClientSelector::contains, ClientIdentity::with_*","src/server/auth.rs")],observe=["contains(), client_id(), std*_screen_id(), screen_id()"])

p("C14","Generated secrets are unpredictable, distinct and transportable",
 "Every generated client or screen secret differs from every other one ever generated, including the two secrets of the same screen, and carries at least 192 bits that all vary between secrets. A secret consists only of characters of the URL-safe base64 alphabet, so that it travels unchanged through a hello message and is reported identically on every query and by every clone.",
 ["inputs","histories"],"all sequences of credential generation",
 "No test looks at credentials; distinctness is a property of histories of generation.",
 ["src/server/auth.rs"],[("generate_secret, ClientCredentials, ScreenCredentials","src/server/auth.rs")],observe=["secret(), stdin_secret(), stdout_secret()"])

p("C15","Client environment discovery depends only on the bytes offered on descriptor 60",
 "When file descriptor 60 delivers any byte stream, discovery and parsing succeed exactly when the stream's first 1024 bytes start with a complete, valid parent-hello message, and then report that message's socket path byte for byte; the outcome is the same however the stream is cut into reads. Otherwise parsing reports a corrupt message, a well-formed but unsuitable message, or, if there is no descriptor 60 or it does not support being read from (EBADF, EINVAL), the absence of a VT6 terminal; the descriptor is closed afterwards in every case and parsing can be repeated with the same result.",
 ["inputs","fault_sequences"],"all byte streams on descriptor 60 x all segmentations into reads x descriptor absent or not readable",
 "No test covers the client environment.",
 ["src/client/env.rs","src/msg/posix.rs"],[("Environment::discover/parse","src/client/env.rs")],
 state=[dict(name="buf/filled",meaning="bytes received so far",where="src/client/env.rs")],observe=["Environment::discover/parse results, state of descriptor 60"])

p("C16","A new connection can do nothing but complete one authorised handshake",
 "Until a hello message with a secret that the application authorises for that kind of socket has been received, a connection produces no output, reaches no message handling and changes no application state; a successful hello puts it into exactly the corresponding mode (message, stdin or stdout) for exactly the authorised client or screen. Any other complete input (other messages, malformed input, unauthorised, mistyped or already-used secrets) tears the connection down without a reply, and a successful client hello is answered by exactly one server-hello describing the authorised client.",
 ["inputs","histories"],"all first inputs (in all segmentations) and all histories of issued, used and invalid secrets across connections",
 "No test exercises the server; gating quantifies over all histories of inputs.",
 [HS,CON,"src/server/reject.rs"],[("HandshakeHandler::handle",HS),("Connection::handle_incoming(_msgio) error branch for Handshake",CON)],
 state=[dict(name="ConnectionState",meaning="mode of the connection",where=CON)],observe=["bytes sent, connection state, application callbacks"])

p("C17","Every message on a message socket gets exactly its prescribed reply, in order",
 "On a connection in message mode each complete message is answered in order of arrival: `want` with `have` carrying the supported minor version or, if unsupported, the bare module; a recognised but semantically invalid message with `nope` naming its type; a message of unknown type with `have` describing support for its module; and an unknown unscoped message with `nope`. Messages that succeed without a defined reply and messages handled by the application's own handlers get no additional reply, handlers further down the chain see exactly the messages not handled before, no reply is ever sent on a connection that has left message mode, and a reply that cannot fit in the 1024-byte limit closes that connection instead.",
 ["inputs","histories"],"all sequences of messages on message sockets: valid, invalid, unknown, eternal, custom, in any order and mix",
 "No test exercises the server.",
 [CON,CM,"src/server/reject.rs",TD],[("Connection::handle_incoming_msgio",CON),("core::MessageHandler::handle/get_supported_module_version",CM),("tokio Dispatch::enqueue_message",TD)],
 observe=["bytes sent to the client"])

p("C18","Malformed input on a message socket costs only itself",
 "When a connection in message mode receives bytes that do not parse, exactly the bytes from there up to the next `{` (or to the end of what has arrived) are discarded and the application is told exactly those bytes; nothing is replied, the connection stays open and every later well-formed message starting at such a `{` is handled normally. Bytes that could still become a complete message are never discarded, and no byte is both discarded and handled.",
 ["inputs","histories"],"all byte streams mixing well-formed messages, malformed messages and garbage",
 "No test exercises the server's error recovery.",
 [CON],[("handle_incoming_msgio: bytes_to_discard, IncomingBytesDiscarded",CON)],observe=["discard notifications, replies, connection state"])

p("C19","A byte stream has the same effect however it is split into reads",
 "However a client's byte stream is cut into pieces by the transport, the server sends the same replies in the same order, calls the application with the same data in the same order, discards the same bytes overall and ends in the same connection state; only when the connection is torn down is what is reported as discarded at that moment limited to what had arrived until then. A message is acted on as soon as its last byte has arrived, without waiting for further input.",
 ["inputs","schedules"],"all byte streams x all segmentations (single bytes up to one block), in every connection mode and across mode changes inside one segment",
 "No test feeds the server at all, let alone one stream in several segmentations.",
 [CON,TR],[("Connection::handle_incoming loop",CON),("spawn_receiver, ReceiveBuffer for BytesMut",TR)],
 state=[dict(name="receive buffer",meaning="bytes received but not yet processed",where=TR)],observe=["replies, application callbacks, final state"])

p("C20","Clients can create and end only lifetimes strictly below their own",
 "A client-make request succeeds exactly when the requested ID lies strictly below the requesting client's ID and neither it nor any ID below it is registered; it then registers exactly one client with exactly the requested ID and screens and replies with its secret. A client-end request succeeds exactly when the named ID lies strictly below the requester's; it then unregisters every client at or below that ID, so that unredeemed secrets become invalid and the IDs can be reused, and closes every message connection of those clients and no other connection; refused requests of either sort are answered with `nope` and change nothing.",
 ["inputs","histories"],"all histories of make, end, hello and disconnect over a tree of clients with several connections",
 "No test exercises the server; the property quantifies over histories of several clients.",
 [CM,"src/server/auth.rs","src/server/application.rs"],[("core::MessageHandler: core1.client-make, core1.client-end",CM),("ClientSelector::contains","src/server/auth.rs")],
 observe=["replies, set of registered clients, state of all connections"])

p("C21","Byte-stream sockets are never interpreted as messages and leak nothing",
 "On a connection in stdout mode the concatenation of data handed to the application equals the bytes the client sent after its hello, for exactly the authorised screen, and nothing is ever sent back or parsed. On a connection in stdin mode any inbound byte tears the connection down, is reported as discarded and has no other effect. After teardown no further input has any effect in any mode.",
 ["inputs","histories"],"all byte streams (including message-like ones) in all segmentations after stdin/stdout hellos, including in the same segment as the hello",
 "No test exercises the server.",
 [CON,HS],[("Connection::handle_incoming match on state",CON)],observe=["StdoutConnector::receive calls, notifications, connection state"])

p("C22","Everything queued for a client is delivered once, in order and unmodified",
 "On the Tokio server, the bytes a client reads are exactly the concatenation of everything queued for that connection, messages and standard input alike, in queueing order: nothing is lost, duplicated, reordered, split by foreign data or delivered to another connection. This holds from the moment a connection can be seen by anybody, for any sizes and amounts, however slowly the client reads and however queueing interleaves with transmission, and delivery completes without needing further activity.",
 ["inputs","histories","schedules"],"all sequences of queueing operations (1 byte to several tens of MiB) on several connections interleaved with partial reads by the clients, on single- and multi-threaded runtimes",
 "No test exercises the Tokio transport; buffer boundaries (4072 bytes, recycled buffers) and interleavings are never reached.",
 [TD,TT],[("enqueue_message/enqueue_stdin/swap_send_buffer",TD),("SendBuffer, spawn_transmitter",TT)],
 state=[dict(name="TxConnector.bufs",meaning="queue of send buffers",where=TD)],observe=["bytes read from the client's socket"])

p("C23","Every broadcast runs exactly once on every open connection, in order, and soon",
 "On the Tokio server, each broadcast action runs exactly once on each connection that is open when it runs, and broadcasts run in the order they were queued. This holds whether it was queued from outside, from a message handler, from within another broadcast, from an application notification, or from several threads at once; it runs as soon as the server is not otherwise holding a connection, without waiting for further network activity or further broadcasts.",
 ["histories","schedules"],"all histories of broadcasts from all contexts, nested to any depth, combined with connects, teardowns and traffic; concurrent queueing from several threads",
 "No test exercises the Tokio dispatch; the property is about interleavings of queueing and lock release.",
 [TD],[("enqueue_broadcast, do_maintenance, ConnectionRefMut::drop",TD)],
 state=[dict(name="bc_queue",meaning="broadcasts not yet executed",where=TD)],observe=["execution log of broadcast actions"])

p("C24","Connections have independent, complete lifecycles",
 "On the Tokio server every accepted connection is announced as opened exactly once and, after the client disconnects, fails or is torn down by the server, is announced as closed exactly once (never before it is announced as opened), is no longer visited by broadcasts, and its client sees the end of the stream. No two connections ever share an ID, and whatever happens to one connection leaves the others and the listener fully functional.",
 ["histories","fault_sequences"],"all histories of connects, disconnects (clean, abrupt, mid-message, while output is pending), teardowns and traffic on several connections",
 "No test opens a connection.",
 [TD,TR,TT],[("create_connection_object, do_maintenance_on_conn, run_listener",TD),("spawn_receiver EOF/error path",TR),("spawn_transmitter error path",TT)],
 observe=["notifications, broadcast visits, client-side EOF"])

p("C25","Shutdown dismantles the server from any state",
 "Whenever shutdown is requested while the Tokio server's event loop is running, from whatever state its connections are in, the event loop finishes successfully, the server socket file is gone, no further client can connect, every client connection sees the end of its stream, is announced as closed and is not visited by broadcasts any more. Starting a server on a path that is already in use fails with an error and leaves that path untouched, and after a shutdown a new server can be started on the same path, or the same dispatch can be run again.",
 ["histories","fault_sequences"],"all histories of connections and traffic up to shutdown, shutdown from any task",
 "No test runs the event loop.",
 [TD],[("run_listener, shutdown",TD)],observe=["run_listener result, filesystem, client-side EOF"])

p("C26","No client input can crash or wedge the server",
 "Whatever bytes a client sends, authorised or not, in any amount and any segmentation, the server neither panics, nor overflows its stack, nor deadlocks, nor spins without consuming input, and other connections and new connections keep being served correctly. In particular this holds for large inputs made of very many small messages or message openers, for messages longer than 1024 bytes, and for messages whose reply could not be represented within 1024 bytes.",
 ["inputs","histories"],"all byte streams up to megabytes on all connection modes, with bystander connections checked throughout",
 "No test sends hostile input to the server.",
 [CON,TD,TR,CM,HS],[("Connection::handle_incoming",CON),("enqueue_message",TD),("spawn_receiver",TR)],observe=["process and task panics, bystander replies"])

p("C27","The default socket path lies in the runtime directory and names the process",
 "If XDG_RUNTIME_DIR names an existing directory, the default socket path is `vt6/<process id>` inside it and the `vt6` directory exists afterwards, whatever bytes the directory's name contains and whether or not it existed before, and whatever else exists there (even at the path itself) is left alone. If the variable is unset, or names something that is not a directory, an error is returned and nothing is created, whatever other variables are set.",
 ["configurations","inputs"],"all values of XDG_RUNTIME_DIR and all prior states of the directory it names",
 "No test covers it.",
 ["src/server/util.rs"],[("default_socket_path","src/server/util.rs")],observe=["returned path or error, filesystem"])

p("C28","The example server redeems each secret once and serves its screen end to end",
 "Run as a program, the example server accepts each secret it issues (printed at start or returned by client-make) for exactly one connection of the matching kind and refuses it ever after, refuses every other text however similar, feeds its standard-input text to the connected stdin client only, shows in its log everything that the stdout client writes and every message that a client sends, and follows the same make, end and reply rules as the library over real sockets. It stops cleanly on interrupt, removing its socket.",
 ["histories"],"all histories of hellos with fresh, used, foreign and bogus secrets and of client-make/client-end requests against the running program",
 "The example server has no tests.",
 ["example-server/src/main.rs"],[("MyApplication authorize_*/register_client/unregister_clients","example-server/src/main.rs")],observe=["replies and EOFs seen by clients, process exit status, socket file"])

p("C29","Builds without the standard library encode and parse identically",
 "Built without its standard-library feature, the crate formats, parses, decodes and renders exactly the same messages, identifiers, argument values and client IDs, with exactly the same errors, as with it. The only difference is that the socket path in a parent-hello is a byte string instead of a path.",
 ["configurations","inputs"],"the std and no_std feature configurations x all inputs to the codecs",
 "The test suite is only ever built with std.",
 ["src/lib.rs",MSG,FMT,ENC,DEC,IDN,"src/msg/posix.rs"],[("cfg(feature = use_std) gates","src/")],observe=["outputs of the two builds on the same inputs"])

p("C30","The codecs stay inside the buffers they are given",
 "Parsing, iterating, decoding and formatting never hand out a byte range outside the caller's input: every argument, identifier and error returned refers to bytes inside the buffer it was parsed from, at the place where they stand, and input buffers are never modified. Encoding a value into a buffer of exactly its announced size fills every byte of it.",
 ["inputs"],"all inputs to the codecs, with guard bytes around every buffer",
 "Tests compare values only; aliasing and guard bytes are not observed, and the parser uses unchecked UTF-8 conversion.",
 [MSG,FMT,ENC,"src/client/core/client_id.rs"],[("consume_string_contents, consume_decimal (unsafe from_utf8_unchecked)",MSG),("EncodeArgument::encode impls",ENC)],observe=["pointer ranges of returned slices, guard bytes"])

p("C31","Connections say what they are, and text for one screen reaches only that screen",
 "In every state of a connection, all queries about it agree with the mode it is in: its state name, whether it can receive messages, whether it can receive standard input, whether it can receive standard input for a given screen (exactly when it is in stdin mode for the screen of exactly that name), and its message or stdout connector. So an application that selects receivers with these queries reaches, at every point of every history, all clients of the screen or kind meant and no others.",
 ["inputs","histories"],"all connection states x all screen names (including prefixes, case variants and look-alikes of one another), and all histories of connects, teardowns and selections",
 "No test exercises the server.",
 [CON,"src/server/auth.rs"],[("ConnectionState::can_receive_*, type_name, message_connector, stdout_connector",CON),("ScreenIdentity equality","src/server/auth.rs")],observe=["return values of the queries, bytes received by each client"])

p("C32","Log texts name the event and escape whatever clients sent",
 "The texts that an application logs - of notifications, parse errors, messages and environment errors - tell the kinds of events apart, mention what they are about (kind and offset of a parse error, the error behind a failed connection, the message that was refused, the discarded input recoverably as far as it is UTF-8), and never contain a control character or line break that came from a client. Exactly the notification of a failed connection counts as an error.",
 ["inputs"],"all inputs that are discarded, refused or parsed",
 "Two renderings of messages are tested; nothing else is.",
 ["src/server/notification.rs",MSG,"src/client/env.rs"],[("Display for Notification","src/server/notification.rs"),("Display for ParseError, Message",MSG),("Display for EnvironmentError","src/client/env.rs")],observe=["formatted texts"])

p("C33","The formatter renders exactly as many arguments as were announced",
 "A message formatter accepts exactly the announced number of arguments: adding one more panics at that argument and finishing with fewer panics, whatever the buffer's size, so that no message whose item count disagrees with its contents can leave the process. With exactly that number it never panics.",
 ["inputs","histories"],"all announced counts x sequences of arguments of all types x buffer sizes",
 "No test adds a wrong number of arguments.",
 [FMT],[("MessageFormatter::add_argument, finalize",FMT)],state=[dict(name="MessageFormatter.remaining_arguments",meaning="arguments announced but not added yet",where=FMT)],observe=["panics, result of finalize, buffer"])

p("C34","What a closed connection occupied is released",
 "A server that has lived through any history of connections, however they ended (client hung up, garbage, server-side teardown, redeemed or unredeemed authorizations, blocked on a client that does not read, in every mode), occupies afterwards only what its open connections need: the same number of sockets and tasks as a fresh server with the same open connections, its connection objects and connectors dropped, and an amount of memory that does not grow with the number of connections that came and went.",
 ["histories","schedules"],"all histories of connects, messages, teardowns and hang-ups, repeated arbitrarily often",
 "No test exercises the server, and a leak per connection only shows over many connections.",
 [TD,TR,TT],[("teardown of jobs, transmitter map, buffer reuse",TD),("ReceiverJob: end of a connection",TR),("TransmitterJob and its buffers",TT)],
 state=[dict(name="Inner.tx / buffers",meaning="per-connection transmitters and the pool of unused buffers",where=TD)],observe=["open sockets of the process, drops of connectors and handlers, allocated bytes over repeated histories"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import subprocess
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sch)
    print("ok",len(P))
except ImportError: print("no jsonschema",len(P))
