import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","TL values are encoded exactly as the schema prescribes and decode back equal",
"Serialising any well-typed value of any constructor or function of the three bundled TL schemas (Telegram API, MTProto, secret chats) yields exactly the bytes the TL rules prescribe for that schema entry: constructor number, flag words derived from which optional fields are present, little-endian integers, length-prefixed padded strings and bytes, and vectors. Deserialising those bytes yields a value equal to the original, consumes exactly those bytes, and the primitive reader and writer agree for every in-range number and every byte length. A value that lacks a required field, or has a wrong constructor, a wrong kind of value in a non-text field or an out-of-range integer, is refused with an error and never silently encoded.",
["inputs"],"every schema constructor, every combination of optional fields, every nesting and every string/bytes length class",
"the TL tests check a handful of primitives and two or three constructors; the schema has over two thousand entries and the interaction of flags, optionals, vectors and padding is never enumerated",
["tl/1_tl_reader.ts","tl/1_tl_writer.ts","tl/2_telegram.ts","tl/2_mtproto.ts","tl/1_telegram_api.ts","tl/1_mtproto_api.ts"],
[("generic schema-driven writer","tl/1_tl_writer.ts"),("generic schema-driven reader","tl/1_tl_reader.ts")],["return value of serializeObject / deserializeType","reader position after decoding"])

p("C02","Truncated or hostile TL bytes are rejected and never misread",
"Decoding a strict prefix of a valid encoding, or an encoding with an unknown constructor number or a wrong-type constructor, always ends in an error. Decoding arbitrary bytes ends, in time bounded by the input size, either in an error or in exactly the value that the TL rules assign to those bytes, which can be encoded again and decodes to itself. The reader never reads beyond the end of its buffer, never modifies its input, and uses memory in proportion to it whatever counts and lengths the data claims.",
["inputs"],"every truncation point and every single-byte corruption of encodings of every constructor, and arbitrary byte strings",
"existing tests decode only valid bytes",
["tl/1_tl_reader.ts","tl/2_message.ts"],[("bounds checks in the reader","tl/1_tl_reader.ts"),("type checks while decoding","tl/1_tl_reader.ts")],["exceptions and return values of deserializeType","input buffer before and after"])

p("C03","Compact codecs are lossless: integers, run-length coding, URL-safe base64",
"Converting an integer to bytes with any byte order, signedness and sufficient width and back yields the same integer with the conventional two's-complement or unsigned representation, and values that do not fit are not silently stored as a different value that reads back as the original type. Run-length coding and URL-safe base64 coding are exact inverses for every byte string, produce only their documented alphabets, and gzip followed by gunzip restores every byte string. Random identifiers and random integers requested with a width and signedness always lie in the range that width allows.",
["inputs"],"every byte string and every integer/width/signedness/byte-order combination",
"tests sample a few fixed vectors",
["utilities/0_int.ts","utilities/1_base64.ts","utilities/0_rle.ts","utilities/0_gzip.ts","utilities/1_crypto.ts"],[("integer codec","utilities/0_int.ts"),("rle codec","utilities/0_rle.ts")],["return values of the codec functions"])

p("C04","Modular arithmetic and factorisation are exact",
"Modular exponentiation agrees with the mathematical definition for every non-negative base and exponent and every modulus above one; the non-negative remainder always lies in the range from zero to the modulus. Factorising a product of two distinct primes of the size the server sends returns exactly those two primes, smaller first, in bounded time. The RSA padding used in the handshake yields a 256-byte block whose decryption with the private key recovers the original data and whose embedded hash verifies.",
["inputs"],"every base/exponent/modulus, every pair of primes up to 32 bits, every key and payload up to 144 bytes",
"tests use a few fixed vectors",
["utilities/1_math.ts","utilities/0_int.ts","utilities/1_math.ts","utilities/1_crypto.ts"],[("modExp / factorize / rsaPad","utilities")],["return values"])

p("C05","Auth-key creation always agrees with the server on key and salt",
"Against every conforming server (any prime product, nonces, server key, generator, DH secrets including those producing results with leading zero bytes, and any transport message splitting), creating an authorization key succeeds and leaves both sides with the same 256-byte key and the same initial salt. The requests follow the MTProto exchange exactly: nonces are fresh and echoed, the factors multiply to the given number, the encrypted inner data has the right constructor, data centre and expiry for permanent and temporary keys, and its hash verifies. A server that answers that the exchange must be retried gets a fresh exchange, a bounded number of times, after which the error is reported to the caller.",
["inputs","histories","fault_sequences"],"every server nonce/prime/key/DH value, both key kinds, every data centre, retry and failure sequences of length up to the retry bound",
"no test exercises the handshake at all",
["client/1_client_plain.ts","client/2_client_encrypted.ts","session/2_session_plain.ts"],[("exchange","client/1_client_plain.ts"),("retry loop","client/2_client_encrypted.ts")],["packets seen by a mock server","key and salt reported by the client"])

p("C06","Auth-key creation rejects forged or inconsistent server answers",
"If any answer of the exchange does not carry the nonces of this exchange, is encrypted data whose hash does not match, uses a prime that is not a 2048-bit safe prime with a fitting generator, a public value outside the safe range, an unknown server key, or a final confirmation hash that does not correspond to the computed key, the exchange fails with an error. No key derived from such an exchange is ever returned or used.",
["inputs","fault_sequences"],"every single-field corruption of every server answer in the exchange",
"no test exercises the handshake at all",
["client/1_client_plain.ts"],[("validation of server answers","client/1_client_plain.ts")],["outcome of key creation against a mock server that corrupts one answer"])

p("C07","Encrypted packets round-trip, and altered or foreign ones are never delivered",
"Every packet sent on an encrypted connection decrypts, under the agreed key with the MTProto 2.0 derivation, to the current salt, the current session, exactly the caller's payload (compressed only when smaller) and 12 to 1024 bytes of padding to a multiple of 16. A received packet whose message key, ciphertext, direction or session differs from what the server produced (other than an exact replay) never has any effect on pending requests, updates, acknowledgements or the connection, and does not stop later genuine packets from being delivered; one with a foreign key id, or too short to hold a message, at most makes the client start a new session in which unanswered requests are sent again. Transport-level error codes are reported once to the error handler rather than treated as data.",
["inputs","fault_sequences"],"every payload size around the padding and compression thresholds, every bit flip or truncation position of a server packet, packets for other sessions",
"no test covers the encrypted session",
["session/2_session_encrypted.ts"],[("encrypt/decrypt","session/2_session_encrypted.ts")],["packets decrypted by a mock server","callbacks of the session"])

p("C08","Outgoing message identifiers and sequence numbers always satisfy MTProto",
"Within a session every message and container leaving the client has an identifier that is a multiple of four, strictly greater than all identifiers generated before it in that session and, once the clocks were compared, encodes the server's time within tolerance; a container's identifier exceeds those of its contents. Sequence numbers are odd for content-related messages and even otherwise, and equal twice the number of content-related messages generated earlier in the session plus that parity. This holds under concurrent senders, clock steps, reconnections, resends and session changes, and a new session starts its sequence at zero.",
["schedules","histories","fault_sequences"],"every interleaving of senders, wall-clock steps backwards and forwards, and recovery events",
"no test covers message-id or sequence generation",
["session/0_session_state.ts","session/2_session_encrypted.ts"],[("message id generator","session/0_session_state.ts")],["messages decrypted at a mock server"])

p("C09","Every request settles exactly once, with its own outcome",
"Each invocation settles exactly once: with the result the server produced for that very request, with the error the server returned for it, or with a connection error after a disconnection. It never settles with another request's result, under any order, duplication, compression, batching or delay of server answers and any number of concurrent invocations, and an answer to an unknown request changes nothing. No failure escapes as an unhandled rejection, and the request the server receives equals the one the caller passed.",
["schedules","histories","fault_sequences"],"every interleaving of concurrent requests with answers that are reordered, duplicated, batched in containers, gzip-compressed, malformed or preceded by notifications, and with disconnections at any point",
"no test drives the request/response machinery",
["client/2_client_encrypted.ts","session/2_session_encrypted.ts"],[("table of sent requests","client/2_client_encrypted.ts")],["settlement of each invoke promise","unhandledrejection events","requests at a mock server"])

p("C10","Requests survive salt, id and session rejections by the server",
"While the connection stays up, a request the server rejected because of a wrong salt, a too low or too high message id, an invalid sequence number, an invalidated container or a missing connection initialisation is sent again, with the correction applied, and settles with its own result within a bounded number of server round trips. Every new salt announced by the server is used for all later messages and reported to the owner so that it can be stored. A rejected acknowledgement or ping is likewise repeated and never lost.",
["histories","fault_sequences"],"every sequence of rejections (single messages, containers, pings, acknowledgements) interleaved with normal answers",
"no test drives rejection handling",
["session/2_session_encrypted.ts","client/2_client_encrypted.ts"],[("bad_server_salt / bad_msg_notification handling","session/2_session_encrypted.ts"),("resend","client/2_client_encrypted.ts")],["settlement of requests","packets at a mock server","salt callback"])

p("C11","Received content is acknowledged, and only what was received",
"Every content-related message delivered to the client on a live session (results, errors, updates, session notices, and answers the server says it holds) is acknowledged to the server, at the latest together with the next message the client sends; a rejected acknowledgement is repeated. The client never acknowledges an identifier it did not receive or that was not announced to it, never acknowledges service messages that need none (pongs excepted), and puts at most 8192 identifiers in one acknowledgement.",
["histories","fault_sequences"],"every mix and volume of incoming messages, containers and rejected acknowledgements",
"no test covers acknowledgements",
["session/2_session_encrypted.ts"],[("acknowledgement queue","session/2_session_encrypted.ts")],["msgs_ack messages decrypted at a mock server"])

p("C12","Connections recover from drops and stay closed after disconnect",
"After an unexpected loss of the connection the client keeps trying to reconnect until it succeeds or is explicitly disconnected; once reconnected, new requests work and pings keep being sent at the agreed interval. After an explicit disconnect no new connection is opened, pending and waiting calls end with an error, and a later connect works again; concurrent connects open a single connection. Connection state notifications alternate between connected and disconnected and the last one agrees with the actual state.",
["schedules","histories","fault_sequences"],"every sequence of drops, failed opens, explicit connects and disconnects and their timing relative to sends",
"no test covers reconnection",
["session/1_session.ts","session/2_session_encrypted.ts","client/0_abortable_loop.ts"],[("reconnection loop","session/1_session.ts"),("connect mutex","session/1_session.ts")],["open/close calls of an instrumented connection","state notifications","settlement of calls"])

p("C13","The first request of a connection announces layer and client info, once",
"On a fresh connection key every application request is wrapped so that it announces the application id, device parameters and schema layer, until the server has answered a request successfully; later requests are not wrapped again, and after the server reports an uninitialised connection the wrapping is repeated and the rejected request re-sent. Connections that must not receive updates mark every non-file request accordingly, file transfer requests and service pings are not marked, and the wrapped inner request always equals what the caller asked for. A request without an application id fails locally with an input error.",
["histories","configurations","inputs"],"every configuration of client parameters, request kind and order of first answers",
"no test covers connection initialisation",
["client/2_client_encrypted.ts"],[("initConnection wrapping","client/2_client_encrypted.ts")],["requests decoded at a mock server"])

p("C14","Temporary keys are correctly bound to the permanent key and renewed",
"With forward secrecy enabled, all traffic of a connection uses a temporary key, and before any application request is executed the client proves possession of the permanent key with a binding message that a conforming server accepts (matching nonce, key ids, session, message id and expiry). The permanent key is kept across reconnections while the temporary key is renewed before it expires or when the server reports it missing. The stored key is always the permanent one.",
["histories","fault_sequences"],"every expiry time, reconnection and missing-key report",
"no test covers forward secrecy",
["client/2_client_encrypted.ts"],[("binding and refresh loop","client/2_client_encrypted.ts")],["binding requests verified by a mock server","keys in use per packet"])

p("C15","Transport framing carries every packet intact under any stream chunking",
"For each framing (abridged, intermediate, padded intermediate, with and without obfuscation or a proxy secret) the sequence of packets written is recovered exactly and in order by a reference implementation of that framing, whatever the packet sizes, and begins with the right preamble. Conversely any sequence of packets framed by the peer and delivered in arbitrary chunks, including one byte at a time or many packets per chunk, is returned packet by packet, exact and in order. A packet cut off by the end of the stream is an error and never a shorter packet.",
["inputs","schedules"],"every packet size class (multiples of four from 4 bytes to over 508 and up to megabytes) and every split of the byte stream",
"no test drives the framings",
["transport/1_transport_abridged.ts","transport/1_transport_intermediate.ts","transport/0_obfuscation.ts"],[("framings","transport")],["bytes on an instrumented connection","packets returned"])

p("C16","Obfuscated streams decrypt with the key material in their preamble",
"The 64-byte preamble of an obfuscated connection never collides with a reserved prefix, names the framing and the signed data-centre number, and carries key material from which (combined with the proxy secret when there is one) the peer derives the two stream ciphers. Every later byte in either direction is enciphered with a continuous cipher stream regardless of how writes and reads are split. Cipher streaming itself is invariant under chunking and equals a reference counter-mode cipher.",
["inputs","schedules"],"every secret kind, data centre, packet sequence and chunking",
"only the non-streaming primitives are tested",
["transport/0_obfuscation.ts","transport/0_transport.ts","utilities/1_crypto.ts","transport/1_transport_intermediate.ts"],[("obfuscation handshake","transport/0_obfuscation.ts"),("CTR","utilities/1_crypto.ts")],["bytes on an instrumented connection"])

p("C17","Proxied connections speak SOCKS5 and fake TLS correctly under any chunking",
"A SOCKS5 connection performs exactly the negotiation of RFC 1928/1929 for the given proxy, credentials and destination (IPv4, IPv6 or domain name), whatever way the proxy's answers are split or coalesced with the first payload bytes, and afterwards relays bytes unchanged. A fake-TLS connection sends a greeting whose embedded digest the proxy can verify with the secret and timestamp, checks the answer's digest, and then carries data in records of valid size whose payload concatenates to exactly the bytes written and read. Refusals, wrong versions, failed authentication or a forged answer make opening fail and leave the connection closed.",
["inputs","schedules","fault_sequences"],"every address kind, credential, reply code, secret and chunking of the peer's bytes",
"no test covers the proxies",
["connection/1_connection_socks5.ts","connection/1_connection_tls.ts"],[("negotiation","connection")],["bytes exchanged with a scripted peer"])

p("C18","Byte-stream connections deliver bytes in order, once, and fail cleanly",
"For each connection kind, bytes written are transmitted in call order without interleaving partial writes, and reads return exactly the requested number of bytes in stream order for any chunking, any number of queued readers and any read sizes. When the connection is closed by either side all waiting reads and writes fail instead of hanging, use of a closed connection is refused, the underlying connection is released, and opening again starts from a clean buffer; the last state notification agrees with the actual state. For socket connections the read and write counters reported for statistics equal the bytes actually transferred.",
["inputs","schedules","fault_sequences"],"every chunking, every interleaving of readers/writers and every close point",
"only the byte queue's basic operations are tested",
["connection/0_byte_queue.ts","connection/1_connection_tcp.ts","connection/1_connection_web_socket.ts"],[("byte queue","connection/0_byte_queue.ts")],["bytes at a real or scripted peer","settlement of reads and writes","callbacks"])

p("C19","Data-centre names, numbers and endpoints map consistently",
"Every data-centre name maps to a distinct number and back, test and media variants are encoded as the protocol demands (offset by ten thousand, negated for media), and an unknown name has no address. For each data centre the connection opened is to the endpoint belonging to that centre, with the scheme and path that fit the transport, and proxied transports announce the same number to the proxy. A connection for one data centre never reaches another's address.",
["inputs","configurations"],"every data centre, test/production, media flag, and transport kind",
"one unit test covers number conversion for some names",
["transport/1_transport_provider.ts","transport/2_transport_provider_tcp.ts","transport/2_transport_provider_web_socket.ts"],[("getDcId / getDc and endpoint tables","transport")],["addresses opened","numbers in preambles"])

p("C20","Every storage backend behaves like one ordered map",
"For each storage backend, any sequence of set, overwrite, delete, get, increment and range listing behaves like a single ordered map from key tuples to values: reads return the last value written with types preserved, listings return exactly the live entries of the prefix or range in key order (or reverse), honour limits, and never include other keys. Namespaced branches and different prefixes are isolated from one another and from the parent, increments are atomic sums, and contents survive closing and reopening where the backend is persistent.",
["histories","inputs","schedules"],"every operation sequence over keys mixing strings, numbers, bigints and nested prefixes, on every backend available in this runtime",
"tests exercise a fixed list of a few keys per backend",
["storage/2_storage_memory.ts","storage/2_storage_local_storage.ts","storage/2_storage_session_storage.ts","storage/1_storage_deno_kv.ts","storage/1_utilities.ts"],[("key encoding and comparison","storage/1_utilities.ts")],["results of every storage operation vs. a reference map"])

p("C21","Stored values and keys survive textual encoding unchanged",
"Encoding a key or a value to its stored text form and decoding it yields an equal value of the same types, including big integers, dates, byte arrays, nested structures, negative and fractional numbers and strings with any characters. For keys whose parts have the same type at each position, the order defined on keys and on their stored forms is a total order that agrees with the order of the original tuples, and range membership agrees with that order.",
["inputs"],"every serialisable value and every pair of keys",
"tests compare a few values and keys",
["storage/1_utilities.ts"],[("toString/fromString/compareKeys/isInRange/fixKey","storage/1_utilities.ts")],["return values"])

p("C22","Cached state reads its own writes and survives commit plus restart",
"A value written through the client's cached storage is what every later read returns, whatever reads, commits and other writes are in flight, until it is overwritten, deleted, reset or cleared; a slow or failed read or commit in the background never brings back an older value. Everything written before a completed forced commit is visible to a fresh instance opened on the same backend, and a failed commit keeps the data pending so that a later commit stores it. Clearing removes every entry of the table from both the cache and the backend.",
["schedules","crash_points","fault_sequences"],"every interleaving of reads, writes, deletes and commits with a slow or failing backend, and a crash after any backend operation",
"tests check key construction only",
["client/0_storage_operations.ts"],[("write-back cache","client/0_storage_operations.ts")],["return values of reads","content of the backend after crash"])

p("C23","An exported session string restores exactly the same session",
"Importing a string exported from any authorised session into any client restores the same data centre, key, account id, account kind and application id, and exporting again yields an equivalent string. Exporting without authorisation fails with an input error; importing a truncated string or other text that is not a session string fails and leaves the stored session untouched.",
["inputs"],"every session content and every truncation or corruption of the string",
"no test covers it",
["client/0_storage_operations.ts","client/6_client.ts"],[("export/import","client/0_storage_operations.ts")],["exported strings and stored auth fields"])

p("C24","Guaranteed updates are delivered at least once, in order, across crashes",
"With delivery guarantees enabled, each sequenced update accepted by the client is handed to the handlers at least once and in acceptance order within its sequence, even when handlers fail, the process stops at any point and a new one starts on the same storage. An update is removed from the store only after its handlers completed; while its handlers keep failing it stays in the store and holds back the later ones of its sequence until another update of the sequence or a restart makes the client try again. Nothing accepted stays in the store once its handlers succeed, and replay on start-up happens before newer updates of the sequence are delivered. With guarantees disabled nothing is replayed.",
["crash_points","histories","fault_sequences"],"every stop point between acceptance, storing, handling and removal, every handler failure pattern, and any number of restarts",
"no test covers the update queue",
["client/2_update_manager.ts","client/0_storage_operations.ts"],[("stored update queues","client/2_update_manager.ts")],["handler invocations and backend content across simulated restarts"])

p("C25","Sequenced updates reach handlers in order and at most once",
"Within each numbered sequence (account, secret/bot, and each channel) updates reach the handlers in increasing sequence order and none is delivered twice, however the server's pushes are reordered, duplicated or overlap with difference answers and with updates contained in the client's own request results. The position the client asks the server to continue from never moves backwards and only covers updates that were delivered or fetched. (Updates contained in one difference answer may be delivered messages first, as the answer does not order its lists against each other; updates that take no place in a sequence may repeat.)",
["schedules","histories","fault_sequences"],"every reordering, duplication and overlap of pushes, results and differences over several sequences",
"no test covers the update manager",
["client/2_update_manager.ts"],[("per-sequence queues and position checks","client/2_update_manager.ts")],["order of handler calls","stored positions"])

p("C26","Missed updates are recovered: the client converges to the server's history",
"If pushes are lost, the client notices the hole from the next numbered update of that sequence, a too-long notice, a reconnection, or (for the account's own sequences) its periodic check after a quarter of an hour of silence, or (for a channel opened for polling) its next poll, fetches the difference in as many slices as needed, and afterwards every update of the sequence has been delivered, except those the server itself declares skipped. A difference request that failed is made again at the next such occasion, the position the server returned is used, and a sequence that cannot be recovered does not block the others. After recovery the local positions equal the server's.",
["fault_sequences","histories"],"every loss pattern over common and channel sequences, slice sizes, too-long answers and transient errors",
"no test covers gap recovery",
["client/2_update_manager.ts"],[("gap detection and difference fetching","client/2_update_manager.ts")],["handler calls and positions against a model server"])

p("C27","Uploads deliver every byte exactly once in correctly numbered parts",
"For every source kind (bytes, stream, iterator, path or URL where available), size, part size and stream chunking, the parts the server receives concatenate to exactly the source's bytes (or to their encryption under the given key), are numbered consecutively from zero, all have the agreed part size except the last, and use the large-file form exactly when the file exceeds ten megabytes (or, for streams of unknown length, one part); the returned descriptor states the true part count and name. Flood waits and transient errors are retried without losing, duplicating or misnumbering parts, permanent errors and aborts stop the upload with that error and nothing more is sent, and the number of requests in flight never exceeds the allowance. Progress reports never decrease and end at the full size.",
["inputs","schedules","fault_sequences"],"every size around part and threshold boundaries, chunking, error pattern and answer order",
"tests cover the part splitter only",
["client/2_file_manager.ts","utilities/0_part_stream.ts"],[("upload loops","client/2_file_manager.ts")],["part requests at a mock server"])

p("C28","Downloads yield the file's bytes in order from the requested offset",
"For every file size, chunk size and starting offset, the chunks yielded concatenate to exactly the file's bytes from that offset (decrypted when a key is given), each chunk of a freshly read file but the last has the requested size, and the transfer ends at the end of the file, regardless of the order in which concurrent part requests complete and of transient errors. Requests are aligned and sized as the protocol requires (within one megabyte, marked precise when finer than 4 KB) and go to the data centre holding the file, invalid sizes or offsets are refused, aborting stops with the abort reason, and a cached file yields the same bytes as a fresh one. A failing part surfaces as an error and never as missing or duplicated bytes.",
["inputs","schedules","fault_sequences"],"every size/offset/chunk combination, completion order and error pattern",
"one test covers a retry path",
["client/2_file_manager.ts"],[("pipelined download","client/2_file_manager.ts")],["yielded chunks vs. the mock server's file","part requests"])

p("C29","File identifiers are lossless and stable",
"Serialising any file location to an identifier string and parsing it yields an equal location, distinct locations give distinct strings, and malformed strings are refused with an error. The unique identifier depends only on what identifies the file (not on access hash or file reference), is equal for equal files and different for different files of a class.",
["inputs"],"every file type, location kind, photo source, reference length and numeric value",
"no test covers file identifiers",
["types/_file_id.ts"],[("file id codec","types/_file_id.ts")],["strings and parsed values"])

p("C30","HTML formatting parses to exactly the text and entities it denotes",
"Rendering any text with properly nested formatting as HTML (escaping reserved characters by name or number) and parsing it gives back that text and those entities, with offsets and lengths in UTF-16 units, sorted, and with attribute values decoded. Any other input either parses to entities that all lie inside the text with positive length, or is refused with an input error; parsing always terminates.",
["inputs"],"every text over all Unicode planes, every nesting of supported tags and attributes, and arbitrary strings",
"tests cover a fixed list of examples",
["client/0_html.ts"],[("parser","client/0_html.ts")],["parse results"])

p("C31","Markdown formatting parses to exactly the text and entities it denotes",
"Rendering any text with properly nested formatting as MarkdownV2 (escaping reserved characters) and parsing it gives back that text and those entities, with offsets and lengths in UTF-16 units, sorted. Any other input either parses to entities that all lie inside the text with positive length, or is refused with an input error; parsing always terminates.",
["inputs"],"every text over all Unicode planes, every nesting of supported styles, and arbitrary strings",
"tests cover a fixed list of examples",
["client/0_markdown.ts"],[("parser","client/0_markdown.ts")],["parse results"])

p("C32","Message entities survive trimming and protocol conversion",
"Preparing a text for sending trims trailing whitespace and shrinks or drops entities so that each remaining one lies inside the text with positive length and covers the same characters as before; the caller's entity objects and array are not modified, and text that is empty after trimming is refused unless allowed. Converting an entity list to its protocol form and back yields the same list in the defined order, for messages and for secret messages.",
["inputs"],"every text and entity list",
"tests cover a fixed list of examples",
["client/3_message_manager.ts","client/3_secret_chat_manager.ts","types/2_message_entity.ts"],[("parseText","client/3_message_manager.ts"),("entity conversion","types/2_message_entity.ts")],["results and the caller's objects"])

p("C33","Middleware runs in registration order with correct nesting and filtering",
"For every composition of handlers, nested composers, branches, filters and error boundaries, an update passes through exactly the handlers whose condition matches, in registration order, each at most once; code after a call to the next handler runs after all later handlers, skipping that call stops the chain, and errors propagate to the caller. Update filters match exactly the updates that have the named field path, command and callback matching follow their documented rules, and concurrent updates do not share state.",
["inputs","schedules"],"every composition tree and every update",
"tests cover two or three compositions",
["client/5_composer.ts","client/3_filters.ts","client/0_utilities.ts"],[("composer","client/5_composer.ts")],["trace of handler entry and exit"])

p("C34","Locks, queues and loops never lose, duplicate or overlap work",
"A mutex admits one holder at a time in request order and always admits the next waiter after release; a work queue runs each added job exactly once, one at a time, in order, continuing after failures. A restartable background loop never runs two bodies at once, stops promptly when aborted, survives body errors, and can be started again; splitting a stream into parts preserves all bytes in order with every part but the last full. Round-robin client pools hand out every member evenly.",
["schedules","histories","fault_sequences"],"every interleaving of acquire/release/add/abort/start with failing and slow bodies",
"tests cover single scenarios",
["utilities/0_mutex.ts","utilities/2_queue.ts","client/0_abortable_loop.ts","utilities/0_part_stream.ts","client/3_client_encrypted_pool.ts"],[("mutex/queue/loop","utilities")],["entry/exit events of critical sections and jobs"])

p("C35","Password proofs are accepted by a conforming server and only for safe groups",
"For every password, salts, generator and server value permitted for the protocol's known safe group, the proof computed for signing in is accepted by a server holding only the verifier of that password, and is rejected for any other password. Groups with any other modulus that is not a 2048-bit safe prime, or without a fitting generator, and server values outside the safe range, are refused without sending a proof.",
["inputs"],"every password/salt/server secret, and every malformed group or server value",
"tests check one vector and the prime check",
["client/0_password.ts"],[("SRP","client/0_password.ts")],["proof checked by an independent server model"])

p("C36","Secret chats deliver each message once, in order, or end the chat",
"Between two parties of a secret chat, messages are delivered to the receiver's handlers exactly once, unaltered and in sending order, whatever reordering, duplication and loss the relay introduces, missing ones being requested and re-sent. Inconsistent sequence numbers end the chat instead of delivering out of order. Sequence numbers on the wire follow the secret-chat rules for creator and acceptor and are never reused.",
["schedules","histories","fault_sequences"],"every interleaving of sends by both sides with relay reordering, duplication and loss",
"no test covers secret chats",
["client/3_secret_chat_manager.ts","client/0_secret_chat_state.ts"],[("sequence numbers and gap handling","client/3_secret_chat_manager.ts")],["messages delivered at both ends","relayed packets"])

p("C37","Secret chat keys agree, renew, and reject tampering",
"Both parties of an accepted secret chat hold the same key, whose fingerprint matches what they announce; a mismatching fingerprint, unsafe group or out-of-range public value aborts the chat without any key being used. Altered, truncated or foreign-key packets are never delivered; messages are readable only with the shared key. After more than one hundred uses or a week the key is renewed by an exchange that leaves both sides with the same new key, messages sent around the renewal remain readable, and old keys are erased afterwards.",
["histories","fault_sequences","inputs"],"every handshake value, every bit flip of a relayed packet, and renewals started by either or both sides at any point of the traffic",
"no test covers secret chats",
["client/3_secret_chat_manager.ts"],[("key exchange, re-key, packet encryption","client/3_secret_chat_manager.ts")],["relayed packets","delivered messages","announced fingerprints"])

p("C38","Secret chats continue correctly after a restart at any point",
"If either party's process stops between any two storage writes and a new process starts on the same storage, the chat continues: no sequence number is reused for a different message, no message that the peer accepted is delivered twice or out of order, pending gaps are still filled and a renewal of the key still takes place. Only a message whose handling was under way at the stop may be missing, a call that was under way may or may not take effect, and a request for a chat is void if its maker stops before the answer to it was stored. The state written by one process is restored in full by the next, and chats that were ended leave no key behind.",
["crash_points","histories"],"every stop point between storage writes during handshake, traffic, gap filling and re-keying",
"no test covers secret chats",
["client/0_secret_chat_state.ts","client/3_secret_chat_manager.ts"],[("state commit/load","client/0_secret_chat_state.ts")],["behaviour of a manager restarted from a storage snapshot"])

p("C39","A worker-hosted client behaves like the client itself",
"Calling any client operation through the worker front end passes exactly the caller's arguments in order to the same operation of the hosted client, and settles once with the same result or, for the library's own errors, an error of the same class and fields; concurrent calls never receive each other's results and messages for other clients are ignored. Updates reach the front end's handlers once and in order (changes of the connection state may overtake others), and error handlers registered there decide about retries, each being consulted once per failure. A failing worker rejects all outstanding calls instead of leaving them pending.",
["inputs","schedules","fault_sequences"],"every operation, argument shape, error kind and answer order",
"no test covers the worker protocol",
["client/6_client_dispatcher.ts","client/7_client_worker.ts","client/7_client_receiver.ts","worker.ts","client/0_worker_error.ts"],[("request/response table","client/6_client_dispatcher.ts")],["messages on an instrumented worker port","settlement of calls"])

p("C40","Chat identifiers and peers convert both ways without collision",
"Mapping a user, group, channel or monoforum peer to a chat identifier and back yields the same peer, identifiers of different kinds never collide, and identifiers beyond all valid ranges are refused. Resolving an identifier or username yields an input peer of the right kind with the access hash last learned from a full (non-minimal) object, and a username resolves to the owner last seen, whatever its letter case. Usernames are accepted in all documented spellings and refused otherwise.",
["inputs","histories"],"every identifier at and around range boundaries, every order of full and minimal objects",
"tests cover usernames and a few ids",
["tl/2_telegram.ts","client/6_client.ts","client/0_utilities.ts","client/2_update_manager.ts"],[("peerToChatId / chatIdToPeerId","tl/2_telegram.ts"),("peer cache","client/2_update_manager.ts")],["return values and requests at a mock server"])

p("C41","Network statistics account for every transferred byte exactly once",
"The totals reported for sent and received bytes, separately for messages and media, equal the bytes all connections of that kind transferred, once background writes have finished, whatever their number, timing and overlap; increments lost to a transient storage failure are made up by the next report. Every connection class reports exactly the bytes it exchanged. Totals never decrease.",
["schedules","fault_sequences"],"every interleaving of reports with slow or failing storage",
"no test covers statistics",
["client/2_network_statistics_manager.ts"],[("pending write accumulation","client/2_network_statistics_manager.ts")],["reported totals vs. sum of reports"])

p("C42","A signed-in session persists and is reused across restarts",
"Once connected and signed in, stopping and restarting on the same storage reuses the same authorization key, salt and data centre without a new key exchange or sign-in; signing out removes keys and account data so that a restart begins unauthenticated. A redirection to another data centre during sign-in moves the session there (with a new key) and completes the sign-in, keeping test and production centres apart. Sign-in finishes only with an account id stored, and wrong tokens, codes or passwords never leave the client authorised.",
["histories","crash_points","fault_sequences"],"every order of connect, sign-in, redirection, wrong credentials, stop, restart and sign-out",
"no test runs the client end to end",
["client/6_client.ts","client/2_sign_in.ts","client/0_storage_operations.ts"],[("connect / sign-in / migration","client/6_client.ts")],["requests at a mock server","stored auth values"])

p("C43","Requests to other data centres use their own authorised connection",
"A request directed to another data centre, or a file transfer, is executed on a connection to exactly that centre, of the kind it asks for, and never on the main connection; requests without a target run on the main connection. A new key for another centre is authorised by transferring the main authorization to it once, before the request; keys of other centres are stored separately and used again later and after a regular restart instead of making new ones. An authorization the centre lost is transferred again and the request repeated, and concurrent first requests do not make more connections than the kind allows.",
["schedules","histories","fault_sequences"],"every set of concurrent requests over data centres and kinds, with authorization losses",
"no test runs the client end to end",
["client/6_client.ts","client/3_client_encrypted_pool.ts"],[("client selection and authorization import","client/6_client.ts")],["per-connection requests at a mock multi-DC server"])

p("C44","Server errors become the right error class; retry handlers stay per client",
"Every error the server returns surfaces as an error carrying the same code, text and original call, of the class dedicated to that text (including parametrised waits and redirections with their number) or the general class otherwise, and transports to and from workers unchanged. Handlers registered for failed calls are consulted in registration order with an increasing attempt number, each call is repeated exactly when they ask for it, short flood waits are waited out by default, and handlers registered on one client never affect another.",
["inputs","histories","configurations"],"every error text and code, every handler chain, any number of clients",
"no test covers error mapping or retry handlers",
["4_errors.ts","3_errors.ts","client/6_client.ts","client/1_invoke_middleware.ts"],[("error table and constructor","4_errors.ts"),("invoke middleware","client/6_client.ts")],["errors thrown by invoke","calls at a mock server"])

p("C45","Cached messages reflect the latest version seen and vanish when deleted",
"After an update or result carrying a message was processed, reading that message returns its latest seen version without another request; an edit replaces it, a deletion update reports exactly the cached messages concerned with their chats and removes them, and messages of one chat are never returned for another. Reading several messages returns those existing, in request order, fetching from the server whenever any is not cached.",
["histories","inputs"],"every sequence of new, edit and delete updates over private, group and channel chats",
"no test covers the message cache",
["client/3_message_manager.ts","client/0_storage_operations.ts","client/2_update_manager.ts"],[("message storage","client/0_storage_operations.ts"),("delete updates","client/3_message_manager.ts")],["results of message reads and delivered deletion updates"])

p("C46","Context shortcuts act on the chat, person and message of their own update",
"Every shortcut of a context makes exactly one call of the client method it stands for, with the chat, message, query, inline message, secret chat or business connection of that context's own update, the person behind that update (for a callback query the one who pressed the button, otherwise the message's sender), the caller's further arguments in their places, and unmodified parameters. A reply stays in the topic of the message, quotes it when asked to or, unless told otherwise, in groups and channels, and keeps its business connection. The client's result or failure is passed on unchanged; on an update that lacks what the shortcut needs it fails without a call. The message, chat, person and identifiers that a context reports are those of its update.",
["inputs"],"every shortcut on every kind of update, with every combination of optional fields and parameters",
"no test constructs a context; there are over two hundred shortcuts over two dozen kinds of update",
["client/4_context.ts"],[("update accessors","client/4_context.ts"),("reply parameters","client/4_context.ts")],["calls a recording client receives","results of the shortcuts"])

p("C47","Cached look-ups follow what the server said last",
"Reading a chat, the members or administrators of a group, a video chat, translations, a business connection, custom emojis, a bot's answer to a button or an inline query, or a voice transcription returns what the server said last: once an update that changes or invalidates it was processed, the earlier answer is no longer returned, and a cached answer is returned without another request only while it is valid (its cache time, the age limit, complete transcriptions). Answers to different questions, chats, messages, languages or identifiers are never mixed up, and updates of translations, connections, video chats and transcriptions are delivered with the new content.",
["histories","inputs"],"every sequence of look-ups, waiting times, changes and announcements over several chats, bots and languages",
"no test runs the client end to end",
["client/4_chat_list_manager.ts","client/2_translations_manager.ts","client/2_file_manager.ts","client/2_business_connection_manager.ts","client/3_video_chat_manager.ts","client/4_callback_query_manager.ts","client/4_inline_query_manager.ts","client/3_message_manager.ts"],[("full chats and invalidation","client/4_chat_list_manager.ts"),("translations","client/2_translations_manager.ts"),("custom emojis","client/2_file_manager.ts"),("callback answers","client/4_callback_query_manager.ts"),("inline answers","client/4_inline_query_manager.ts")],["results of look-ups","calls at a mock server","delivered updates"])

p("C48","Message calls carry exactly the parameters and return what was sent",
"Sending (texts, every kind of media, groups of media, polls, invoices, checklists, drafts, chat actions), forwarding, editing (ordinary, inline and ephemeral messages), pinning, reacting, reading and deleting makes the request those parameters stand for: the chat, the text and its entities, media, options, reply target, sender, schedule, buttons and flags of the request are those given and no others, defaults of the client apply where a parameter is absent, and every sent message has its own random id. The call returns the messages the service reported for it, in order, and no others. A parameter that the kind of account or message does not allow is refused before any request.",
["inputs","configurations"],"every combination of parameters of over fifty methods, for users and bots and every default parse mode",
"no test runs the client end to end",
["client/3_message_manager.ts","client/0_parse_mode.ts","types/3_input_media.ts"],[("message methods","client/3_message_manager.ts")],["calls at a mock server","results of the methods"])

p("C49","Administration and account calls carry exactly the caller's parameters",
"Managing chats, members, rights, invite links, topics, stories and story albums, contacts, the profile, settings and privacy of the account, bot commands and information, payments, gifts, checklists, polls, takeouts and sticker sets makes the request those parameters stand for: whom and what it concerns, texts with their entities, flags, limits and lists are those given and no others, and settings that are changed one at a time leave the rest as the service reports them. Parameters that contradict each other, and methods not for this kind of account, are refused before any request. What the method returns is what the service answered. This holds for peers learned before a restart too.",
["inputs","configurations"],"every combination of parameters of about a hundred and fifty methods, for users and bots, before and after a restart",
"no test runs the client end to end",
["client/4_chat_manager.ts","client/4_forum_manager.ts","client/4_story_manager.ts","client/2_story_album_manager.ts","client/4_contact_manager.ts","client/3_account_manager.ts","client/2_bot_info_manager.ts","client/2_payment_manager.ts","client/2_managed_bot_manager.ts","client/2_gift_collection_manager.ts","client/4_checklist_manager.ts","client/4_poll_manager.ts","client/2_takeout_manager.ts","client/3_sticker_set_manager.ts"],[("chat administration","client/4_chat_manager.ts"),("stories","client/4_story_manager.ts"),("account","client/3_account_manager.ts")],["calls at a mock server","results of the methods"])

p("C50","Paged lists give every entry of the service's list once, in order",
"Walking a list page by page, each time continuing from what the previous page offers as its continuation, gives every entry the service holds exactly once and in its order, with any page size, also when new entries appear at the top in between, when identifiers of users, groups, channels and messages of different chats coincide, and when the client is restarted between pages. This covers chats and archived chats, pinned and saved chats, histories, searches, members and administrators, common chats, join requests, invite links, poll voters, reactions, blocked users, profile photos, topics and administration logs. Totals are the service's, and a chat list item shows the last message of its own chat.",
["inputs","histories"],"every list content, page size, growth between pages and restart",
"no test pages through a list",
["types/A_chat_list_item.ts","client/4_chat_list_manager.ts","client/3_message_manager.ts","client/4_chat_manager.ts","client/4_forum_manager.ts","client/4_poll_manager.ts","client/2_reaction_manager.ts"],[("chat list items","types/A_chat_list_item.ts"),("chat lists","client/4_chat_list_manager.ts"),("chat members","client/4_chat_manager.ts")],["pages returned to the caller","offsets asked of a mock server"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
