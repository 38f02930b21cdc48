#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it stays readable)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'socket-io-protocol/src/'
C = 'socket-io-client/src/'
O = 'owned_subslice/src/lib.rs'
OUT = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    OUT.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                    quantifier=dict(over=over, text=text), why_tests_cant=' '.join(why.split()),
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                 state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                                 observe_at=observe or [], hook_needed=None)))


prop('C01', 'Engine session accepts packets only between one open and a close',
     '''A fresh engine.io decoder accepts nothing but a valid open packet; after that open it rejects every further open and accepts the
     other packets until a close packet, after which it rejects every frame. A rejected frame never changes what the decoder accepts next.''',
     ['histories', 'inputs'], 'every finite sequence of websocket frames fed to one decoder',
     '''The one test feeds a close frame and two opens; the property ranges over all frame histories, including rejected frames in between
     and text frames before the open.''',
     [P + 'engine.rs'], [('Decoder', P + 'engine.rs'), ('State transitions in decode/decode_text/decode_binary', P + 'engine.rs')],
     ['result of decoding each frame of a history'], [('state', 'initial, active or closed', P + 'engine.rs')])
prop('C02', 'Engine frames are classified by their first character, payload intact',
     '''In an open session a text frame is close, ping, pong or message according to whether its first character is 1, 2, 3 or 4, a binary
     frame is a message exactly when its first byte is 4, and every other frame (empty, other first characters, websocket control frames)
     is rejected. A message carries exactly the rest of the frame, byte for byte; a first-character-0 frame to a fresh session is accepted
     exactly when the rest is the JSON object of an open packet, and yields its sid, pingTimeout and pingInterval unchanged.''',
     ['inputs'], 'every text and binary frame (any Unicode text, any bytes, any length) in every session state',
     'Tests decode two literal frames; multi-byte first characters, empty frames, embedded headers and extreme numbers are never tried.',
     [P + 'engine.rs'], [('Decoder::decode_text / decode_binary', P + 'engine.rs'), ('parse_open', P + 'engine.rs')],
     ['decoded packet and its payload bytes'])
prop('C03', 'Engine frames built here decode to exactly the payload given',
     '''The frame built for a text or binary payload is the message header followed by exactly the payload bytes, and an open session decodes it back to
     a message with that payload; the ping and pong frames built are the text frames 2 and 3 and decode to ping and pong.''',
     ['inputs'], 'every text and every byte payload', 'No test encodes a frame and decodes it; only literals are compared.',
     [P + 'engine.rs'], [('encode_message / package_message / encode_binary / package_binary / encode_ping / encode_pong', P + 'engine.rs')],
     ['bytes of the frame; packet decoded from it'])
prop('C04', 'A subslice exposes exactly its window and never widens',
     '''A view created over a buffer with a range reads exactly that range of the buffer, and a view of a whole buffer reads all of it. Taking a sub-view
     of a view with range a..b yields exactly positions a up to the smaller of b and the length of the parent view, so that it never exposes bytes outside
     its parent, for every a and b including those that would overflow (an a beyond that end is refused when read). Two views compare equal exactly when the data they expose is equal, and writing through a view changes what it exposes and nothing else of the buffer.''',
     ['inputs', 'histories'], 'every buffer (text and vectors), every range, every chain of sub-views',
     'The tests use a handful of in-bounds ranges; overflow, ranges past the end of the parent and chains are untested.',
     [O], [('OwnedSubslice::subslice', O), ('Deref / DerefMut / PartialEq / From', O)], ['dereferenced contents, equality, panics'])
prop('C05', 'Packet headers are written in the socket.io grammar',
     '''The text frame of an encoded event, ack, connect or disconnect packet begins with the message header 4, then the packet type digit (0 connect, 1 disconnect,
     2 event, 3 ack, 5 binary event, 6 binary ack), then for binary packets the attachment count and a dash, then the namespace and a comma unless the namespace is /, then the id
     in decimal if there is one, and nothing else before the argument list. In a binary packet the count equals the number of binary frames that follow it.''',
     ['inputs'], 'every kind, namespace text, id (0..2^64-1) and number of attachments',
     'Tests compare a few literals; ids near 2^64, unusual namespaces and many attachments are not covered.',
     [P + 'socket/ser.rs'], [('serialize_header', P + 'socket/ser.rs'), ('PacketBuilder::new / finish', P + 'socket/ser.rs'), ('serialize_connect / serialize_disconnect', P + 'socket/ser.rs')],
     ['text of the first frame, number of frames'])
prop('C06', 'No incoming message can panic the decoder or argument access',
     '''Whatever text or binary message arrives, decoding it, completing it with any attachments, listing, displaying and converting its arguments to JSON values ends in a result or an error and
     never panics; this includes numbers too large to represent, nesting too deep to represent, lone surrogate escapes, malformed placeholders and any number of attachments.''',
     ['inputs'], 'every message text, every list of attachment messages, every argument index',
     'Tests only decode well-formed messages of small size; the panicking inputs are adversarial.',
     [P + 'socket/de.rs', P + 'socket/mod.rs', P + 'socket/args/mod.rs'],
     [('parse_text / parse_number / parse_args', P + 'socket/de.rs'), ('fill_placeholders_value, Arg::to_json_value, Display', P + 'socket/args/mod.rs')],
     ['absence of panics'])
prop('C07', 'Decoded packets report exactly the header fields of the message',
     '''A text message is accepted exactly when it is a type digit 0-3, 5 or 6, optionally a canonical decimal count and a dash, optionally a namespace (a slash, then at least one character, none of them a comma) and a comma, optionally a canonical decimal id, and
     optionally a bracketed single-line JSON array, with count and id below 2^64, and with what its type needs: no count, id or arguments for connect and disconnect, at least one argument for an event, an id for an ack, a count for the binary types and no count
     other than 0 for event and ack (for a binary type with a non-zero count, the argument or id it needs is checked only once its attachments are there). The accepted packet reports exactly that type, namespace (/ when absent), id and the elements of the array in order as arguments; a binary type with a non-zero count asks for exactly that many attachments.''',
     ['inputs'], 'every message text',
     'The tests decode about ten literals; acceptance and field extraction must agree with the grammar on every string.',
     [P + 'socket/de.rs', P + 'socket/mod.rs'],
     [('DESERIALIZE_RE', P + 'socket/de.rs'), ('parse_text / parse_number / parse_args', P + 'socket/de.rs'), ('deserialize_dataless / deserialize_event / deserialize_binary', P + 'socket/de.rs'), ('Packet::namespace / data', P + 'socket/mod.rs')],
     ['decoded packet, error'])
prop('C08', 'Arguments are the exact JSON texts received, in order',
     '''For a decoded packet the argument list has as many entries as the received array, the argument at each index is decoded from exactly the JSON text of that element, an index past the end yields nothing, and iterating
     yields the same arguments in the same order, each once, and then ends. A packet without attachments hands every argument to JSON decoding unchanged, so values, strings and nested objects (including ones that look like placeholders) come out as sent.''',
     ['inputs'], 'every accepted packet, every index, every number of iteration steps',
     'Tests look at the first arguments of short packets; multi-byte text before an argument, whitespace and long lists are not covered.',
     [P + 'socket/args/mod.rs', P + 'socket/de.rs'],
     [('Args::get / len / iter, ArgsIter::next', P + 'socket/args/mod.rs'), ('parse_args offsets', P + 'socket/de.rs')], ['args().get(i), iteration'])
prop('C09', 'A binary packet is completed by exactly its attachments, in order',
     '''A packet that announces n attachments becomes available only with exactly n binary messages, which become its attachments in order of arrival; supplying a different number or a text message is an error, and so is completing an event without arguments or an ack without id. On completion the packet has the type,
     namespace, id and arguments that were announced with the header.''',
     ['inputs', 'histories'], 'every announced count and every list of following messages',
     'Tests complete packets with one or two attachments only and never supply wrong counts or kinds at each position.',
     [P + 'socket/de.rs', C + 'receiver.rs'],
     [('deserialize_partial / deserialize_event', P + 'socket/de.rs'), ('InProgress', C + 'receiver.rs')], ['packet or error'])
prop('C10', 'Placeholders in a JSON value are replaced by exactly their attachment',
     '''Converting an argument of a packet with attachments to a JSON value replaces every placeholder object (an object with a _placeholder key), at any depth, by the array of the bytes of the attachment with its number, and leaves everything else unchanged. A placeholder object without a usable number
     or with a number not below the attachment count is an error.''',
     ['inputs'], 'every JSON argument, every list of attachments',
     'One test substitutes one placeholder; nesting, repeated and out-of-range numbers are not covered.',
     [P + 'socket/args/mod.rs'], [('fill_placeholders_value', P + 'socket/args/mod.rs'), ('Arg::to_json_value', P + 'socket/args/mod.rs')], ['resulting value or error'])
prop('C11', 'Typed decoding puts attachment bytes where the placeholders are',
     '''Decoding an argument of a packet with attachments into a type yields what plain JSON decoding of the same text would, except that each object {"_placeholder":true,"num":k} decodes as the bytes of attachment k (as owned bytes, borrowed bytes or a sequence of numbers), at any depth in
     arrays, objects, options, tuples, structs and enums. A k not below the attachment count is an error, and objects that are not placeholders decode as themselves.''',
     ['inputs'], 'every argument text, attachment list and target type',
     'Tests decode a few structs with one placeholder each.',
     [P + 'socket/args/deserialize_attachments.rs'], [('BinaryDeserializer, BinaryVisitor::visit_map', P + 'socket/args/deserialize_attachments.rs')], ['decoded value or error'])
prop('C12', 'A packet under construction contains exactly the accepted arguments',
     '''However arguments are added, the finished packet's argument text is the JSON array of exactly the event name (for events) and the arguments whose addition succeeded, in order. An addition that fails, including the first one, leaves the packet
     exactly as it was, attachments included, so the packet can still be completed or sent.''',
     ['inputs', 'fault_sequences'], 'every sequence of successful and failing argument additions, text and binary packets',
     'Tests never make an argument fail, in particular not the first or one that already produced attachments.',
     [P + 'socket/ser.rs', P + 'socket/args/mod.rs'], [('PacketBuilder::serialize_arg / finish', P + 'socket/ser.rs')], ['frames of the finished packet'])
prop('C13', 'Binary packets carry byte strings as numbered attachments',
     '''In a binary packet each byte string in an argument, at any depth, and each non-empty sequence whose elements are all unsigned 8-bit numbers, is moved to a binary frame (the message header 4, then exactly those bytes) and replaced in the text by
     {"_placeholder":true,"num":k}, where k is the position of that frame among the binary frames of the packet, counted over all its arguments in order. Every other value, mixed and empty sequences and tuples included, is written as plain JSON encoding writes it.
     A text packet writes every argument as plain JSON encoding writes it and has no binary frames.''',
     ['inputs'], 'every serializable argument, every number of arguments',
     'Tests encode four values; element kinds at each position of a sequence, nesting under every container and numbering across arguments are not covered.',
     [P + 'socket/args/serialize_attachments.rs', P + 'socket/args/mod.rs', P + 'socket/ser.rs', P + 'engine.rs'],
     [('Wrapper, SeqWrapper, SeqElementSerializer', P + 'socket/args/serialize_attachments.rs'), ('serialize_arg / serialize_arg_binary', P + 'socket/args/mod.rs'),
      ('encode_binary / package_binary', P + 'engine.rs')], ['text frame and binary frames of the packet'])
prop('C14', 'Encoded packets decode to what was encoded',
     '''The frames produced for an event or an ack, whose namespace is / or a slash followed by at least one character and no comma, are accepted in order by an open engine session, and the packet decoder completes them exactly when the last of them has been
     taken. The decoded packet has the same type, namespace and id, the event name as first argument of an event, and arguments that decode to the values that were added, in order, byte strings included (in a binary packet, values that do not themselves contain an object with a _placeholder key).''',
     ['inputs'], 'every namespace, id, event name and list of arguments, text and binary',
     'Encoder and decoder are only tested separately, against literals.',
     [P + 'socket/ser.rs', P + 'socket/de.rs', P + 'engine.rs', P + 'socket/args/serialize_attachments.rs', P + 'socket/args/deserialize_attachments.rs'],
     [('PacketBuilder / serialize_header', P + 'socket/ser.rs'), ('deserialize / deserialize_partial / parse_text', P + 'socket/de.rs'), ('Decoder::decode', P + 'engine.rs')],
     ['decoded packet compared with what was encoded'])
prop('C15', 'Callback registrations behave as a keyed map',
     '''After any history of setting and clearing callbacks, the callback found for a namespace and event is the one last set for exactly that namespace and event if it has not been cleared since, otherwise the fallback last set and not cleared for exactly
     that namespace, otherwise none. Operations on one namespace or event never change what is found for another, and calls without a namespace mean /.''',
     ['histories'], 'every finite history of set and clear operations over all namespaces and event names',
     'The test makes three registrations and looks each up once; nothing is overwritten or cleared.',
     [C + 'callbacks.rs', C + 'lib.rs'],
     [('Callbacks', C + 'callbacks.rs'), ('fwd_cbs! set/clear methods of Client', C + 'lib.rs')], ['which callback runs for an incoming event'],
     [('namespaces', 'per namespace: events, fallback, acks', C + 'callbacks.rs')])
prop('C16', 'Each received event runs exactly its callback once',
     '''Each complete event packet received runs exactly one callback exactly once, the one registered for its namespace and name (or that namespace's fallback), with all of the packet's arguments and with a reply handle exactly when the packet has an id; with no
     matching registration nothing runs. Callbacks run in order of arrival; connect and disconnect packets, and packets still missing attachments, run nothing, and binary messages count only as attachments of the packet announced before them.''',
     ['histories', 'inputs'], 'every sequence of frames of an open session and every registry',
     'There are no tests of the receiver at all.',
     [C + 'receiver.rs', C + 'callbacks.rs'],
     [('Receiver::process_websocket_packet / process_message / process_packet', C + 'receiver.rs'), ('InProgress', C + 'receiver.rs')],
     ['callbacks run, with their arguments'], [('in_progress', 'packet waiting for attachments', C + 'receiver.rs')])
prop('C17', 'Acks run the callback of the event they answer, once',
     '''An ack with a given namespace and id runs exactly the callback of the event that was sent on that namespace with that id, with the ack's arguments, and at most once: a second ack with the same id, or one that answers nothing, is an error and runs no
     callback. Ids of events with callbacks are distinct over the life of the client.''',
     ['histories'], 'every interleaving of sent events and received acks',
     'The test of the registry checks one id once; correlation with sent events is untested.',
     [C + 'receiver.rs', C + 'callbacks.rs', C + 'emit.rs'],
     [('Callbacks::set_ack / get_and_clear_ack', C + 'callbacks.rs'), ('Receiver::process_packet', C + 'receiver.rs'), ('EventBuilder::callback, EventArgsBuilder::send', C + 'emit.rs')],
     ['ack callbacks run, error of the connection'], [('next_id', 'next ack id of the client', C + 'lib.rs'), ('acks', 'pending ack callbacks by namespace and id', C + 'callbacks.rs')])
prop('C18', 'Replies go back to the event they answer, pings get pongs',
     '''A reply sent through the handle of a received event is one ack packet with exactly the namespace and id of that event and the arguments added, put on the same connection once. Every engine ping of an open session is answered by exactly one engine pong,
     and receiving anything else sends nothing by itself.''',
     ['histories', 'inputs'], 'every received event with an id, every argument list, every sequence of frames',
     'Neither replies nor heartbeats are exercised by a test.',
     [C + 'receiver.rs', C + 'emit.rs'],
     [('AckBuilder / AckArgsBuilder', C + 'emit.rs'), ('Receiver::process_message', C + 'receiver.rs')], ['frames sent'])
prop('C19', 'Sending an event queues one packet, its ack callback first',
     '''Sending an event puts exactly one packet, header frame first and its attachments behind it in one unit, on the connection, with the namespace, event name, arguments and mode chosen; it carries an id exactly when a callback was attached, and then that
     callback is registered under that namespace and id before the packet can be sent. Creating an event and dropping it without sending sends nothing and registers nothing, and events are queued in the order they were sent.''',
     ['histories', 'schedules', 'inputs'], 'every use of the event builders, with the connection task at any point',
     'No test sends an event; the order of registering and queueing only matters under a race with the connection task.',
     [C + 'emit.rs', C + 'lib.rs'],
     [('EventBuilder / EventArgsBuilder', C + 'emit.rs'), ('Client::emit / namespace_emit', C + 'lib.rs')], ['frames sent, registry when they are queued'])
prop('C20', 'Connection URLs are normalised, with the protocol parameters',
     '''An http or ws URL connects as ws and an https or wss URL as wss with host, port, path and query kept, and any other scheme, a URL without host, or a text that is no URL, is refused before anything is sent. The websocket request asks for the given path
     with the given query followed by EIO=4 and transport=websocket, and a connect function is called with the host and the explicit or default port.''',
     ['inputs', 'configurations'], 'every URL',
     'Three literals are tested, and the request that is sent is never looked at.',
     [C + 'lib.rs', C + 'connection.rs'], [('parse_url / add_socketio_query_params', C + 'lib.rs'), ('Client::connect / from_stream', C + 'lib.rs')], ['websocket request, error'])
prop('C21', 'Connections open, end and close in bounded, reported ways',
     '''Connecting succeeds only after the websocket handshake and the engine open; if the connection ends or times out before that it fails with an error. Closing sends a websocket close, returns once the peer has ended the connection or the timeout has passed,
     reports an error that ended the connection, and a second close is refused; messages are sent in the order they were queued.''',
     ['schedules', 'fault_sequences'], 'every interleaving of peer, timer, close request and queued messages',
     'No test opens a connection.',
     [C + 'connection.rs'], [('Connection::new / close', C + 'connection.rs'), ('process_websocket', C + 'connection.rs')], ['result of connect and close, frames'])
prop('C22', 'Callbacks may use the client: no lock is held while they run',
     '''While an event or ack callback runs, the client's callback registry is not locked, so that the callback (or anything it waits for) can set and clear callbacks and send events with callbacks without deadlock. The registry is never left locked by an
     operation, whatever its outcome.''',
     ['schedules', 'histories'], 'every received packet and every callback body',
     'No test runs a callback from the receiver.',
     [C + 'receiver.rs', C + 'lib.rs', C + 'emit.rs', C + 'callbacks.rs'],
     [('Receiver::process_packet', C + 'receiver.rs'), ('fwd_cbs!', C + 'lib.rs'), ('EventArgsBuilder::send', C + 'emit.rs')], ['completion of a callback that uses the client'])

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for o in OUT:
        assert len(o['title']) <= 80, o['title']
        f.write(json.dumps(o, ensure_ascii=False) + '\n')
