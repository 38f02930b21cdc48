"""Which functions of /repo each property puts under contract."""
ENG = 'socket_io_protocol::engine'
OWN = 'owned_subslice'

SER = 'socket_io_protocol::socket::ser'
ARGS = 'socket_io_protocol::socket::args'
ATT = ARGS + '::serialize_attachments'
DAT = ARGS + '::deserialize_attachments'
SOCK = 'socket_io_protocol::socket'
DE = 'socket_io_protocol::socket::de'

ARGS_IN = ['Args::len', 'Args::is_empty', 'Args::get', 'Args::iter', "Iterator for ArgsIter<'a>::next", 'Arg::to_json_value',
           'fill_placeholders_value', "Display for Args<'a>::fmt", "Display for Arg<'a>::fmt"]

CB = 'socket_io_client::callbacks'
RECV = 'socket_io_client::receiver'
EMIT = 'socket_io_client::emit'
LIB = 'socket_io_client'
CONN = 'socket_io_client::connection'
TASK = ['process_websocket', 'process_websocket_async0']

FWD = ['Client::%s_%s%s_callback' % (a, n, b) for a in ('set', 'clear') for b in ('event', 'fallback') for n in ('', 'namespace_')]
EVENTS = ['EventBuilder::new', 'EventBuilder::binary', 'EventBuilder::callback', 'EventBuilder::args', 'EventArgsBuilder::arg', 'EventArgsBuilder::arg_ref', 'EventArgsBuilder::send']
ACKS = ['AckBuilder::new', 'AckBuilder::binary', 'AckBuilder::args', 'AckArgsBuilder::arg', 'AckArgsBuilder::arg_ref', 'AckArgsBuilder::send']
DEC = ['Default for Decoder::default', 'Decoder::new', 'Decoder::decode', 'Decoder::decode_text', 'Decoder::decode_binary', 'parse_open']

PROPS = {
    'C01': dict(verify={ENG: ['Default for Decoder::default', 'Decoder::new', 'Decoder::decode', 'Decoder::decode_text',
                              'Decoder::decode_binary', 'parse_open'],
                        OWN: ['OwnedSubslice::new']}),
    'C02': dict(verify={ENG: ['Default for Decoder::default', 'Decoder::new', 'Decoder::decode', 'Decoder::decode_text',
                              'Decoder::decode_binary', 'parse_open'],
                        OWN: ['OwnedSubslice::new']}),
    'C03': dict(verify={ENG: ['Decoder::decode', 'Decoder::decode_text', 'Decoder::decode_binary', 'parse_open',
                              'encode_message', 'package_message', 'encode_binary', 'package_binary',
                              'encode_ping', 'encode_pong'],
                        OWN: ['OwnedSubslice::new']}),
    'C04': dict(verify={OWN: '*'}),
    'C05': dict(verify={SER: ['PacketBuilder::new_event', 'PacketBuilder::new_ack', 'PacketBuilder::new', 'PacketBuilder::finish',
                              'serialize_connect', 'serialize_disconnect', 'serialize_header'],
                        ENG: ['package_message']}),
    'C06': dict(verify={DE: '*', SOCK: '*', OWN: ['OwnedSubslice::new', 'OwnedSubslice::subslice', 'From<String> for OwnedSubslice<String>::from', 'From<Vec<T>> for OwnedSubslice<Vec<T>>::from'],
                        ARGS: ARGS_IN}),
    'C07': dict(verify={DE: '*', SOCK: ['Packet::namespace', 'Packet::data', 'Packet::args']}),
    'C08': dict(verify={DE: ['deserialize', 'deserialize_text', 'parse_text', 'parse_args', 'parse_number', 'deserialize_event', 'deserialize_binary', 'deserialize_dataless', 'DeserializeResult::packet'],
                        SOCK: ['Packet::data', 'Packet::args'],
                        ARGS: ['Args::len', 'Args::is_empty', 'Args::get', 'Args::iter', "Iterator for ArgsIter<'a>::next", 'Arg::to_json_value', 'Arg::deserialize']}),
    'C09': dict(verify={DE: ['deserialize_partial', 'deserialize_event', 'deserialize_binary', 'Partial::attachments', 'deserialize', 'deserialize_text', 'parse_text']}),
    'C10': dict(verify={ARGS: ['Arg::to_json_value', 'fill_placeholders_value', 'Args::get'], SOCK: ['Packet::args', 'Packet::data'], DE: ['deserialize_partial', 'deserialize_event']}),
    'C12': dict(verify={SER: ['PacketBuilder::new_event', 'PacketBuilder::new_ack', 'PacketBuilder::new', 'PacketBuilder::serialize_arg',
                              'PacketBuilder::finish'],
                        ARGS: ['serialize_arg', 'serialize_arg_binary'], ATT: '*',
                        ENG: ['package_message']}),
    'C11': dict(verify={DAT: '*', ARGS: ['Arg::deserialize', 'Args::get', 'Args::len', 'Args::is_empty'], SOCK: ['Packet::args', 'Packet::data'], DE: ['deserialize_partial', 'deserialize_event']}),
    'C13': dict(verify={ATT: '*', ARGS: ['serialize_arg', 'serialize_arg_binary'],
                        SER: ['PacketBuilder::new_event', 'PacketBuilder::new_ack', 'PacketBuilder::new', 'PacketBuilder::serialize_arg', 'PacketBuilder::finish'],
                        ENG: ['encode_binary', 'package_binary', 'package_message']}),
    'C14': dict(verify={ATT: '*', ENG: DEC + ['package_message', 'encode_binary', 'package_binary'], DE: '*', SOCK: ['Packet::namespace', 'Packet::data', 'Packet::args'],
                        ARGS: ['serialize_arg', 'serialize_arg_binary', 'Args::len', 'Args::get', 'Arg::to_json_value', 'Arg::deserialize'],
                        SER: ['PacketBuilder::new_event', 'PacketBuilder::new_ack', 'PacketBuilder::new', 'PacketBuilder::serialize_arg', 'PacketBuilder::finish', 'serialize_header']}),
    'C15': dict(verify={CB: '*', LIB: FWD}),
    'C19': dict(verify={EMIT: EVENTS, LIB: ['Client::emit', 'Client::namespace_emit'], CB: ['Callbacks::set_ack', 'Callbacks::get_or_create_namespace', 'Namespace::new']}),
    'C16': dict(verify={RECV: '*', CB: '*', CONN: TASK, ENG: ['Decoder::new', 'Decoder::decode', 'Decoder::decode_text', 'Decoder::decode_binary', 'parse_open']}),
    'C17': dict(verify={RECV: '*', CB: '*', CONN: TASK, EMIT: EVENTS, LIB: ['Client::emit', 'Client::namespace_emit'], ENG: DEC}),
    'C18': dict(verify={RECV: '*', EMIT: ACKS, CONN: TASK, ENG: DEC + ['encode_pong'], CB: ['Callbacks::get_event', 'Callbacks::get_and_clear_ack'],
                        SER: ['PacketBuilder::new_ack', 'PacketBuilder::new', 'PacketBuilder::serialize_arg', 'PacketBuilder::finish']}),
    'C22': dict(verify={RECV: '*', CB: '*', EMIT: '*', LIB: FWD + ['Client::emit', 'Client::namespace_emit']}),
    'C20': dict(verify={LIB: ['parse_url', 'add_socketio_query_params', 'Client::connect', 'Client::from_stream', 'Client::new'], CONN: ['Connection::new']}),
    'C21': dict(verify={CONN: '*', LIB: ['Client::new', 'Client::close', 'Client::connect', 'Client::from_stream'], RECV: '*'}),
}
NOT_APPLICABLE = {}
