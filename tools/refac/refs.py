P = 'socket-io-protocol/src/'; C = 'socket-io-client/src/'
REFS = {
# ---- engine
'r01': [(P+'engine.rs', """            '2' => {
                if self.state == State::Initial {
                    Err(Error::MessageBeforeOpen)
                } else {
                    Ok(Packet::Ping)
                }
            }
            '3' => {
                if self.state == State::Initial {
                    Err(Error::MessageBeforeOpen)
                } else {
                    Ok(Packet::Pong)
                }
            }
""", """            '2' => {
                self.check_opened()?;
                Ok(Packet::Ping)
            }
            '3' => {
                self.check_opened()?;
                Ok(Packet::Pong)
            }
"""), (P+'engine.rs', """    fn decode_binary(&mut self""", """    /// Everything but the open packet has to come after it
    fn check_opened(&self) -> Result<(), Error> {
        if self.state == State::Initial {
            Err(Error::MessageBeforeOpen)
        } else {
            Ok(())
        }
    }

    fn decode_binary(&mut self""")],
'r02': [(P+'engine.rs', """        match msg {
            Ping(_) | Pong(_) | Close(_) => Err(Error::WrongMessageType(msg.clone())),
            Text(text) => self.decode_text(text),
            Binary(data) => self.decode_binary(data),
        }""", """        match msg {
            Binary(data) => self.decode_binary(data),
            Text(text) => self.decode_text(text),
            other => Err(Error::WrongMessageType(other)),
        }"""), (P+'engine.rs', """    let mut vec = Vec::with_capacity(data.len() + 1);
    vec.push(4);
    vec.extend_from_slice(data);""", """    let mut vec = vec![BINARY_HEADER];
    vec.extend_from_slice(data);""")],
'r03': [(P+'engine.rs', """        let invalid_msg = || Error::InvalidMessage(WsMessage::Binary(data.to_vec()));
        if self.state == State::Initial {
            Err(Error::MessageBeforeOpen)
        } else if *data.get(0).ok_or_else(invalid_msg)? != 4 {
            Err(invalid_msg())
        } else {
            let len = data.len();
            Ok(Packet::Message(Message::Binary(OwnedSubslice::new(
                data,
                1..len,
            ))))
        }""", """        if self.state == State::Initial {
            return Err(Error::MessageBeforeOpen);
        }
        match data.first() {
            Some(&BINARY_HEADER) => {
                let range = 1..data.len();
                let message = Message::Binary(OwnedSubslice::new(data, range));
                Ok(Packet::Message(message))
            }
            _ => Err(Error::InvalidMessage(WsMessage::Binary(data))),
        }""")],
'r04': [(P+'engine.rs', """        let invalid_msg = || Error::InvalidMessage(WsMessage::Text(text.to_string()));
        let typ = text.as_bytes().first().ok_or_else(invalid_msg)?;
        match *typ as char {
            '0' => {""", """        let typ = match text.as_bytes().first() {
            Some(typ) => *typ,
            None => return Err(Error::InvalidMessage(WsMessage::Text(text))),
        };
        match typ as char {
            '0' => {"""), (P+'engine.rs', "            _ => Err(invalid_msg()),\n        }\n    }\n\n    fn decode_binary", "            _ => Err(Error::InvalidMessage(WsMessage::Text(text))),\n        }\n    }\n\n    fn decode_binary")],
# ---- de
'r05': [(P+'socket/de.rs', """    let args = match captures.get(7) {
        Some(m) => {
            let mut args = parse_args(m.as_str())?;
            let offset = m.start();
            args.iter_mut().for_each(|Range { start, end }| {
                *start += offset;
                *end += offset
            });
            args
        }
        None => Vec::new(),
    };""", """    let args = match captures.get(7) {
        Some(m) => {
            let mut args = parse_args(m.as_str())?;
            for range in args.iter_mut() {
                range.start += m.start();
                range.end += m.start();
            }
            args
        }
        None => Vec::new(),
    };""")],
'r06': [(P+'socket/de.rs', """    Ok(args
        .iter()
        .map(|x| {
            let start = x.get().as_ptr() as usize - arg_str.as_ptr() as usize;
            let end = start + x.get().len();
            Range { start, end }
        })
        .collect())""", """    let base = arg_str.as_ptr() as usize;
    let mut ranges = Vec::with_capacity(args.len());
    for arg in args {
        let start = arg.get().as_ptr() as usize - base;
        ranges.push(start..start + arg.get().len());
    }
    Ok(ranges)"""), (P+'socket/de.rs', """    let attachments = captures
        .get(3)
        .map(|x| parse_number(x.as_str(), &*text))
        .transpose()?;
    let namespace = captures.get(5).map(|x| x.range());
""", """    let namespace = captures.get(5).map(|x| x.range());
    let attachments = match captures.get(3) {
        Some(x) => Some(parse_number(x.as_str(), &*text)?),
        None => None,
    };
""")],
'r07': [(P+'socket/de.rs', """        match *captures
            .get(1)
            .unwrap()
            .as_str()
            .as_bytes()
            .first()
            .unwrap() as char
        {
            '0' => Connect,
            '1' => Disconnect,
            '2' => Event,
            '3' => Ack,
            '5' => BinaryEvent,
            '6' => BinaryAck,
            _ => unreachable!(),
        }""", """        match captures.get(1).unwrap().as_str() {
            "0" => Connect,
            "1" => Disconnect,
            "2" => Event,
            "3" => Ack,
            "5" => BinaryEvent,
            "6" => BinaryAck,
            _ => unreachable!(),
        }""")],
'r08': [(P+'socket/de.rs', """    if parse.attachments.is_some() || parse.id.is_some() || !parse.args.is_empty() {
        return Err(Error::InvalidExtraData(name, parse.message.to_string()));
    }
""", """    let extra = parse.attachments.is_some() || parse.id.is_some() || parse.args.len() > 0;
    if extra {
        let text = parse.message.to_string();
        return Err(Error::InvalidExtraData(name, text));
    }
""")],
# ---- ser
'r09': [(P+'socket/ser.rs', """    write!(header, "{}", kind).unwrap();
    if let Some(attachments) = attachments {""", """    header.push(kind as u8);
    if let Some(attachments) = attachments {"""),
  (P+'socket/ser.rs', """        if self.first {
            write!(cursor, "[").unwrap();
            self.first = false;
        } else {
            write!(cursor, ",").unwrap();
        }
""", """        let separator = if self.first { "[" } else { "," };
        write!(cursor, "{}", separator).unwrap();
        self.first = false;
""")],
'r10': [(P+'socket/ser.rs', """        let kind = match (binary, kind) {
            (false, Kind::Event) => ProtocolKind::Event,
            (false, Kind::Ack) => ProtocolKind::Ack,
            (true, Kind::Event) => ProtocolKind::BinaryEvent,
            (true, Kind::Ack) => ProtocolKind::BinaryAck,
        };
        let namespace = namespace.into();
        if !binary {""", """        let namespace = namespace.into();
        let kind = match kind {
            Kind::Event if binary => ProtocolKind::BinaryEvent,
            Kind::Event => ProtocolKind::Event,
            Kind::Ack if binary => ProtocolKind::BinaryAck,
            Kind::Ack => ProtocolKind::Ack,
        };
        if !binary {"""), (P+'socket/ser.rs', """            let namespace = if &*namespace == "/" {
                Cow::Borrowed("/")
            } else {
                Cow::Owned(namespace.into_owned())
            };
""", """            let namespace = Cow::Owned(namespace.into_owned());
""")],
'r11': [(P+'socket/ser.rs', """                let mut header =
                    serialize_header(kind, Some(attachments.len() as u64), &*namespace, id);
                header.push_str(s.as_str());
                attachments.insert(0, engine::package_message(header));
                attachments""", """                let count = attachments.len() as u64;
                let mut header = serialize_header(kind, Some(count), &*namespace, id);
                header.push_str(&s);
                let mut messages = Vec::with_capacity(attachments.len() + 1);
                messages.push(engine::package_message(header));
                messages.append(&mut attachments);
                messages""")],
'r12': [(P+'socket/ser.rs', """        if result.is_err() {
            self.first = first;
            self.buffer
                .resize_with(start_pos, || panic!("shrinking vector"));
        }
        result""", """        if result.is_err() {
            self.buffer.truncate(start_pos);
            self.first = first;
        }
        result"""), (P+'socket/ser.rs', """                if result.is_err() {
                    attachments.resize_with(attachment_start, || panic!("shrinking vector"));
                }
                result""", """                if result.is_err() {
                    attachments.truncate(attachment_start);
                }
                result""")],
# ---- args
'r13': [(P+'socket/args/mod.rs', """        Array(values) => {
            return values
                .iter_mut()
                .map(|x| fill_placeholders_value(x, buffers))
                .collect();
        }""", """        Array(values) => {
            for value in values.iter_mut() {
                fill_placeholders_value(value, buffers)?;
            }
            return Ok(());
        }""")],
'r14': [(P+'socket/args/mod.rs', """        self.args.get(idx).map(|range| Arg {
            arg: &self.message[range.clone()],
            attachments: self.attachments,
        })""", """        let range = self.args.get(idx)?;
        let arg = &self.message[range.start..range.end];
        Some(Arg {
            arg,
            attachments: self.attachments,
        })"""), (P+'socket/args/mod.rs', """        (if !self.attachments.is_empty() {
            deserialize_attachments::deserialize(self.arg, self.attachments)
        } else {
            serde_json::from_str(self.arg)
        })
        .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))""", """        let result = if self.attachments.is_empty() {
            serde_json::from_str(self.arg)
        } else {
            deserialize_attachments::deserialize(self.arg, self.attachments)
        };
        result.map_err(|err| Error::JsonDeError(self.arg.to_string(), err))""")],
'r15': [(P+'socket/args/mod.rs', """            if map.contains_key("_placeholder") {
                map.get("num")
                    .and_then(|v| v.as_u64())
                    .ok_or_else(|| Error::NoNumInPlaceholderObject(value.clone()))?
            } else {
                return map
                    .values_mut()
                    .map(|x| fill_placeholders_value(x, buffers))
                    .collect();
            }""", """            if !map.contains_key("_placeholder") {
                return map
                    .values_mut()
                    .map(|x| fill_placeholders_value(x, buffers))
                    .collect();
            }
            match map.get("num").and_then(|v| v.as_u64()) {
                Some(num) => num,
                None => return Err(Error::NoNumInPlaceholderObject(value.clone())),
            }""")],
# ---- serialize_attachments
'r16': [(P+'socket/args/serialize_attachments.rs', """        let mut buffers = self.buffers.borrow_mut();
        let idx = buffers.len();
        buffers.push(engine::encode_binary(bytes));
        Placeholder::new(idx).serialize(self.s)""", """        let placeholder = self.add_buffer(bytes);
        placeholder.serialize(self.s)"""), (P+'socket/args/serialize_attachments.rs', """    fn transform<P>(&self, p: P)""", """    fn add_buffer(&self, bytes: &[u8]) -> Placeholder {
        let mut buffers = self.buffers.borrow_mut();
        let idx = buffers.len();
        buffers.push(engine::encode_binary(bytes));
        Placeholder::new(idx)
    }

    fn transform<P>(&self, p: P)""")],
# ---- client
'r17': [(C+'callbacks.rs', """        let ns = self.namespaces.get(namespace)?;
        ns.events
            .get(event)
            .or_else(|| ns.fallback.as_ref())
            .map(EventCallback::clone)""", """        let ns = match self.namespaces.get(namespace) {
            Some(ns) => ns,
            None => return None,
        };
        match ns.events.get(event) {
            Some(cb) => Some(cb.clone()),
            None => ns.fallback.clone(),
        }"""), (C+'callbacks.rs', """        if let Some(ns) = self.namespaces.get_mut(namespace) {
            ns.events.remove(event);
        }""", """        let ns = match self.namespaces.get_mut(namespace) {
            Some(ns) => ns,
            None => return,
        };
        ns.events.remove(event);""")],
'r18': [(C+'callbacks.rs', """        self.namespaces
            .entry(namespace.to_string())
            .or_insert_with(Namespace::new)""", """        let namespace = namespace.to_string();
        self.namespaces.entry(namespace).or_insert_with(|| Namespace::new())"""), (C+'callbacks.rs', """        let ns = self.namespaces.get_mut(namespace)?;
        ns.acks.remove(&id)""", """        self.namespaces
            .get_mut(namespace)
            .and_then(|ns| ns.acks.remove(&id))""")],
'r19': [(C+'receiver.rs', """                match self.in_progress.take() {
                    Some(mut ip) => {
                        ip.add(msg);
                        if ip.ready() {
                            let packet = ip.deserialize()?;
                            self.process_packet(packet)?;
                        } else {
                            self.in_progress = Some(ip);
                        }
                        Ok(())
                    }
                    None => match socket::deserialize(msg)? {
                        DeserializeResult::Packet(packet) => self.process_packet(packet),
                        DeserializeResult::DataNeeded(partial) => {
                            self.in_progress = Some(InProgress::new(partial));
                            Ok(())
                        }
                    },
                }""", """                self.process_engine_message(msg)"""), (C+'receiver.rs', """    fn process_packet(&mut self, packet: Packet)""", """    fn process_engine_message(&mut self, msg: EngineMessage) -> Result<(), Error> {
        if let Some(mut ip) = self.in_progress.take() {
            ip.add(msg);
            if !ip.ready() {
                self.in_progress = Some(ip);
                return Ok(());
            }
            let packet = ip.deserialize()?;
            return self.process_packet(packet);
        }
        match socket::deserialize(msg)? {
            DeserializeResult::Packet(packet) => self.process_packet(packet),
            DeserializeResult::DataNeeded(partial) => {
                self.in_progress = Some(InProgress::new(partial));
                Ok(())
            }
        }
    }

    fn process_packet(&mut self, packet: Packet)""")],
'r20': [(C+'receiver.rs', """                let cb = self
                    .callbacks
                    .lock()
                    .unwrap()
                    .get_and_clear_ack(namespace, id);
                if let Some(cb) = cb {
                    cb.call(&args);
                } else {
                    return Err(Error::UnexpectedAck(packet.clone()));
                }""", """                let mut callbacks = self.callbacks.lock().unwrap();
                let cb = callbacks.get_and_clear_ack(namespace, id);
                drop(callbacks);
                match cb {
                    Some(cb) => cb.call(&args),
                    None => return Err(Error::UnexpectedAck(packet.clone())),
                }"""), (C+'receiver.rs', """                let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                // TODO: Use id to create ack callback
                // Release the lock before calling the callback
                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
                if let Some(mut cb) = cb {
                    cb.call(&args, ack);
                }""", """                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
                if let Some(mut cb) = cb {
                    let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                    cb.call(&args, ack);
                }""")],
'r21': [(C+'receiver.rs', """                let cb = self
                    .callbacks
                    .lock()
                    .unwrap()
                    .get_and_clear_ack(namespace, id);
                if let Some(cb) = cb {
                    cb.call(&args);
                } else {
                    return Err(Error::UnexpectedAck(packet.clone()));
                }""", """                let cb = {
                    let mut callbacks = self.callbacks.lock().unwrap();
                    callbacks.get_and_clear_ack(namespace, id)
                };
                let cb = cb.ok_or_else(|| Error::UnexpectedAck(packet.clone()))?;
                cb.call(&args);"""), (C+'receiver.rs', """            WsMessage::Text(text) => self.process_message(WsMessage::Text(text)),
            WsMessage::Binary(data) => self.process_message(WsMessage::Binary(data)),""", """            msg @ WsMessage::Text(_) | msg @ WsMessage::Binary(_) => self.process_message(msg),""")],
'r22': [(C+'emit.rs', """        let packets = self.builder.finish();
        if let Some((callback, id)) = self.callback {
            self.client
                .callbacks
                .lock()
                .unwrap()
                .set_ack(self.namespace, id, callback);
        }
        let _ = self.client.send.unbounded_send(packets); // TODO: Determine if we care about the result.""", """        if let Some((callback, id)) = self.callback {
            let mut callbacks = self.client.callbacks.lock().unwrap();
            callbacks.set_ack(self.namespace, id, callback);
        }
        let packets = self.builder.finish();
        self.client.send.unbounded_send(packets).ok();"""), (C+'emit.rs', """        let builder = PacketBuilder::new_event(
            self.event,
            self.namespace,
            self.callback.as_ref().map(|(_, id)| *id),
            self.binary,
        );
""", """        let id = match &self.callback {
            Some((_, id)) => Some(*id),
            None => None,
        };
        let builder = PacketBuilder::new_event(self.event, self.namespace, id, self.binary);
""")],
'r23': [(C+'connection.rs', """                    let msgs = match result {
                        Some(msg) => msg,
                        None => panic!("Sending stream closed unexpectedly"),
                    };
                    for msg in msgs.into_iter() {
                        log::trace!("Sending websocket packet: {:?}", msg);
                        match sink.send(msg).await {
                            Ok(()) => (),
                            Err(e) => return Err(e.into()),
                        }
                    }""", """                    let msgs = result.expect("Sending stream closed unexpectedly");
                    for msg in msgs {
                        log::trace!("Sending websocket packet: {:?}", msg);
                        sink.send(msg).await?;
                    }"""), (C+'connection.rs', """        if let (Some(handle), Some(close)) = (self.handle.take(), self.close.take()) {
            let timeout = Delay::new(self.timeout);
            let _ = close.send(());
            select! {
                r = handle.fuse() => r,
                _ = timeout.fuse() => Err(Error::Timeout("close")),
            }
        } else {
            Err(Error::AlreadyClosed)
        }""", """        let (handle, close) = match (self.handle.take(), self.close.take()) {
            (Some(handle), Some(close)) => (handle, close),
            _ => return Err(Error::AlreadyClosed),
        };
        let timeout = Delay::new(self.timeout);
        let _ = close.send(());
        select! {
            r = handle.fuse() => r,
            _ = timeout.fuse() => Err(Error::Timeout("close")),
        }""")],

# ---- second batch
'r24': [('owned_subslice/src/lib.rs', """        let start = self.range.start.saturating_add(range.start);
        let end = std::cmp::min(self.range.start.saturating_add(range.end), self.range.end);
        OwnedSubslice {
            data: self.data,
            range: Range { start, end },
        }""", """        let base = self.range.start;
        let limit = self.range.end;
        let end = base.saturating_add(range.end).min(limit);
        OwnedSubslice::new(self.data, base.saturating_add(range.start)..end)"""), ('owned_subslice/src/lib.rs', """    fn from(data: String) -> Self {
        let len = data.len();
        OwnedSubslice {
            data,
            range: 0..len,
        }
    }""", """    fn from(data: String) -> Self {
        let range = 0..data.len();
        OwnedSubslice::new(data, range)
    }""")],
'r25': [(P+'socket/mod.rs', """        self.namespace
            .clone()
            .map(|range| &self.message[range])
            .unwrap_or("/")""", """        match &self.namespace {
            Some(range) => &self.message[range.clone()],
            None => "/",
        }"""), (P+'socket/mod.rs', """        match self.kind {
            Kind::Connect => Data::Connect,
            Kind::Disconnect => Data::Disconnect,
            Kind::Event => Data::Event {
                id: self.id,
                args: self.args(),
            },
            Kind::Ack => Data::Ack {
                id: self.id.unwrap(),
                args: self.args(),
            },
        }""", """        let id = self.id;
        match self.kind {
            Kind::Connect => Data::Connect,
            Kind::Disconnect => Data::Disconnect,
            Kind::Event => {
                let args = self.args();
                Data::Event { id, args }
            }
            Kind::Ack => {
                let args = self.args();
                let id = id.expect("acks have an id");
                Data::Ack { id, args }
            }
        }""")],
'r26': [(P+'socket/args/deserialize_attachments.rs', """            let num: u64 = map.next_value()?;
            let buffer = self.buffers.get(num as usize).ok_or_else(|| {
                A::Error::custom(format!(
                    "Placeholder num out of range: {}/{}",
                    num,
                    self.buffers.len()
                ))
            })?;
            match self.access_type {
                AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
                AccessType::Seq | AccessType::Neither => {
                    let mut seq = SeqDeserializer::new(buffer.iter().copied());
                    let value = self.visitor.visit_seq(&mut seq)?;
                    seq.end()?;
                    Ok(value)
                }
            }""", """            let num = map.next_value::<u64>()?;
            let buffer = match self.buffers.get(num as usize) {
                Some(buffer) => buffer,
                None => {
                    return Err(A::Error::custom(format!(
                        "Placeholder num out of range: {}/{}",
                        num,
                        self.buffers.len()
                    )))
                }
            };
            if let AccessType::Bytes = self.access_type {
                return self.visitor.visit_borrowed_bytes(buffer);
            }
            let mut seq = SeqDeserializer::new(buffer.iter().copied());
            let value = self.visitor.visit_seq(&mut seq)?;
            seq.end().map(|()| value)""")],
'r27': [(P+'socket/args/deserialize_attachments.rs', """        let wrapped = BinaryDeserializer {
            d,
            buffers: self.buffers,
        };
        self.visitor.visit_some(wrapped)""", """        let buffers = self.buffers;
        self.visitor.visit_some(BinaryDeserializer { d, buffers })"""), (P+'socket/args/deserialize_attachments.rs', """        if let Some(key) = self.first_key.take() {
            key.map(|key| {
                seed.deserialize(KeyDeserializer {
                    key,
                    error: PhantomData,
                })
            })
            .transpose()
        } else {""", """        if let Some(first) = self.first_key.take() {
            match first {
                Some(key) => {
                    let d = KeyDeserializer {
                        key,
                        error: PhantomData,
                    };
                    seed.deserialize(d).map(Some)
                }
                None => Ok(None),
            }
        } else {"""), (P+'socket/args/deserialize_attachments.rs', """    let mut d = JsonDeserializer::from_str(arg);
    let deserializer = BinaryDeserializer { d: &mut d, buffers };
    T::deserialize(deserializer)""", """    let mut json = JsonDeserializer::from_str(arg);
    T::deserialize(BinaryDeserializer {
        d: &mut json,
        buffers,
    })""")],
'r28': [(C+'lib.rs', """    let mut url = Url::parse(url)?;

    let scheme = match url.scheme() {
        "http" | "ws" => "ws",
        "https" | "wss" => "wss",
        s => return Err(UrlError::InvalidScheme(s.to_string())),
    };

    url.set_scheme(scheme).unwrap();
    let _ = url.host().ok_or(UrlError::NoHost)?;

    Ok(url)""", """    let mut url = Url::parse(url)?;

    let secure = match url.scheme() {
        "ws" | "http" => false,
        "wss" | "https" => true,
        other => return Err(UrlError::InvalidScheme(other.to_string())),
    };
    if url.host().is_none() {
        return Err(UrlError::NoHost);
    }
    url.set_scheme(if secure { "wss" } else { "ws" }).unwrap();

    Ok(url)""")],
'r29': [(C+'lib.rs', """        let url = parse_url(url).map_err(|e| Error::UrlError(url.to_string(), e))?;

        let connection = connect(
            url.host_str().unwrap().into(),
            url.port_or_known_default().unwrap(),
        )
        .await
        .map_err(|e| Error::ConnectionError(Box::new(e)))?;
""", """        let url = match parse_url(url) {
            Ok(url) => url,
            Err(e) => return Err(Error::UrlError(url.to_string(), e)),
        };

        let host = url.host_str().unwrap().to_string();
        let port = url.port_or_known_default().unwrap();
        let connection = match connect(host, port).await {
            Ok(connection) => connection,
            Err(e) => return Err(Error::ConnectionError(Box::new(e))),
        };
"""), (C+'lib.rs', """        let send = connection.sender();
        Ok(Client {
            connection,
            send,
            callbacks,
            next_id: 0,
        })""", """        Ok(Client {
            send: connection.sender(),
            connection,
            callbacks,
            next_id: 0,
        })""")],
'r30': [(C+'connection.rs', """            open = open_rx.fuse() => match open {
                Ok(open) => Ok(open),
                // The connection ended before the server opened it
                Err(_) => {
                    handle.await?;
                    return Err(WsError::ConnectionClosed.into());
                }
            },""", """            open = open_rx.fuse() => {
                if open.is_err() {
                    // The connection ended before the server opened it
                    handle.await?;
                    return Err(WsError::ConnectionClosed.into());
                }
                Ok(open.unwrap())
            }""")],
'r31': [(C+'connection.rs', """                    let msg = match result {
                        Some(msg) => {
                            log::trace!("received message: {:?}", msg);
                            msg
                        },
                        None => {
                            log::trace!("got None, stream ended");
                            return Ok(()); // Connection closed without errors
                        }
                    };
                    next = stream.next().fuse();
                    match msg {
                        Ok(msg) => receiver.process_websocket_packet(msg)?,
                        Err(e) => return Err(e.into()),
                    }""", """                    match result {
                        Some(Ok(msg)) => {
                            log::trace!("received message: {:?}", msg);
                            next = stream.next().fuse();
                            receiver.process_websocket_packet(msg)?;
                        },
                        Some(Err(e)) => return Err(e.into()),
                        None => {
                            log::trace!("got None, stream ended");
                            return Ok(()); // Connection closed without errors
                        }
                    }""")],
'r32': [(C+'receiver.rs', """                match self.in_progress.take() {
                    Some(mut ip) => {
                        ip.add(msg);
                        if ip.ready() {
                            let packet = ip.deserialize()?;
                            self.process_packet(packet)?;
                        } else {
                            self.in_progress = Some(ip);
                        }
                        Ok(())
                    }""", """                match self.in_progress.take() {
                    Some(mut ip) => {
                        ip.add(msg);
                        if !ip.ready() {
                            self.in_progress = Some(ip);
                            return Ok(());
                        }
                        ip.deserialize().map_err(Error::from).and_then(|packet| self.process_packet(packet))
                    }""")],
'r33': [(C+'emit.rs', """        let id = self.client.next_id;
        self.client.next_id += 1;
        self.callback = Some((c.into(), id));
        self
""", """        let id = self.client.take_id();
        EventBuilder {
            callback: Some((c.into(), id)),
            ..self
        }
"""), (C+'lib.rs', """    pub async fn close(&mut self) -> Result<(), Error> {
        self.connection""", """    fn take_id(&mut self) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        id
    }

    pub async fn close(&mut self) -> Result<(), Error> {
        self.connection""")],
'r36': [(C+'emit.rs', """        let packets = self.builder.finish();
        if let Some((callback, id)) = self.callback {
            self.client
                .callbacks
                .lock()
                .unwrap()
                .set_ack(self.namespace, id, callback);
        }
        let _ = self.client.send.unbounded_send(packets); // TODO: Determine if we care about the result.""", """        let EventArgsBuilder {
            client,
            namespace,
            callback,
            builder,
        } = self;
        if let Some((callback, id)) = callback {
            client.callbacks.lock().unwrap().set_ack(namespace, id, callback);
        }
        let _ = client.send.unbounded_send(builder.finish());""")],
'r34': [(P+'engine.rs', """        let invalid_msg = || Error::InvalidMessage(WsMessage::Binary(data.to_vec()));
        if self.state == State::Initial {
            Err(Error::MessageBeforeOpen)
        } else if *data.get(0).ok_or_else(invalid_msg)? != 4 {
            Err(invalid_msg())
        } else {
            let len = data.len();
            Ok(Packet::Message(Message::Binary(OwnedSubslice::new(
                data,
                1..len,
            ))))
        }""", """        if self.state == State::Initial {
            return Err(Error::MessageBeforeOpen);
        }
        if data.is_empty() || data[0] != BINARY_HEADER {
            return Err(Error::InvalidMessage(WsMessage::Binary(data)));
        }
        let len = data.len();
        let payload = OwnedSubslice::from(data).subslice(1..len);
        Ok(Packet::Message(Message::Binary(payload)))""")],
'r35': [(P+'socket/args/serialize_attachments.rs', """        match &mut self.state {
            BytesState::Bytes { s, data, len } => match v.serialize(SeqElementSerializer {}) {
                Ok(b) => {
                    if data.is_empty() {
                        data.push(engine::BINARY_HEADER);
                    }
                    data.push(b);
                    Ok(())
                }
                Err(_) => {
                    // The data isn't all u8's
                    let mut seq = s.take().unwrap().serialize_seq(*len)?;
                    // The first byte is the engine.io header, not an element
                    for b in data.iter().skip(1) {
                        seq.serialize_element(b)?;
                    }
                    seq.serialize_element(&Wrapper {
                        s: v,
                        buffers: self.buffers,
                    })?;
                    self.state = BytesState::Poisoned { s: seq };
                    Ok(())
                }
            },""", """        match &mut self.state {
            BytesState::Bytes { s, data, len } => {
                if let Ok(b) = v.serialize(SeqElementSerializer {}) {
                    if data.is_empty() {
                        data.push(engine::BINARY_HEADER);
                    }
                    data.push(b);
                    return Ok(());
                }
                // The data isn't all u8's
                let serializer = s.take().unwrap();
                let mut seq = serializer.serialize_seq(*len)?;
                // The first byte is the engine.io header, not an element
                for byte in data.iter().skip(1) {
                    seq.serialize_element(byte)?;
                }
                let element = Wrapper {
                    s: v,
                    buffers: self.buffers,
                };
                seq.serialize_element(&element)?;
                self.state = BytesState::Poisoned { s: seq };
                Ok(())
            }""")],
'r37': [(P+'socket/args/serialize_attachments.rs', """            BytesState::Bytes { s, data, len: _ } => {
                if data.is_empty() {
                    let seq = s.unwrap().serialize_seq(Some(0))?;
                    seq.end()
                } else {
                    let mut buffers = self.buffers.borrow_mut();
                    let idx = buffers.len();
                    buffers.push(engine::package_binary(data));
                    Placeholder::new(idx).serialize(s.unwrap())
                }
            }""", """            BytesState::Bytes { s, data, .. } if data.is_empty() => {
                s.unwrap().serialize_seq(Some(0))?.end()
            }
            BytesState::Bytes { s, data, .. } => {
                let serializer = s.unwrap();
                let mut buffers = self.buffers.borrow_mut();
                let placeholder = Placeholder::new(buffers.len());
                buffers.push(engine::package_binary(data));
                drop(buffers);
                placeholder.serialize(serializer)
            }""")],
'r38': [(P+'socket/args/serialize_attachments.rs', """    let refcell = RefCell::new(buffers);
    let wrapped = Wrapper {
        s: serializer,
        buffers: &refcell,
    };
    arg.serialize(wrapped)""", """    let buffers = &RefCell::new(buffers);
    arg.serialize(Wrapper {
        s: serializer,
        buffers,
    })"""), (P+'socket/args/serialize_attachments.rs', """        self.s
            .serialize_entry(&self.transform(k), &self.transform(v))""", """        let key = self.transform(k);
        let value = self.transform(v);
        self.s.serialize_entry(&key, &value)""")],
'r39': [(C+'callbacks.rs', """        self.get_or_create_namespace(namespace)
            .acks
            .insert(id, callback.into());""", """        let callback = callback.into();
        let ns = self.get_or_create_namespace(namespace);
        let _previous = ns.acks.insert(id, callback);"""), (C+'callbacks.rs', """        let ns = self.namespaces.get(namespace)?;
        ns.events
            .get(event)
            .or_else(|| ns.fallback.as_ref())
            .map(EventCallback::clone)""", """        self.namespaces.get(namespace).and_then(|ns| {
            ns.events.get(event).or(ns.fallback.as_ref()).cloned()
        })""")],
'r40': [(P+'engine.rs', """            '2' => {
                if self.state == State::Initial {
                    Err(Error::MessageBeforeOpen)
                } else {
                    Ok(Packet::Ping)
                }
            }
            '3' => {
                if self.state == State::Initial {
                    Err(Error::MessageBeforeOpen)
                } else {
                    Ok(Packet::Pong)
                }
            }
""", """            c @ '2' | c @ '3' => match self.state {
                State::Initial => Err(Error::MessageBeforeOpen),
                _ if c == '2' => Ok(Packet::Ping),
                _ => Ok(Packet::Pong),
            },
""")],

# ---- fourth batch
'r41': [(P+'engine.rs', """        if self.state == State::Closed {
            return Err(Error::MessageAfterClose);
        }
        match msg {
            Ping(_)""", """        let closed = self.state == State::Closed;
        match msg {
            _ if closed => Err(Error::MessageAfterClose),
            Ping(_)""")],
'r42': [(P+'engine.rs', """    let mut vec = Vec::with_capacity(data.len() + 1);
    vec.push(4);
    vec.extend_from_slice(data);
    package_binary(vec)""", """    let mut framed = vec![BINARY_HEADER];
    framed.extend_from_slice(data);
    package_binary(framed)"""), (P+'engine.rs', """    package_message(format!("{}{}", MESSAGE_HEADER, text))""", """    let mut framed = String::with_capacity(text.len() + 1);
    framed.push(MESSAGE_HEADER);
    framed.push_str(text);
    package_message(framed)""")],
'r43': [(P+'socket/de.rs', """    Ok(args
        .iter()
        .map(|x| {
            let start = x.get().as_ptr() as usize - arg_str.as_ptr() as usize;
            let end = start + x.get().len();
            Range { start, end }
        })
        .collect())""", """    let base = arg_str.as_ptr() as usize;
    let mut ranges = Vec::with_capacity(args.len());
    for x in args.iter() {
        let start = x.get().as_ptr() as usize - base;
        ranges.push(start..start + x.get().len());
    }
    Ok(ranges)"""), (P+'socket/de.rs', """    digits
        .parse::<u64>()
        .map_err(|_| Error::InvalidMessage(message.to_string()))""", """    match digits.parse() {
        Ok(n) => Ok(n),
        Err(_) => Err(Error::InvalidMessage(message.to_string())),
    }""")],
'r44': [(P+'socket/de.rs', """    if (kind == Kind::Ack && parse.id.is_none()) || (kind == Kind::Event && parse.args.is_empty())
    {
        return Err(Error::MissingData(name, parse.message.to_string()));
    }
    if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
        return Err(Error::InvalidAttachmentCount(
            attachments.len() as u64,
            parse.attachments.unwrap_or(0),
        ));
    }""", """    let missing = match kind {
        Kind::Ack => parse.id.is_none(),
        Kind::Event => parse.args.is_empty(),
        _ => false,
    };
    if missing {
        return Err(Error::MissingData(name, parse.message.to_string()));
    }
    let expected = parse.attachments.unwrap_or(0);
    let received = attachments.len() as u64;
    if received != expected {
        return Err(Error::InvalidAttachmentCount(received, expected));
    }""")],
'r45': [(P+'socket/de.rs', """    let attachments = attachments
        .into_iter()
        .map(|x| match x {
            EngineMessage::Text(text) => Err(Error::TextAttachment(text.to_string())),
            EngineMessage::Binary(data) => Ok(data),
        })
        .collect::<Result<_, _>>()?;
    match parse.kind {""", """    let mut data = Vec::new();
    for attachment in attachments {
        match attachment {
            EngineMessage::Binary(bytes) => data.push(bytes),
            EngineMessage::Text(text) => return Err(Error::TextAttachment(text.to_string())),
        }
    }
    let attachments = data;
    match parse.kind {""")],
'r46': [(P+'socket/args/mod.rs', """        Array(values) => {
            return values
                .iter_mut()
                .map(|x| fill_placeholders_value(x, buffers))
                .collect();
        }""", """        Array(values) => {
            for x in values.iter_mut() {
                fill_placeholders_value(x, buffers)?;
            }
            return Ok(());
        }"""), (P+'socket/args/mod.rs', """    let buffer = buffers
        .get(idx as usize)
        .ok_or_else(|| Error::PlaceholderIndexOutOfRange(idx, buffers.len() as u64))?;
    *value""", """    let buffer = match buffers.get(idx as usize) {
        Some(buffer) => buffer,
        None => return Err(Error::PlaceholderIndexOutOfRange(idx, buffers.len() as u64)),
    };
    *value""")],
'r47': [(P+'socket/args/mod.rs', """        let item = self.args.get(self.idx);
        self.idx += 1;
        item""", """        let item = self.args.get(self.idx)?;
        self.idx += 1;
        Some(item)"""), (P+'socket/args/mod.rs', """        let mut first = true;
        for arg in self.iter() {
            if !first {
                write!(f, ", ")?;
            }
            first = false;
            write!(f, "{}", arg)?;
        }""", """        for (i, arg) in self.iter().enumerate() {
            if i > 0 {
                write!(f, ", ")?;
            }
            write!(f, "{}", arg)?;
        }""")],
'r48': [(C+'callbacks.rs', """        let ns = self.namespaces.get_mut(namespace)?;
        ns.acks.remove(&id)""", """        self.namespaces
            .get_mut(namespace)
            .and_then(|ns| ns.acks.remove(&id))"""), (C+'callbacks.rs', """        if let Some(ns) = self.namespaces.get_mut(namespace) {
            ns.events.remove(event);
        }""", """        match self.namespaces.get_mut(namespace) {
            Some(ns) => {
                ns.events.remove(event);
            }
            None => {}
        }"""), (C+'callbacks.rs', """        self.get_or_create_namespace(namespace).fallback = Some(callback.into());""", """        let callback = callback.into();
        let ns = self.get_or_create_namespace(namespace);
        ns.fallback = Some(callback);""")],
'r49': [(C+'receiver.rs', """                match self.in_progress.take() {
                    Some(mut ip) => {
                        ip.add(msg);
                        if ip.ready() {
                            let packet = ip.deserialize()?;
                            self.process_packet(packet)?;
                        } else {
                            self.in_progress = Some(ip);
                        }
                        Ok(())
                    }
                    None => match socket::deserialize(msg)? {
                        DeserializeResult::Packet(packet) => self.process_packet(packet),
                        DeserializeResult::DataNeeded(partial) => {
                            self.in_progress = Some(InProgress::new(partial));
                            Ok(())
                        }
                    },
                }""", """                if let Some(mut ip) = self.in_progress.take() {
                    ip.add(msg);
                    if !ip.ready() {
                        self.in_progress = Some(ip);
                        return Ok(());
                    }
                    let packet = ip.deserialize()?;
                    return self.process_packet(packet);
                }
                match socket::deserialize(msg)? {
                    DeserializeResult::Packet(packet) => self.process_packet(packet),
                    DeserializeResult::DataNeeded(partial) => {
                        self.in_progress = Some(InProgress::new(partial));
                        Ok(())
                    }
                }""")],
'r50': [(C+'receiver.rs', """                let event = args
                    .get(0)
                    .ok_or_else(|| Error::EventNoArgs(packet.clone()))?;
                let event: Cow<'_, str> = event.deserialize()?;
                let ack""", """                let event = event_name(&args, &packet)?;
                let ack"""), (C+'receiver.rs', """impl InProgress {
    fn new(""", """fn event_name<'a>(args: &socket::Args<'a>, packet: &Packet) -> Result<Cow<'a, str>, Error> {
    let event = args
        .get(0)
        .ok_or_else(|| Error::EventNoArgs(packet.clone()))?;
    Ok(event.deserialize()?)
}

impl InProgress {
    fn new("""), (C+'receiver.rs', """                if let Some(cb) = cb {
                    cb.call(&args);
                } else {
                    return Err(Error::UnexpectedAck(packet.clone()));
                }""", """                match cb {
                    Some(cb) => cb.call(&args),
                    None => return Err(Error::UnexpectedAck(packet.clone())),
                }""")],
'r51': [(C+'emit.rs', """        let id = self.client.next_id;
        self.client.next_id += 1;
        self.callback""", """        let id = self.client.take_id();
        self.callback"""), (C+'lib.rs', """    pub async fn close(&mut self)""", """    /// The next id for an event with a callback
    pub(crate) fn take_id(&mut self) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        id
    }

    pub async fn close(&mut self)""")],
'r52': [(C+'emit.rs', """        let _ = self.client.send.unbounded_send(packets); // TODO: Determine if we care about the result.""", """        queue(&self.client.send, packets);"""), (C+'emit.rs', """        let _ = self.send.unbounded_send(packets); // TODO: Determine if we care about the result.
    }
}""", """        queue(&self.send, packets);
    }
}

fn queue(send: &mpsc::UnboundedSender<Vec<WsMessage>>, packets: Vec<WsMessage>) {
    let _ = send.unbounded_send(packets); // TODO: Determine if we care about the result.
}""")],
'r53': [(C+'lib.rs', """    url.query_pairs_mut()
        .append_pair("EIO", "4")
        .append_pair("transport", "websocket");""", """    let mut pairs = url.query_pairs_mut();
    pairs.append_pair("EIO", "4");
    pairs.append_pair("transport", "websocket");"""), (C+'lib.rs', """    url.set_scheme(scheme).unwrap();
    let _ = url.host().ok_or(UrlError::NoHost)?;
""", """    if url.host().is_none() {
        return Err(UrlError::NoHost);
    }
    url.set_scheme(scheme).unwrap();
""")],
'r54': [(C+'connection.rs', """                    match msg {
                        Ok(msg) => receiver.process_websocket_packet(msg)?,
                        Err(e) => return Err(e.into()),
                    }""", """                    receiver.process_websocket_packet(msg?)?;""")],
'r55': [(C+'connection.rs', """        loop {
            match ws_stream.next().await {
                Some(Ok(msg)) => receiver.process_websocket_packet(msg)?,
                Some(Err(e)) => return Err(e.into()),
                None => return Ok(()), // Connection closed without errors
            }
        }""", """        while let Some(msg) = ws_stream.next().await {
            receiver.process_websocket_packet(msg?)?;
        }
        Ok(()) // Connection closed without errors""")],
'r56': [(P+'socket/ser.rs', """        if self.first {
            write!(cursor, "[").unwrap();
            self.first = false;
        } else {
            write!(cursor, ",").unwrap();
        }""", """        let separator = if self.first { '[' } else { ',' };
        write!(cursor, "{}", separator).unwrap();
        self.first = false;""")],
'r57': [(P+'socket/ser.rs', """    let mut header = vec![ENGINE_MESSAGE_HEADER as u8];
""", """    let mut header = String::new();
    header.push(ENGINE_MESSAGE_HEADER);
"""), (P+'socket/ser.rs', """    write!(header, "{}", kind).unwrap();
    if let Some(attachments) = attachments {
        write!(header, "{}-", attachments).unwrap();
    }
    if namespace != "/" {
        write!(header, "{},", namespace).unwrap();
    }
    if let Some(id) = id {
        write!(header, "{}", id).unwrap();
    }
    unsafe { String::from_utf8_unchecked(header) }""", """    header.push(kind);
    if let Some(attachments) = attachments {
        header.push_str(&attachments.to_string());
        header.push('-');
    }
    if namespace != "/" {
        header.push_str(namespace);
        header.push(',');
    }
    if let Some(id) = id {
        header.push_str(&id.to_string());
    }
    header""")],
'r58': [(P+'socket/ser.rs', """        let namespace = namespace.into();
        if !binary {
            let buffer = serialize_header(kind, None, &*namespace, id).into_bytes();
            PacketBuilder {
                buffer,
                approach: Approach::Normal,
                first: true,
            }
        } else {
            let buffer = Vec::new();
            let namespace = if &*namespace == "/" {
                Cow::Borrowed("/")
            } else {
                Cow::Owned(namespace.into_owned())
            };
            PacketBuilder {
                buffer,
                approach: Approach::Binary {
                    kind,
                    namespace,
                    id,
                    attachments: Vec::new(),
                },
                first: true,
            }
        }""", """        let namespace = namespace.into();
        let (buffer, approach) = if binary {
            let approach = Approach::Binary {
                kind,
                namespace: Cow::Owned(namespace.into_owned()),
                id,
                attachments: Vec::new(),
            };
            (Vec::new(), approach)
        } else {
            let header = serialize_header(kind, None, &*namespace, id);
            (header.into_bytes(), Approach::Normal)
        };
        PacketBuilder {
            buffer,
            approach,
            first: true,
        }""")],
'r59': [(P+'socket/args/serialize_attachments.rs', """        let mut buffers = self.buffers.borrow_mut();
        let idx = buffers.len();
        buffers.push(engine::encode_binary(bytes));
        Placeholder::new(idx).serialize(self.s)""", """        let idx = self.store(bytes);
        Placeholder::new(idx).serialize(self.s)"""), (P+'socket/args/serialize_attachments.rs', """impl<'a, S> Wrapper<'a, S> {
    fn transform""", """impl<'a, S> Wrapper<'a, S> {
    /// Adds the bytes to the attachments, and returns their index
    fn store(&self, bytes: &[u8]) -> usize {
        let mut buffers = self.buffers.borrow_mut();
        buffers.push(engine::encode_binary(bytes));
        buffers.len() - 1
    }

    fn transform""")],
'r60': [('owned_subslice/src/lib.rs', """        &self.data[self.range.clone()]
    }
}

impl<S> DerefMut""", """        let range = self.range.start..self.range.end;
        &self.data[range]
    }
}

impl<S> DerefMut"""), ('owned_subslice/src/lib.rs', """        let start = self.range.start.saturating_add(range.start);
        let end = std::cmp::min(self.range.start.saturating_add(range.end), self.range.end);
        OwnedSubslice {
            data: self.data,
            range: Range { start, end },
        }""", """        let OwnedSubslice {
            data,
            range: outer,
        } = self;
        let start = outer.start.saturating_add(range.start);
        let wanted = outer.start.saturating_add(range.end);
        let end = if wanted < outer.end { wanted } else { outer.end };
        OwnedSubslice::new(data, start..end)""")],
'r61': [(C+'connection.rs', """        let mut next = stream.next().fuse();
        let mut closed = close.fuse();
        loop {""", """        let mut closed = close.fuse();
        let mut next = stream.next().fuse();
        loop {"""), (C+'connection.rs', """                    let msgs = match result {
                        Some(msg) => msg,
                        None => panic!("Sending stream closed unexpectedly"),
                    };
                    for msg in msgs.into_iter() {
                        log::trace!("Sending websocket packet: {:?}", msg);
                        match sink.send(msg).await {
                            Ok(()) => (),
                            Err(e) => return Err(e.into()),
                        }
                    }""", """                    let msgs = match result {
                        Some(msgs) => msgs,
                        None => panic!("Sending stream closed unexpectedly"),
                    };
                    for msg in msgs {
                        log::trace!("Sending websocket packet: {:?}", msg);
                        if let Err(e) = sink.send(msg).await {
                            return Err(e.into());
                        }
                    }""")],
'r62': [(C+'emit.rs', """        if let Some((callback, id)) = self.callback {
            self.client
                .callbacks
                .lock()
                .unwrap()
                .set_ack(self.namespace, id, callback);
        }""", """        match self.callback {
            Some((callback, id)) => {
                let mut callbacks = self.client.callbacks.lock().unwrap();
                callbacks.set_ack(self.namespace, id, callback);
            }
            None => {}
        }""")],
}
