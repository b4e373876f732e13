"""A second batch, written from the statements alone: unusual breakages, and unusual but harmless edits (expect [])."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def B(name, exp, *edits, also=()): MUTS.append((name, exp.split(), list(edits), exp.split() + list(also)))
def Q(name, checks, *edits): MUTS.append(("q-" + name, [], list(edits), checks.split()))

SOCKW = """                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())"""
SOCKR = """                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())"""
# ---- framing
B('line-limit', 'C02', (MSG, 'if inp.read_line(&mut buf)? == 0 {', 'if io::BufRead::read_line(&mut io::Read::take(&mut *inp, 8192), &mut buf)? == 0 {'))
B('size-limit', 'C02', (MSG, '    let mut buf = buf.into_bytes();\n', '    if size > 64 << 20 {\n        return Err(invalid_data!("message too large"));\n    }\n    let mut buf = buf.into_bytes();\n'))
B('size-zero-none', 'C02', (MSG, '    let mut buf = buf.into_bytes();\n', '    if size == 0 {\n        return Ok(None);\n    }\n    let mut buf = buf.into_bytes();\n'))
B('bom', 'C02', (MSG, 'serde_json::from_str(&text)?', 'serde_json::from_str(text.trim_start_matches(\'\\u{feff}\'))?'))
B('unchecked-utf8', 'C02 C15', (MSG, 'String::from_utf8(buf).map_err(invalid_data)?', 'unsafe { String::from_utf8_unchecked(buf) }'))
B('interrupted-none', 'C02', (MSG, '    inp.take(size as u64).read_to_end(&mut buf)?;', '    match inp.take(size as u64).read_to_end(&mut buf) {\n        Ok(_) => (),\n        Err(e) if e.kind() == io::ErrorKind::ConnectionReset => return Ok(None),\n        Err(e) => return Err(e),\n    }'))
B('header-semicolon', 'C02', (MSG, 'header_value.parse::<usize>()', 'header_value.split(\';\').next().unwrap_or(header_value).parse::<usize>()'))
B('header-trim', 'C02', (MSG, 'header_value.parse::<usize>()', 'header_value.trim().parse::<usize>()'))
B('header-trim-line', 'C02', (MSG, '        if buf.is_empty() {', '        let buf = buf.trim();\n        if buf.is_empty() {'))
B('header-first-char-comment', 'C02', (MSG, '        if buf.is_empty() {\n            break;\n        }', '        if buf.is_empty() {\n            break;\n        }\n        if buf.starts_with(\'#\') {\n            continue;\n        }'))
B('parse-i64', 'C02', (MSG, 'header_value.parse::<usize>().map_err(invalid_data)?', 'header_value.parse::<i64>().map_err(invalid_data)? as usize'))
B('parse-u32', 'C02', (MSG, 'header_value.parse::<usize>().map_err(invalid_data)?', 'header_value.parse::<u32>().map_err(invalid_data)? as usize'))
B('cl-duplicate-error', 'C02', (MSG, '        if header_name == "Content-Length" {', '        if header_name == "Content-Length" && size.is_some() {\n            return Err(invalid_data!("repeated Content-Length"));\n        }\n        if header_name == "Content-Length" {'))
B('jsonl-peek', 'C02', (MSG, '    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))', '    if inp.fill_buf()?.first() == Some(&b\'\\n\') {\n        inp.consume(1);\n    }\n    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))'))
B('blank-lead', 'C02', (MSG, '        if buf.is_empty() {\n            break;\n        }', '        if buf.is_empty() {\n            if size.is_none() {\n                continue;\n            }\n            break;\n        }'))
B('stream-deser', 'C02', (MSG, 'let msg = serde_json::from_str(&text)?;', 'let msg: Message = match serde_json::Deserializer::from_str(&text).into_iter().next() {\n            Some(m) => m?,\n            None => return Ok(None),\n        };'))
B('write-crlf-tail', 'C01', (MSG, 'w.write_all(msg.as_bytes())?;', 'w.write_all(msg.as_bytes())?;\n        w.write_all(b"\\r\\n")?;'))
B('write-twice', 'C01 C11', (MSG, '        w.flush()?;\n        Ok(())', '        match w.flush() {\n            Err(e) if e.kind() == io::ErrorKind::Interrupted => w.write_all(msg.as_bytes())?,\n            r => r?,\n        }\n        Ok(())'))
B('write-to-string-notrpc', 'C01', (MSG, 'let msg = serde_json::to_string(&JsonRpc::from(self))?;', 'let msg = match &self {\n            Message::Response(r) if r.error.is_some() => serde_json::to_string(r)?,\n            _ => serde_json::to_string(&JsonRpc::from(self))?,\n        };'))
B('write-empty-skip', 'C11 C01', (MSG, '        let msg = serde_json::to_string(&JsonRpc::from(self))?;', '        if let Message::Response(Response { result: None, error: None, .. }) = &self {\n            return Ok(());\n        }\n        let msg = serde_json::to_string(&JsonRpc::from(self))?;'))
B('write-json-error-skip', 'C11', (MSG, '        let msg = serde_json::to_string(&JsonRpc::from(self))?;', '        let msg = match serde_json::to_string(&JsonRpc::from(self)) {\n            Ok(msg) => msg,\n            Err(e) if e.is_data() => return Ok(()),\n            Err(e) => return Err(e.into()),\n        };'))
B('write-wouldblock', 'C11', (MSG, '        w.flush()?;\n        Ok(())', '        match w.flush() {\n            Err(e) if e.kind() == io::ErrorKind::WouldBlock => Ok(()),\n            r => r,\n        }'))
B('escape-slash', 'C01', (MSG, '        write!(w, "Content-Length', '        let msg = msg.replace("\\u{7f}", "");\n        write!(w, "Content-Length'))
# ---- threads
B('writer-try-iter', 'C11', (TR, SOCKW, SOCKW.replace('.into_iter()', '.try_iter()')))
B('writer-broken-pipe-ok', 'C11', (TR, SOCKW, SOCKW.replace('.try_for_each(|it| it.write(&mut stream))?;\n                Ok(())', '.try_for_each(|it| it.write(&mut stream))\n                    .or_else(|e| if e.kind() == io::ErrorKind::BrokenPipe { Ok(()) } else { Err(e) })')))
B('writer-filter', 'C11', (TR, SOCKW, SOCKW.replace('.into_iter()', '.into_iter()\n                    .filter(|it| !matches!(it, Message::Notification(Notification::Custom("", _))))')))
B('writer-skip1', 'C11', (TR, SOCKW, SOCKW.replace('.into_iter()', '.into_iter()\n                    .skip(0)\n                    .take(1 << 20)')))
B('writer-peek-batch', 'C11', (TR, SOCKW, """                while let Ok(first) = writer_receiver.recv() {
                    let mut batch = vec![first];
                    batch.extend(writer_receiver.try_iter());
                    while let Some(it) = batch.pop() {
                        it.write(&mut stream)?;
                    }
                }
                Ok(())"""))
B('writer-shutdown-sock', 'C11 C01', (TR, SOCKW, SOCKW.replace('|it| it.write(&mut stream)', '|it| {\n                        let last = matches!(it, Message::Notification(Notification::Exit));\n                        it.write(&mut stream)?;\n                        if last {\n                            stream.shutdown(std::net::Shutdown::Write)?; \n                        }\n                        Ok::<(), io::Error>(())\n                    }')))
B('reader-reset-ok', 'C02 C10', (TR, SOCKR, SOCKR.replace('while let Some(msg) = Message::read(&mut buf_read)? {', 'while let Some(msg) = match Message::read(&mut buf_read) {\n                    Err(e) if e.kind() == io::ErrorKind::ConnectionReset => None,\n                    r => r?,\n                } {')))
B('reader-dedup', 'C10', (TR, SOCKR, 'let mut last = String::new();\n' + SOCKR.replace('reader_sender.send(msg)', 'let text = format!("{:?}", msg);\n                    if text == last {\n                        continue;\n                    }\n                    last = text;\n                    reader_sender.send(msg)')))
B('reader-skip-custom', 'C10', (TR, SOCKR, SOCKR.replace('                    reader_sender.send(msg)', '                    if let Message::Notification(Notification::Custom(m, _)) = &msg {\n                        if m.starts_with("$/") {\n                            continue;\n                        }\n                    }\n                    reader_sender.send(msg)')))
B('reader-is-full', 'C10', (TR, SOCKR, SOCKR.replace('                    reader_sender.send(msg)', '                    if reader_sender.is_full() && matches!(msg, Message::Notification(_)) && !is_exit {\n                        continue;\n                    }\n                    reader_sender.send(msg)')))
B('reader-limit', 'C10', (TR, SOCKR, SOCKR.replace('while let Some(msg) = Message::read(&mut buf_read)? {', 'for _ in 0..u16::MAX {\n                    let Some(msg) = Message::read(&mut buf_read)? else { break };')))
B('reader-disconnected-ok', 'C10', (TR, SOCKR, SOCKR.replace('reader_sender.send(msg).map_err(disconnected)?;', 'if reader_sender.send(msg).is_err() {\n                        break;\n                    }')))
B('reader-exit-after-shutdown', 'C10', (TR, SOCKR, 'let mut asked = false;\n' + SOCKR.replace('                    reader_sender.send(msg)', '                    asked |= matches!(&msg, Message::Request(crate::Request::Shutdown(_)));\n                    reader_sender.send(msg)').replace('if is_exit {', 'if is_exit && asked {')))
B('reader-send-2nd-order', 'C10', (TR, SOCKR, 'let mut held: Option<Message> = None;\n' + SOCKR.replace('                    reader_sender.send(msg).map_err(disconnected)?;', '                    if !is_exit && held.is_none() && matches!(&msg, Message::Response(_)) {\n                        held = Some(msg);\n                        continue;\n                    }\n                    reader_sender.send(msg).map_err(disconnected)?;\n                    if let Some(h) = held.take() {\n                        reader_sender.send(h).map_err(disconnected)?;\n                    }')))
B('listen-flatten', 'C12', (LIB, '        let (stream, _) = listener.accept()?;', '        let stream = listener.incoming().flatten().next().unwrap();'))
B('connect-first-addr-local', 'C12', (LIB, 'let stream = TcpStream::connect(addr)?;', 'let stream = TcpStream::connect(addr).or_else(|_| TcpStream::connect("127.0.0.1:3000"))?;'))
B('memory-loop', 'C12', (LIB, 'receiver: r2,', 'receiver: r1.clone(),'))
B('memory-bounded', 'C12', (LIB, 'let ((s1, r1), (s2, r2)) = (unbounded(), unbounded());', 'let ((s1, r1), (s2, r2)) = (unbounded(), crossbeam_channel::bounded(1024));'))
B('handles-swapped', 'C12 C13', (TR, 'IoThreads::new(reader, writer)', 'IoThreads::new(writer, reader)'))
B('join-finished', 'C13', (IO, '        match self.writer.join() {', '        if !self.writer.is_finished() {\n            return Ok(());\n        }\n        match self.writer.join() {'))
B('join-reset-ok', 'C13', (IO, '            Ok(r) => r?,', '            Ok(Err(e)) if e.kind() == io::ErrorKind::ConnectionReset => (),\n            Ok(r) => r?,'))
B('join-writer-first-and', 'C13', (IO, '            Ok(r) => r,\n', '            Ok(r) => r.or(Ok(())),\n'))
B('join-panic-err', 'C13', (IO, '                eprintln!("writer panicked!");\n                std::panic::panic_any(err);', '                eprintln!("writer panicked!");\n                drop(err);\n                Err(io::ErrorKind::Other.into())'))
B('dev-stdout', 'C14', (IO, '                eprintln!("reader panicked!");', '                let _ = std::fs::write("/dev/stdout", "reader panicked!");'))
B('fd1', 'C14', (IO, '                eprintln!("reader panicked!");', '                use std::os::fd::FromRawFd;\n                let _ = io::Write::write_all(&mut unsafe { std::fs::File::from_raw_fd(1) }, b"reader panicked!");'))
B('stdout-helper', 'C14', (ERR, 'impl std::error::Error for ProtocolError {}', 'impl std::error::Error for ProtocolError {}\n\nimpl ProtocolError {\n    /// Show the error.\n    pub fn report(&self) {\n        let mut o = std::io::stdout();\n        let _ = std::io::Write::write_all(&mut o, self.0.as_bytes());\n    }\n}'))
B('child-process', 'C14', (LIB, '        let Transporter(sender, receiver, io_threads) = Transporter::stdio();', '        let _ = std::process::Command::new("true").status();\n        let Transporter(sender, receiver, io_threads) = Transporter::stdio();'))
# ---- handshake, shutdown
B('init-refuse-once', 'C07', (LIB, '    fn initialize_start(&self) -> Result<(RequestId, InitializeBuild), ProtocolError> {\n        loop {', '    fn initialize_start(&self) -> Result<(RequestId, InitializeBuild), ProtocolError> {\n        let mut refused = std::collections::HashSet::new();\n        loop {'), (LIB, '                    self.sender\n                        .send(Response::server_not_initialized', '                    if !refused.insert(req.id().clone()) {\n                        continue;\n                    }\n                    self.sender\n                        .send(Response::server_not_initialized'))
B('init-params-normalised', 'C07', (LIB, '                    return Ok((id, params));', '                    let mut params = params;\n                    if params.display_name().is_empty() {\n                        params.set_display_name("unknown".into());\n                    }\n                    return Ok((id, params));'))
B('init-drain', 'C07', (LIB, '        let resp = Response::ok(initialize_id, initialize_result);', '        while self.receiver.try_recv().is_ok() {}\n        let resp = Response::ok(initialize_id, initialize_result);'))
B('init-notif-pre', 'C07', (LIB, '                    tracing::warn!("not initialized, dropping {:?}", notification);', '                    tracing::warn!("not initialized, dropping {:?}", notification);\n                    if matches!(notification, Notification::Initialized) {\n                        return Err(ProtocolError("initialized before initialize".into()));\n                    }'))
B('init-answer-null', 'C07', (LIB, '        let resp = Response::ok(initialize_id, initialize_result);', '        let mut resp = Response::ok(initialize_id, initialize_result);\n        if resp.result == Some(serde_json::json!({})) {\n            resp.result = None;\n        }'))
B('shutdown-deadline-accum', 'C08', (LIB, 'self.receiver.recv_timeout(Duration::from_secs(30))', 'self.receiver.recv_timeout(Duration::from_secs(30).saturating_mul(2))'))
B('shutdown-skip-notif', 'C08', (LIB, '                Ok(Message::Notification(Notification::Exit)) => (),\n                Ok(msg) => {\n                    let msg = format!("unexpected message during', '                Ok(Message::Notification(Notification::Exit)) => (),\n                Ok(Message::Notification(Notification::Custom(..))) => (),\n                Ok(msg) => {\n                    let msg = format!("unexpected message during'))
B('shutdown-disconnected-ok', 'C08', (LIB, '                Err(e) => {\n                    let msg = format!("unexpected error during', '                Err(e) if e.is_disconnected() => (),\n                Err(e) => {\n                    let msg = format!("unexpected error during'))
B('shutdown-string-result', 'C08', (LIB, 'Response::ok(id.clone(), ())', 'Response::ok(id.clone(), "")'))
Q('shutdown-deadline', 'C08', (LIB, 'self.receiver.recv_timeout(Duration::from_secs(30))', 'self.receiver.recv_deadline(Instant::now() + Duration::from_secs(30))'))
Q('shutdown-millis', 'C08', (LIB, 'Duration::from_secs(30)', 'Duration::from_millis(30_000)'))
Q('shutdown-const', 'C08', (LIB, 'self.receiver.recv_timeout(Duration::from_secs(30))', 'self.receiver.recv_timeout(EXIT_TIMEOUT)'), (LIB, '/// Connection is just a pair', '/// How long to wait for exit.\nconst EXIT_TIMEOUT: Duration = Duration::from_secs(30);\n\n/// Connection is just a pair'))
Q('nodelay', 'C01 C02 C10 C11 C12', (LIB, '        let (stream, _) = listener.accept()?;', '        let (stream, _) = listener.accept()?;\n        stream.set_nodelay(true)?;'))
Q('bounded1', 'C01 C02 C10 C11 C12', (TR, '            let (reader_sender, reader_receiver) = bounded::<Message>(0);\n            let reader', '            let (reader_sender, reader_receiver) = bounded::<Message>(16);\n            let reader'))
Q('bufreader-cap', 'C01 C02 C10 C11 C12', (TR, 'io::BufReader::new(stream)', 'io::BufReader::with_capacity(64 * 1024, stream)'))
Q('resume-unwind', 'C13 C14', (IO, 'std::panic::panic_any(err)\n', 'std::panic::resume_unwind(err)\n'))
Q('named-threads', 'C01 C02 C10 C11 C12', (TR, '            let reader = thread::spawn(move || {\n                let mut buf_read', '            let reader = thread::Builder::new().name("bsp-reader".into()).spawn(move || {\n                let mut buf_read'), (TR, '                Ok(())\n            });\n            (reader_receiver, reader)', '                Ok(())\n            })?;\n            (reader_receiver, reader)'))
# ---- responses, ids, kinds
B('ok-lossy', 'C09', (RSP, 'result: Some(serde_json::to_value(result).unwrap()),', 'result: Some(serde_json::to_value(result).unwrap_or_default()),'))
B('err-trim', 'C09', (RSP, '            code,\n            message,\n            data: None,', '            code,\n            message: message.lines().next().unwrap_or_default().to_string(),\n            data: None,'))
B('id-u64', 'C24', (IDF, 'I32(i32),', 'I32(i32),\n    #[serde(skip_serializing)]\n    Long(i64),'), (IDF, '            IdRepr::I32(it) => fmt::Display::fmt(it, f),', '            IdRepr::I32(it) => fmt::Display::fmt(it, f),\n            IdRepr::Long(it) => fmt::Display::fmt(it, f),'))
B('id-eq-ci', 'C24 C27', (IDF, '#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]', '#[derive(Debug, Serialize, Deserialize, Clone, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]'), (IDF, 'impl From<i32> for RequestId', 'impl PartialEq for IdRepr {\n    fn eq(&self, o: &Self) -> bool {\n        match (self, o) {\n            (Self::I32(a), Self::I32(b)) => a == b,\n            (Self::String(a), Self::String(b)) => a.trim() == b.trim(),\n            _ => false,\n        }\n    }\n}\n\nimpl From<i32> for RequestId'))
B('id-parse', 'C24', (IDF, '        RequestId(IdRepr::String(id))', '        match id.parse() {\n            Ok(n) => RequestId(IdRepr::I32(n)),\n            Err(_) => RequestId(IdRepr::String(id)),\n        }'))
B('id-hash-display', 'C24', (IDF, 'PartialOrd, Ord, Hash)]\n#[serde(untagged)]', 'PartialOrd, Ord)]\n#[serde(untagged)]'), (IDF, 'impl From<i32> for RequestId', 'impl std::hash::Hash for IdRepr {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n        (self as *const Self as usize).hash(h)\n    }\n}\n\nimpl From<i32> for RequestId'))
B('msg-order', 'C06', (MSG, '    Request(Request),\n    Response(Response),\n    Notification(Notification),', '    Notification(Notification),\n    Request(Request),\n    Response(Response),'))
B('msg-skip', 'C06', (MSG, '    Response(Response),\n', '    #[serde(skip_deserializing)]\n    Response(Response),\n'))
B('leak-forget', 'C16', (TR, '                    reader_sender.send(msg)', '                    std::mem::forget(msg.clone());\n                    reader_sender.send(msg)'))
B('leak-manually', 'C16', (LIB, '        self.sender.send(msg.into())', '        let msg: Message = msg.into();\n        let _keep = std::mem::ManuallyDrop::new(msg.clone());\n        self.sender.send(msg)'))
B('history', 'C16', (TR, '                let mut buf_read = io::BufReader::new(stream);', '                let mut buf_read = io::BufReader::new(stream);\n                let mut seen = std::collections::BTreeSet::new();'), (TR, SOCKR, SOCKR.replace('                    reader_sender.send(msg)', '                    if let Message::Request(r) = &msg {\n                        seen.insert(r.id().clone());\n                    }\n                    reader_sender.send(msg)')))
# ---- payloads
B('alias', 'C17', (T+'bt_sources.rs', '    uri: Url,\n\n    /// Type of file', '    #[serde(alias = "path")]\n    uri: Url,\n\n    /// Type of file'))
B('ser-with-path', 'C17', (T+'bt_sources.rs', '    uri: Url,\n\n    /// Type of file', '    #[serde(serialize_with = "as_path")]\n    uri: Url,\n\n    /// Type of file'), (T+'bt_sources.rs', '#[derive(Debug, serde_repr::Des', 'fn as_path<S: serde::Serializer>(u: &Url, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_str(u.path())\n}\n\n#[derive(Debug, serde_repr::Des'))
B('de-dedup', 'C17', (T+'bt_sources.rs', 'pub struct BuildTargetSources {\n    targets', 'pub struct BuildTargetSources {\n    #[serde(deserialize_with = "unique")]\n    targets'), (T+'bt_sources.rs', '#[derive(Debug, serde_repr::Des', 'fn unique<\'de, D: serde::Deserializer<\'de>>(d: D) -> Result<Vec<BuildTargetIdentifier>, D::Error> {\n    let mut v = Vec::<BuildTargetIdentifier>::deserialize(d)?;\n    v.dedup();\n    Ok(v)\n}\n\n#[derive(Debug, serde_repr::Des'))
B('tag-trim', 'C19', (T+'bt_tag.rs', '        Ok(match tag.as_str() {', '        Ok(match tag.trim() {'))
B('tag-empty', 'C19', (T+'bt_tag.rs', '            _ => Self::Custom(tag),', '            "" => Self::NoIDE,\n            _ => Self::Custom(tag),'))
B('tag-ser-ci', 'C19', (T+'bt_tag.rs', '            Self::Custom(tag) => tag,', '            Self::Custom(tag) if tag.is_empty() => "no-ide",\n            Self::Custom(tag) => tag,'))
B('repr-u8', 'C19', (T+'bt_sources.rs', '    Directory = 2,', '    #[serde(other)]\n    Directory = 2,'))
B('time-sec', 'C26 C17', (T+'task/start.rs', '    pub event_time: Option<u64>,', '    #[serde(deserialize_with = "time")]\n    pub event_time: Option<u64>,'), (T+'task/start.rs', 'impl TaskStart {', 'fn time<\'de, D: serde::Deserializer<\'de>>(d: D) -> Result<Option<u64>, D::Error> {\n    Ok(Option::<f64>::deserialize(d)?.map(|t| t as u64))\n}\n\nimpl TaskStart {'))
B('parents-self', 'C20', (T+'task/id.rs', '        self.parents.push(value)', '        if !self.parents.contains(&value) {\n            self.parents.push(value)\n        }'))
B('parent-insert', 'C20', (T+'task/id.rs', '        self.parents.push(value)', '        self.parents.insert(0, value)'))
B('set-kind-generated', 'C20', (T+'bt_sources.rs', '        self.kind = kind;', '        self.generated = self.generated && matches!(kind, SourceKind::File);\n        self.kind = kind;'))
B('data-mut', 'C20', (T+'initialize_result.rs', '        &mut self.data\n', '        self.data.get_or_insert(Value::Null);\n        &mut self.data\n'))
B('new-simple-data', 'C20', (T+'initialize_result.rs', '            data: None,\n', '            data: Some(Value::Null),\n'))
B('log-error-warn', 'C20', (T+'log_message.rs', 'Self::new(MessageType::Error, msg', 'Self::new(MessageType::Warning, msg'))
B('handler-exit', 'C25', (T+'server.rs', '    fn on_initializtion(&self) {}', '    fn on_initializtion(&self) {\n        std::thread::sleep(std::time::Duration::from_secs(1));\n    }'))
B('handler-loop', 'C25', (T+'server.rs', '    fn on_initializtion(&self) {}', '    fn on_initializtion(&self) {\n        loop {}\n    }'))
B('custom-method-protocol', 'C03 C04', (REQ, '            Custom(_, m, _) => m,', '            Custom(_, m, _) => m.trim_end_matches(\'/\'),'))
B('req-dispatch-len', 'C03 C05', (REQ, '                Ok(match method.as_str() {\n                    "build/initialize"', '                let name = method.split(\'?\').next().unwrap_or("");\n                Ok(match name {\n                    "build/initialize"'))
B('req-params-array', 'C05', (REQ, '                let params = params.unwrap_or(serde_json::Value::Null);\n\n                Ok(', '                let mut params = params.unwrap_or(serde_json::Value::Null);\n                if let Value::Array(a) = &mut params {\n                    if a.len() == 1 {\n                        params = a.remove(0);\n                    }\n                }\n\n                Ok('))
B('req-null-dup', 'C05', (REQ, '                            if params.is_some() {', '                            if !matches!(params, None | Some(Value::Null)) {'))
B('notif-end', 'C04', (NOT, '            Exit | Initialized => {}', '            Exit | Initialized => obj.skip_field("params")?,'))
MUTS[-1] = ("q-notif-skip-field", [], MUTS[-1][2], ["C04"])
B('req-conv', 'C21', (REQ, 'Self::Request((v.0.into(), v.1, v.2).into())', 'if v.2.is_null() {\n            return Self::Notification(crate::Notification::Custom(v.1, v.2));\n        }\n        Self::Request((v.0.into(), v.1, v.2).into())'))
B('notif-eq-from', 'C21', (NOT, '        Self::Notification(Notification::Custom(v.0, v.1))', '        Self::Notification(match v.0 {\n            "build/exit" => Notification::Exit,\n            m => Notification::Custom(m, v.1),\n        })'))
B('try-send-retry', 'C23', (LIB, 'self.sender.try_send(msg.into())', 'match self.sender.try_send(msg.into()) {\n            Err(TrySendError::Full(m)) => self.sender.try_send(m),\n            r => r,\n        }'))
B('timeout-checked', 'C23', (LIB, 'self.sender.send_timeout(msg.into(), timeout)', 'self.sender.send_timeout(msg.into(), timeout.min(Duration::from_secs(3600)))'))
B('listen-unwrap', 'C12', (LIB, 'TcpListener::bind(addr)?', 'TcpListener::bind(addr).unwrap()'))
B('accept-loop', 'C12', (LIB, '        let (stream, _) = listener.accept()?;', '        let (stream, _) = loop {\n            if let Ok(s) = listener.accept() {\n                break s;\n            }\n        };'))
B('clone-expect', 'C12', (TR, '            let stream = stream.try_clone()?;', '            let stream = stream.try_clone().expect("clone");'))
B('connect-two', 'C12', (LIB, 'Transporter::socket(stream)?;', 'Transporter::socket(TcpStream::connect(stream.local_addr()?)?)?;'))
Q('listen-incoming', 'C01 C02 C10 C11 C12', (LIB, '        let (stream, _) = listener.accept()?;', '        let stream = listener.incoming().next().unwrap()?;'))
Q('listen-incoming-for', 'C01 C02 C10 C11 C12', (LIB, '        let (stream, _) = listener.accept()?;\n', '        for stream in listener.incoming() {\n            let stream = stream?;\n            let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;\n            return Ok((Connection { sender, receiver }, io_threads));\n        }\n        unreachable!()\n'),
  (LIB, '        unreachable!()\n        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;\n        Ok((Connection { sender, receiver }, io_threads))\n', '        unreachable!()\n'))
Q('connect-retry', 'C01 C02 C10 C11 C12', (LIB, 'let stream = TcpStream::connect(addr)?;', 'let addrs: Vec<_> = addr.to_socket_addrs()?.collect();\n        let stream = TcpStream::connect(&addrs[..]).or_else(|_| TcpStream::connect(&addrs[..]))?;'))
Q('connect-and-then', 'C01 C02 C10 C11 C12', (LIB, '''        let stream = TcpStream::connect(addr)?;
        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
        Ok((Connection { sender, receiver }, io_threads))''', '''        TcpStream::connect(addr)
            .and_then(Transporter::socket)
            .map(|Transporter(sender, receiver, io_threads)| (Connection { sender, receiver }, io_threads))'''))

# ---- the order of ids
def ORD(body):
    return (IDF, lambda s: s.replace('PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]', 'PartialEq, Eq, Hash)]\n#[serde(untagged)]') + '''
impl PartialOrd for IdRepr {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for IdRepr {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        match (self, other) {
''' + body + '''        }
    }
}
''', None)
Q('ord-ok', 'C24 C15', ORD('''            (IdRepr::I32(a), IdRepr::I32(b)) => a.cmp(b),
            (IdRepr::String(a), IdRepr::String(b)) => a.cmp(b),
            (IdRepr::I32(_), IdRepr::String(_)) => Less,
            (IdRepr::String(_), IdRepr::I32(_)) => Greater,
'''))
Q('ord-ok-reversed', 'C24', ORD('''            (IdRepr::I32(a), IdRepr::I32(b)) => b.cmp(a),
            (IdRepr::String(a), IdRepr::String(b)) => a.as_str().cmp(b.as_str()).reverse(),
            (IdRepr::I32(_), _) => Less,
            _ => Greater,
'''))
B('ord-asym', 'C24', ORD('''            (IdRepr::I32(a), IdRepr::I32(b)) => a.cmp(b),
            (IdRepr::String(a), IdRepr::String(b)) => a.cmp(b),
            _ => Less,
'''))
B('ord-len', 'C24', ORD('''            (IdRepr::I32(a), IdRepr::I32(b)) => a.cmp(b),
            (IdRepr::String(a), IdRepr::String(b)) => a.len().cmp(&b.len()),
            (IdRepr::I32(_), IdRepr::String(_)) => Less,
            (IdRepr::String(_), IdRepr::I32(_)) => Greater,
'''))
B('ord-text', 'C24', ORD('''            (IdRepr::I32(a), IdRepr::I32(b)) => a.cmp(b),
            (IdRepr::String(a), IdRepr::String(b)) => a.cmp(b),
            (IdRepr::I32(a), IdRepr::String(b)) => a.to_string().cmp(b),
            (IdRepr::String(a), IdRepr::I32(b)) => a.cmp(&b.to_string()),
'''))
B('ord-abs', 'C24', ORD('''            (IdRepr::I32(a), IdRepr::I32(b)) => a.unsigned_abs().cmp(&b.unsigned_abs()),
            (IdRepr::String(a), IdRepr::String(b)) => a.cmp(b),
            (IdRepr::I32(_), IdRepr::String(_)) => Less,
            (IdRepr::String(_), IdRepr::I32(_)) => Greater,
'''))

# ---- error causes
IO_='bsp-server/src/io_thread.rs'
B('cause-all-other', 'C29', (MSG, 'io::Error::new(io::ErrorKind::InvalidData, error)', 'io::Error::new(io::ErrorKind::Other, error)'))
B('cause-read-wrapped', 'C29', (MSG, 'if inp.read_line(&mut buf)? == 0 {', 'if inp.read_line(&mut buf).map_err(invalid_data)? == 0 {'))
B('cause-json-wrapped', 'C29', (MSG, 'let msg = serde_json::from_str(&text)?;', 'let msg = serde_json::from_str(&text).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;'))
B('cause-body-eof', 'C29', (MSG, '    inp.take(size as u64).read_to_end(&mut buf)?;', '    inp.take(size as u64)\n        .read_to_end(&mut buf)\n        .map_err(|_| io::Error::from(io::ErrorKind::UnexpectedEof))?;'))
B('cause-short-invalid', 'C29', (MSG, 'return Err(io::ErrorKind::UnexpectedEof.into());', 'return Err(invalid_data!("short body"));'))
B('cause-write-brokenpipe', 'C29', (MSG, '        w.flush()?;', '        w.flush().map_err(|e| io::Error::new(io::ErrorKind::BrokenPipe, e))?;'))
B('cause-flush-swallow-kind', 'C29', (TR, '.try_for_each(|it| it.write(&mut stream))?;', '.try_for_each(|it| it.write(&mut stream))\n                    .map_err(|e| io::Error::new(io::ErrorKind::Other, e.to_string()))?;'))
B('cause-join-other', 'C29', (IO_, 'Ok(r) => r?,', 'Ok(r) => r.map_err(|e| io::Error::new(io::ErrorKind::Other, format!("reader: {}", e)))?,'))
B('cause-connect', 'C29', (LIB, 'TcpStream::connect(addr)?', 'TcpStream::connect(addr).map_err(|_| io::Error::from(io::ErrorKind::NotConnected))?'))
B('cause-accept', 'C29', (LIB, 'listener.accept()?', 'listener.accept().map_err(|e| io::Error::new(io::ErrorKind::Other, e))?'))
Q('cause-context', 'C29 C02', (MSG, 'if inp.read_line(&mut buf)? == 0 {', 'if inp.read_line(&mut buf).map_err(|e| io::Error::new(e.kind(), format!("reading a header: {}", e)))? == 0 {'))
Q('cause-json-carried', 'C29 C02', (MSG, 'let msg = serde_json::from_str(&text)?;', 'let msg = serde_json::from_str(&text).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;'))
B('cause-json-dropped', 'C29', (MSG, 'let msg = serde_json::from_str(&text)?;', 'let msg = serde_json::from_str(&text).map_err(|_| invalid_data("malformed message"))?;'))
Q('cause-json-invalid', 'C29 C02', (MSG, 'let msg = serde_json::from_str(&text)?;', 'let msg = serde_json::from_str(&text).map_err(io::Error::from)?;'))
Q('cause-join-match', 'C29 C13', (IO_, 'Ok(r) => r?,', 'Ok(Ok(())) => (),\n            Ok(Err(e)) => return Err(e),'))
Q('cause-short-new', 'C29 C02', (MSG, 'return Err(io::ErrorKind::UnexpectedEof.into());', 'return Err(io::Error::new(io::ErrorKind::UnexpectedEof, format!("{} of {} bytes", buf.len(), size)));'))

# ---- sharing
B('share-cell-cache', 'C36', (T+'initialize_params.rs', lambda s: s.replace('    data: Option<Value>,\n}\n\nimpl', '    data: Option<Value>,\n    #[serde(skip)]\n    path: std::cell::OnceCell<PathBuf>,\n}\n\nimpl').replace('            data: data.into(),\n', '            data: data.into(),\n            path: Default::default(),\n').replace('            data: None,\n', '            data: None,\n            path: Default::default(),\n').replace('pub fn root_path(&self) -> PathBuf {\n        self.root_uri\n            .to_file_path()\n            .unwrap_or_else(|_| self.root_uri.path().into())', 'pub fn root_path(&self) -> PathBuf {\n        self.path\n            .get_or_init(|| {\n                self.root_uri\n                    .to_file_path()\n                    .unwrap_or_else(|_| self.root_uri.path().into())\n            })\n            .clone()'), None))
B('share-conn-cell', 'C36', (LIB, lambda s: s.replace('    pub receiver: Receiver<Message>,\n}', '    pub receiver: Receiver<Message>,\n    down: std::cell::Cell<bool>,\n}').replace('Connection { sender, receiver }', 'Connection { sender, receiver, down: Default::default() }').replace('receiver: r2,\n', 'receiver: r2,\n                down: Default::default(),\n').replace('receiver: r1,\n', 'receiver: r1,\n                down: Default::default(),\n').replace('            Ok(true)\n', '            self.down.set(true);\n            Ok(true)\n'), None))
B('share-conn-unsafe', 'C36', (LIB, lambda s: s.replace('    pub receiver: Receiver<Message>,\n}', '    pub receiver: Receiver<Message>,\n    down: std::cell::Cell<bool>,\n}\n\nunsafe impl Sync for Connection {}\n').replace('Connection { sender, receiver }', 'Connection { sender, receiver, down: Default::default() }').replace('receiver: r2,\n', 'receiver: r2,\n                down: Default::default(),\n').replace('receiver: r1,\n', 'receiver: r1,\n                down: Default::default(),\n').replace('            Ok(true)\n', '            self.down.set(true);\n            Ok(true)\n'), None))
B('share-err-rc', 'C36', (ERR, lambda s: s.replace('pub struct ProtocolError(pub(crate) String);', 'pub struct ProtocolError(pub(crate) std::rc::Rc<str>);').replace('Self(err.to_string())', 'Self(err.to_string().into())'), None), (LIB, lambda s: s.replace('ProtocolError(msg)', 'ProtocolError(msg.into())').replace('ProtocolError(e.to_string())', 'ProtocolError(e.to_string().into())'), None))
B('share-no-ord', 'C36', (IDF, lambda s: s.replace(' PartialOrd, Ord,', ''), None))

# ---- the threads joined by a loop
_JOIN = lambda body: (IO, lambda s: s[:s.index('        match self.reader.join() {')] + body + '    }\n}\n', None)
Q('join-array', 'C13 C29 C12', _JOIN('''        for (name, thread) in [("reader", self.reader), ("writer", self.writer)] {
            match thread.join() {
                Ok(result) => result?,
                Err(err) => {
                    eprintln!("{name} panicked!");
                    std::panic::panic_any(err)
                }
            }
        }
        Ok(())
'''))
Q('join-vec', 'C13 C29 C12', _JOIN('''        for thread in vec![self.reader, self.writer] {
            thread.join().unwrap_or_else(|err| std::panic::resume_unwind(err))?;
        }
        Ok(())
'''))
Q('join-each', 'C13 C29 C12', _JOIN('''        [self.reader, self.writer].into_iter().try_for_each(|thread| match thread.join() {
            Ok(result) => result,
            Err(err) => std::panic::panic_any(err),
        })
'''))
Q('join-both-first', 'C13 C29 C12', _JOIN('''        let reader = self.reader.join();
        let writer = self.writer.join();
        for result in [reader, writer] {
            match result {
                Ok(r) => r?,
                Err(err) => std::panic::panic_any(err),
            }
        }
        Ok(())
'''))
B('join-array-last', 'C13', _JOIN('''        let mut last = Ok(());
        for thread in [self.reader, self.writer] {
            match thread.join() {
                Ok(result) => last = result,
                Err(err) => std::panic::panic_any(err),
            }
        }
        last
'''))
B('join-array-skip', 'C13', _JOIN('''        for thread in [self.reader, self.writer] {
            match thread.join() {
                Ok(Err(err)) if err.kind() == io::ErrorKind::BrokenPipe => continue,
                Ok(result) => return result,
                Err(err) => std::panic::panic_any(err),
            }
        }
        Ok(())
'''))
