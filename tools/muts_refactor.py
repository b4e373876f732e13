"""Edits that keep the behaviour, as a maintainer would make them: every check must stay quiet (MUT_ALL=1)."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def M(name, *edits): MUTS.append(("f-" + name, [], list(edits), []))
def cut(a, b, new):
    """replace from the first a up to and including the next b"""
    def f(s):
        i = s.index(a); j = s.index(b, i) + len(b)
        return s[:i] + new + s[j:]
    return f

# ---- message.rs
M('read-let-else', (MSG, '''        let text = match read_msg_text(r)? {
            Some(text) => text,
            None => return Ok(None),
        };
''', '''        let Some(text) = read_msg_text(r)? else {
            return Ok(None);
        };
'''))
M('read-map-transpose', (MSG, cut('        let text = match read_msg_text', '        Ok(Some(msg))', '''        read_msg_text(r)?
            .map(|text| {
                let msg: Message = serde_json::from_str(&text)?;
                tracing::trace!("Got <<<<<<<<<<<<<<<<<<<<<<<<<\\n\\n{:#?}\\n", msg);
                Ok(msg)
            })
            .transpose()'''), None))
M('write-header-string', (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;''', '''        let header = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());
        w.write_all(header.as_bytes())?;
        w.write_all(msg.as_bytes())?;'''))
M('write-text-helper', (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())
    }
}
''', '''        write_msg_text(w, &msg)
    }
}

fn write_msg_text(out: &mut dyn io::Write, text: &str) -> io::Result<()> {
    write!(out, "Content-Length: {}\\r\\n\\r\\n", text.len())?;
    out.write_all(text.as_bytes())?;
    out.flush()
}
'''))
M('write-to-vec', (MSG, '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;''', '''        let body = serde_json::to_vec(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", body.len())?;
        w.write_all(&body)?;'''))
M('write-one-frame', (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;''', '''        let mut frame = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());
        frame.push_str(&msg);
        w.write_all(frame.as_bytes())?;'''))
M('jsonrpc-literal', (MSG, '''impl From<Message> for JsonRpc {
    fn from(msg: Message) -> Self {
        Self {
            jsonrpc: "2.0",
            msg,
        }
    }
}

''', ''), (MSG, 'serde_json::to_string(&JsonRpc::from(self))?', 'serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self })?'))
M('jsonrpc-borrowed', (MSG, '''struct JsonRpc {
    jsonrpc: &'static str,
    #[serde(flatten)]
    msg: Message,
}

impl From<Message> for JsonRpc {
    fn from(msg: Message) -> Self {''', '''struct JsonRpc<'a> {
    jsonrpc: &'static str,
    #[serde(flatten)]
    msg: &'a Message,
}

impl<'a> From<&'a Message> for JsonRpc<'a> {
    fn from(msg: &'a Message) -> Self {'''), (MSG, 'JsonRpc::from(self)', 'JsonRpc::from(&self)'))
M('jsonrpc-local', (MSG, '''#[derive(Serialize)]
struct JsonRpc {
    jsonrpc: &'static str,
    #[serde(flatten)]
    msg: Message,
}

impl From<Message> for JsonRpc {
    fn from(msg: Message) -> Self {
        Self {
            jsonrpc: "2.0",
            msg,
        }
    }
}

''', '''const JSONRPC_VERSION: &str = "2.0";

'''), (MSG, '        let msg = serde_json::to_string(&JsonRpc::from(self))?;', '''        #[derive(Serialize)]
        struct JsonRpc {
            jsonrpc: &'static str,
            #[serde(flatten)]
            msg: Message,
        }
        let msg = serde_json::to_string(&JsonRpc {
            jsonrpc: JSONRPC_VERSION,
            msg: self,
        })?;'''))
M('header-helper', (MSG, cut('        let mut parts = buf.splitn(2, ": ");', 'map_err(invalid_data)?);\n        }\n', '''        let (header_name, header_value) = parse_header(buf)?;
        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
'''), None), (MSG, 'fn read_msg_text(', '''fn parse_header(line: &str) -> io::Result<(&str, &str)> {
    let mut parts = line.splitn(2, ": ");
    let name = parts.next().unwrap();
    let value = parts
        .next()
        .ok_or_else(|| invalid_data!("malformed header: {:?}", line))?;
    Ok((name, value))
}

fn read_msg_text('''))
M('split-once', (MSG, cut('        let mut parts = buf.splitn(2, ": ");', 'malformed header: {:?}", buf))?;', '''        let (header_name, header_value) = buf
            .split_once(": ")
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;'''), None))
M('split-once-let-else', (MSG, cut('        let mut parts = buf.splitn(2, ": ");', 'malformed header: {:?}", buf))?;', '''        let Some((header_name, header_value)) = buf.split_once(": ") else {
            return Err(invalid_data!("malformed header: {:?}", buf));
        };'''), None))
M('strip-suffix-let-else', (MSG, '''        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];
''', '''        let Some(buf) = buf.strip_suffix("\\r\\n") else {
            return Err(invalid_data!("malformed header: {:?}", buf));
        };
'''))
M('header-match', (MSG, '''        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
''', '''        match header_name {
            "Content-Length" => {
                let value = header_value.parse::<usize>().map_err(invalid_data)?;
                size = Some(value);
            }
            _ => {}
        }
'''))
M('header-const', (MSG, '''        if header_name == "Content-Length" {''', '''        if header_name == CONTENT_LENGTH {'''), (MSG, 'fn read_msg_text(', 'const CONTENT_LENGTH: &str = "Content-Length";\n\nfn read_msg_text('))
M('header-continue', (MSG, '''        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
''', '''        if header_name != "Content-Length" {
            continue;
        }
        size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
'''))
M('parse-match', (MSG, '''            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
''', '''            size = match header_value.parse::<usize>() {
                Ok(size) => Some(size),
                Err(error) => return Err(invalid_data(error)),
            };
'''))
M('body-helper', (MSG, cut('    let mut buf = buf.into_bytes();', '    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))\n}\n', '''    read_body(inp, size).map(Some)
}

/// The size is the peer's claim: grow the buffer with what actually arrives.
fn read_body(inp: &mut dyn io::BufRead, size: usize) -> io::Result<String> {
    let mut body = Vec::new();
    let got = inp.take(size as u64).read_to_end(&mut body)?;
    if got != size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
    String::from_utf8(body).map_err(invalid_data)
}
'''), None))
M('header-loop-helper', (MSG, cut('fn read_msg_text(', '    let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;\n    let mut buf = buf.into_bytes();\n', '''/// The Content-Length of the next message, if there is one.
fn read_header(inp: &mut dyn io::BufRead) -> io::Result<Option<usize>> {
    let mut size = None;
    let mut buf = String::new();

    loop {
        buf.clear();
        if inp.read_line(&mut buf)? == 0 {
            return Ok(None);
        }
        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];
        if buf.is_empty() {
            break;
        }
        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
    }
    match size {
        Some(size) => Ok(Some(size)),
        None => Err(invalid_data!("no Content-Length")),
    }
}

fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
    let size = match read_header(inp)? {
        Some(size) => size,
        None => return Ok(None),
    };
    let mut buf = Vec::new();
'''), None))
M('line-while', (MSG, '''    loop {
        buf.clear();
        if inp.read_line(&mut buf)? == 0 {
            return Ok(None);
        }
''', '''    loop {
        let mut buf = String::new();
        let read = inp.read_line(&mut buf)?;
        if read == 0 {
            return Ok(None);
        }
'''), (MSG, '    let mut buf = String::new();\n\n    loop', '    loop'), (MSG, 'let mut buf = buf.into_bytes();', 'let mut buf: Vec<u8> = Vec::new();'))
M('crlf-flag', (MSG, '''        let buf = &buf[..buf.len() - 2];
        if buf.is_empty() {
            break;
        }
''', '''        if buf == "\\r\\n" {
            break;
        }
        let buf = &buf[..buf.len() - 2];
'''))
M('trim-end-matches', (MSG, '''        let buf = &buf[..buf.len() - 2];
''', '''        let end = buf.len() - "\\r\\n".len();
        let buf = &buf[..end];
'''))
M('from-utf8-borrowed', (MSG, '    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))', '''    let text = std::str::from_utf8(&buf).map_err(invalid_data)?;
    Ok(Some(text.to_owned()))'''))
M('from-utf8-map', (MSG, '    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))', '    String::from_utf8(buf).map(Some).map_err(invalid_data)'))
M('short-body-error', (MSG, '        return Err(io::ErrorKind::UnexpectedEof.into());', '''        return Err(io::Error::new(
            io::ErrorKind::UnexpectedEof,
            format!("body ended after {} of {} bytes", buf.len(), size),
        ));'''))
M('generic-read', (MSG, 'pub(crate) fn read(r: &mut dyn io::BufRead)', 'pub(crate) fn read<R: io::BufRead>(r: &mut R)'))
M('trace-before', (MSG, '''        let msg = serde_json::from_str(&text)?;
''', '''        tracing::trace!("Reading {} bytes", text.len());
        let msg: Message = serde_json::from_str(&text)?;
'''))
M('parse-map-err', (MSG, '''        let msg = serde_json::from_str(&text)?;
''', '''        let msg = serde_json::from_str(&text).map_err(io::Error::from)?;
'''))
M('is-exit-method', (MSG, '''    pub(crate) fn write(''', '''    /// Whether nothing follows this message.
    pub(crate) fn is_exit(&self) -> bool {
        matches!(self, Message::Notification(Notification::Exit))
    }

    pub(crate) fn write('''), (TR, '''                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };
''', '                let is_exit = msg.is_exit();\n'), (TR, 'let is_exit = matches!(&msg, Message::Notification(Notification::Exit));', 'let is_exit = msg.is_exit();'), (TR, 'use crate::Notification;\n\n', ''))

# ---- transporter.rs
STD_R = '''            while let Some(msg) = Message::read(&mut stdin)? {
                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };

                reader_sender.send(msg).map_err(disconnected)?;

                if is_exit {
                    break;
                }
            }
            Ok(())
'''
SOCK_R = '''                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())
'''
LOOP = '''/// Hands on what the peer sends until it says exit.
fn read_loop(input: &mut dyn io::BufRead, sender: Sender<Message>) -> io::Result<()> {
    while let Some(msg) = Message::read(input)? {
        let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
        sender.send(msg).map_err(disconnected)?;
        if is_exit {
            break;
        }
    }
    Ok(())
}

/// The error a reader thread'''
STD_W = '''            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout))?;
            Ok(())
'''
SOCK_W = '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
'''
M('read-loop-fn', (TR, STD_R, '            read_loop(&mut stdin, reader_sender)\n'), (TR, SOCK_R, '                read_loop(&mut buf_read, reader_sender)\n'), (TR, "/// The error a reader thread", LOOP))
M('read-loop-generic', (TR, STD_R, '            read_loop(stdin, reader_sender)\n'), (TR, '            let mut stdin = stdin.lock();', '            let stdin = stdin.lock();'), (TR, '                let mut buf_read = io', '                let buf_read = io'),
  (TR, SOCK_R, '                read_loop(buf_read, reader_sender)\n'), (TR, "/// The error a reader thread", LOOP.replace('input: &mut dyn io::BufRead', 'mut input: impl io::BufRead').replace('Message::read(input)', 'Message::read(&mut input)')))
M('write-loop-fn', (TR, STD_W, '            write_loop(&mut stdout, writer_receiver)\n'), (TR, SOCK_W, '                write_loop(&mut stream, writer_receiver)\n'), (TR, "/// The error a reader thread", '''fn write_loop(out: &mut dyn io::Write, messages: Receiver<Message>) -> io::Result<()> {
    for msg in messages {
        msg.write(out)?;
    }
    Ok(())
}

/// The error a reader thread'''))
M('write-recv-loop', (TR, STD_W, '''            while let Ok(msg) = writer_receiver.recv() {
                msg.write(&mut stdout)?;
            }
            Ok(())
'''))
M('write-iter', (TR, SOCK_W, '''                for msg in writer_receiver.iter() {
                    msg.write(&mut stream)?;
                }
                Ok(())
'''))
M('write-direct', (TR, STD_W, '''            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout))
'''))
M('read-loop-match', (TR, SOCK_R, '''                loop {
                    let msg = match Message::read(&mut buf_read)? {
                        Some(msg) => msg,
                        None => return Ok(()),
                    };
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        return Ok(());
                    }
                }
'''))
M('read-until-exit', (TR, STD_R, '''            let mut is_exit = false;
            while !is_exit {
                match Message::read(&mut stdin)? {
                    Some(msg) => {
                        is_exit = matches!(msg, Message::Notification(Notification::Exit));
                        reader_sender.send(msg).map_err(disconnected)?;
                    }
                    None => break,
                }
            }
            Ok(())
'''))
M('send-if-let', (TR, SOCK_R, SOCK_R.replace('reader_sender.send(msg).map_err(disconnected)?;', '''if let Err(error) = reader_sender.send(msg) {
                        return Err(disconnected(error));
                    }''')))
M('io-new-stdio', (TR, 'let threads = IoThreads { reader, writer };', 'let threads = IoThreads::new(reader, writer);'))
M('socket-order', (TR, cut('        let (reader_receiver, reader) = {', '        let io_threads =', '''        let input = stream.try_clone()?;
        let mut output = stream;

        let (writer_sender, writer_receiver) = bounded::<Message>(0);
        let (reader_sender, reader_receiver) = bounded::<Message>(0);
        let writer = thread::spawn(move || {
            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut output))?;
            Ok(())
        });
        let reader = thread::spawn(move || {
            let mut buf_read = io::BufReader::new(input);
            while let Some(msg) = Message::read(&mut buf_read)? {
                let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                reader_sender.send(msg).map_err(disconnected)?;
                if is_exit {
                    break;
                }
            }
            Ok(())
        });

        let io_threads ='''), None))
M('start-helpers', (TR, cut('        let (reader_receiver, reader) = {', '        let io_threads =', '''        let (reader_receiver, reader) = start_reader(stream.try_clone()?);
        let (writer_sender, writer) = start_writer(stream);

        let io_threads ='''), None), (TR, "/// The error a reader thread", '''type Thread = thread::JoinHandle<io::Result<()>>;

fn start_reader(stream: TcpStream) -> (Receiver<Message>, Thread) {
    let (sender, receiver) = bounded::<Message>(0);
    let thread = thread::spawn(move || {
        let mut buf_read = io::BufReader::new(stream);
        while let Some(msg) = Message::read(&mut buf_read)? {
            let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
            sender.send(msg).map_err(disconnected)?;
            if is_exit {
                break;
            }
        }
        Ok(())
    });
    (receiver, thread)
}

fn start_writer(mut stream: TcpStream) -> (Sender<Message>, Thread) {
    let (sender, receiver) = bounded::<Message>(0);
    let thread = thread::spawn(move || receiver.into_iter().try_for_each(|it| it.write(&mut stream)));
    (sender, thread)
}

/// The error a reader thread'''))
M('nodelay', (TR, '        let io_threads = IoThreads::new', '        let _ = stream.set_nodelay(true);\n        let io_threads = IoThreads::new'))
M('writer-bufwriter', (TR, '            let mut stream = stream.try_clone()?;\n', '            let mut stream = io::BufWriter::new(stream.try_clone()?);\n'))
M('drop-explicit', (TR, '                Ok(())\n            });\n            (writer_sender, writer)', '                drop(stream);\n                Ok(())\n            });\n            (writer_sender, writer)'))
M('capacity', (TR, 'io::BufReader::new(stream)', 'io::BufReader::with_capacity(64 * 1024, stream)'))

# ---- lib.rs
M('shared-socket', (LIB, '''        let stream = TcpStream::connect(addr)?;
        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
        Ok((Connection { sender, receiver }, io_threads))''', '''        Self::over(TcpStream::connect(addr)?)'''), (LIB, '''        let (stream, _) = listener.accept()?;
        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
        Ok((Connection { sender, receiver }, io_threads))
    }
''', '''        let (stream, _) = listener.accept()?;
        Self::over(stream)
    }

    fn over(stream: TcpStream) -> io::Result<(Connection, IoThreads)> {
        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
        Ok((Connection { sender, receiver }, io_threads))
    }
'''))
M('accept-map', (LIB, '        let (stream, _) = listener.accept()?;', '        let (stream, peer) = listener.accept()?;\n        tracing::debug!("connected to {}", peer);'))
M('memory-lines', (LIB, '        let ((s1, r1), (s2, r2)) = (unbounded(), unbounded());', '        let (s2, r2) = unbounded();\n        let (s1, r1) = unbounded();'))
M('memory-swap', (LIB, cut('        let ((s1, r1)', 'receiver: r1,\n            },\n        )', '''        let (to_client, from_server) = unbounded();
        let (to_server, from_client) = unbounded();
        let server = Connection {
            sender: to_client,
            receiver: from_client,
        };
        let client = Connection {
            sender: to_server,
            receiver: from_server,
        };
        (server, client)'''), None))
M('shutdown-let-else', (LIB, cut('        if let Request::Shutdown(id) = req {', '            Ok(false)\n        }\n', '''        let Request::Shutdown(id) = req else {
            return Ok(false);
        };
        tracing::info!("processing shutdown server ...");
        let _ = self.sender.send(Response::ok(id.clone(), ()).into());
        match self.receiver.recv_timeout(SHUTDOWN_TIMEOUT) {
            Ok(Message::Notification(Notification::Exit)) => Ok(true),
            Ok(msg) => {
                let msg = format!("unexpected message during shutdown: {:?}", msg);
                tracing::error!("{}", msg);
                Err(ProtocolError(msg))
            }
            Err(e) => Err(ProtocolError(format!("unexpected error during shutdown: {}", e))),
        }
'''), None), (LIB, '/// Connection is just a pair', '/// How long to wait for exit after shutdown.\nconst SHUTDOWN_TIMEOUT: Duration = Duration::from_secs(30);\n\n/// Connection is just a pair'))
M('shutdown-helper', (LIB, cut('            match &self.receiver.recv_timeout(Duration::from_secs(30)) {', '            Ok(true)\n', '''            self.wait_for_exit()?;
            Ok(true)
'''), None), (LIB, '    /// delegates to self.sender\n    pub fn send<', '''    fn wait_for_exit(&self) -> Result<(), ProtocolError> {
        match self.receiver.recv_timeout(Duration::from_secs(30)) {
            Ok(Message::Notification(Notification::Exit)) => Ok(()),
            Ok(msg) => {
                let msg = format!("unexpected message during shutdown: {:?}", msg);
                tracing::error!("{}", msg);
                Err(ProtocolError(msg))
            }
            Err(e) => {
                let msg = format!("unexpected error during shutdown: {}", e);
                Err(ProtocolError(msg))
            }
        }
    }

    /// delegates to self.sender
    pub fn send<'''))
M('shutdown-millis', (LIB, 'Duration::from_secs(30)', 'Duration::from_millis(30_000)'))
M('init-reply-helper', (LIB, '''                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;''', '''                    self.reply(Response::server_not_initialized(req.id().clone(), msg))?;'''), (LIB, '''        self.sender
            .send(resp.into())
            .map_err(|e| ProtocolError(e.to_string()))?;
''', '''        self.reply(resp)?;
'''), (LIB, '    /// delegates to self.sender\n    pub fn send<', '''    fn reply(&self, response: Response) -> Result<(), ProtocolError> {
        self.send(response)
            .map_err(|e| ProtocolError(e.to_string()))
    }

    /// delegates to self.sender
    pub fn send<'''))
M('init-match-request', (LIB, cut('                Ok(Message::Request(Request::InitializeBuild(id, params))) => {', 'map_err(|e| ProtocolError(e.to_string()))?;\n                }\n', '''                Ok(Message::Request(req)) => match req {
                    Request::InitializeBuild(id, params) => return Ok((id, params)),
                    // Respond to non-initialize requests with ServerNotInitialized
                    req => {
                        let msg = format!("expected initialize request, got {:?}", req);
                        tracing::error!("{}", msg);
                        let id = req.id().to_owned();
                        self.sender
                            .send(Response::server_not_initialized(id, msg).into())
                            .map_err(|e| ProtocolError(e.to_string()))?;
                    }
                },
'''), None))
M('init-recv-first', (LIB, '            match self.receiver.recv() {\n                Ok(Message::Request(Request::InitializeBuild', '            let next = self.receiver.recv();\n            match next {\n                Ok(Message::Request(Request::InitializeBuild'))
M('init-drop-arm', (LIB, '''                Ok(Message::Notification(notification))
                    if !matches!(notification, Notification::Exit) =>
                {
                    tracing::warn!("not initialized, dropping {:?}", notification);
                }
                Ok(msg) => {''', '''                Ok(Message::Notification(Notification::Exit)) => {
                    return Err(ProtocolError("expected initialize request, got exit".into()));
                }
                Ok(Message::Notification(notification)) => {
                    tracing::warn!("not initialized, dropping {:?}", notification);
                }
                Ok(msg) => {'''))
M('init-finish-owned', (LIB, '        match &self.receiver.recv() {\n            Ok(Message::Notification(Notification::Initialized)) => (),', '        match self.receiver.recv() {\n            Ok(Message::Notification(Notification::Initialized)) => {}'))
M('init-process-first', (LIB, '        self.initialize_finish(id, process(&params))?;', '        let result = process(&params);\n        self.initialize_finish(id, result)?;'))
M('init-question', (LIB, '        let resp = Response::ok(initialize_id, initialize_result);\n        self.sender\n            .send(resp.into())', '        self.sender\n            .send(Message::Response(Response::ok(initialize_id, initialize_result)))'))
M('error-from-send', (ERR, 'impl From<anyhow::Error> for ProtocolError {', '''impl<T> From<crossbeam_channel::SendError<T>> for ProtocolError {
    fn from(err: crossbeam_channel::SendError<T>) -> Self {
        Self(err.to_string())
    }
}

impl From<anyhow::Error> for ProtocolError {'''), (LIB, '''        self.sender
            .send(resp.into())
            .map_err(|e| ProtocolError(e.to_string()))?;
''', '''        self.sender.send(resp.into())?;
'''), (LIB, '''                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;''', '''                        .send(Response::server_not_initialized(req.id().clone(), msg).into())?;'''))
M('send-let', (LIB, '        self.sender.send_timeout(msg.into(), timeout)', '        let msg: Message = msg.into();\n        self.sender.send_timeout(msg, timeout)'))

# ---- request.rs / notification.rs
SER = ("        let mut obj = s.serialize_struct(\"Request\", 2)?;", "        obj.end()\n    }\n}\n")
M('ser-common', (REQ, cut(*SER, '''        let mut obj = s.serialize_struct("Request", 3)?;
        obj.serialize_field("id", self.id())?;
        obj.serialize_field("method", self.method())?;

        use Request::*;
        match self {
            Shutdown(_) | WorkspaceBuildTargets(_) | WorkspaceReload(_) => {}
            InitializeBuild(_, params) => obj.serialize_field("params", params)?,
            BuildTargetDependencyModules(_, params) => obj.serialize_field("params", params)?,
            DebugSessionStart(_, params) => obj.serialize_field("params", params)?,
            BuildTargetSources(_, params) => obj.serialize_field("params", params)?,
            TextDocumentInverseSources(_, params) => obj.serialize_field("params", params)?,
            BuildTargetDependencySources(_, params) => obj.serialize_field("params", params)?,
            BuildTargetResources(_, params) => obj.serialize_field("params", params)?,
            BuildTargetRun(_, params) => obj.serialize_field("params", params)?,
            BuildTargetCompile(_, params) => obj.serialize_field("params", params)?,
            BuildTargetTest(_, params) => obj.serialize_field("params", params)?,
            BuildTargetCleanCache(_, params) => obj.serialize_field("params", params)?,
            Custom(_, _, Value::Null) => {}
            Custom(_, _, params) => obj.serialize_field("params", params)?,
        }
        obj.end()
    }
}
'''), None), (REQ, '        let method = self.method();\n        let mut obj', '        let mut obj'))
M('ser-entry-helper', (REQ, '''            BuildTargetTest(id, value) => {
                obj.serialize_field("id", id)?;
                obj.serialize_field("method", method)?;
                obj.serialize_field("params", value)?;
            }
            BuildTargetCleanCache(id, value) => {
                obj.serialize_field("id", id)?;
                obj.serialize_field("method", method)?;
                obj.serialize_field("params", value)?;
            }
''', '''            BuildTargetTest(id, value) => fields(&mut obj, id, method, value)?,
            BuildTargetCleanCache(id, value) => fields(&mut obj, id, method, value)?,
'''), (REQ, 'impl Serialize for Request {', '''fn fields<O: SerializeStruct, T: Serialize>(
    obj: &mut O,
    id: &RequestId,
    method: &str,
    params: &T,
) -> Result<(), O::Error> {
    obj.serialize_field("id", id)?;
    obj.serialize_field("method", method)?;
    obj.serialize_field("params", params)
}

impl Serialize for Request {'''))
M('ser-null-match', (REQ, '''                if !value.is_null() {
                    obj.serialize_field("params", value)?;
                }
''', '''                match value {
                    Value::Null => (),
                    value => obj.serialize_field("params", value)?,
                }
'''))
M('ser-tail', (REQ, '''        };
        obj.end()
    }
}

#[cfg(test)]
mod se {''', '''        }
        let done = obj.end()?;
        Ok(done)
    }
}

#[cfg(test)]
mod se {'''))
M('notif-ser-helper', (NOT, '            ShowMessage(m) => obj.serialize_field("params", m)?,\n            LogMessage(m) => obj.serialize_field("params", m)?,', '''            ShowMessage(params) => {
                obj.serialize_field("params", params)?;
            }
            LogMessage(params) => {
                obj.serialize_field("params", params)?;
            }'''))
M('method-self', (REQ, '''            InitializeBuild(_, _) => "build/initialize",
            Shutdown(_) => "build/shutdown",''', '''            Self::InitializeBuild(..) => methods::INITIALIZE,
            Self::Shutdown(..) => methods::SHUTDOWN,'''), (REQ, '#[derive(Clone)]\npub enum Request {', '''mod methods {
    pub const INITIALIZE: &str = "build/initialize";
    pub const SHUTDOWN: &str = "build/shutdown";
}

#[derive(Clone)]
pub enum Request {'''), (REQ, '                    "build/initialize" => Request::InitializeBuild', '                    methods::INITIALIZE => Request::InitializeBuild'), (REQ, '                    "build/shutdown" => Request::Shutdown', '                    methods::SHUTDOWN => Request::Shutdown'))
M('notif-method-const', (NOT, 'BuildTargetDidChange(_) => "buildTarget/didChange",', 'BuildTargetDidChange(_) => self::BuildTargetDidChange::METHOD,'), (NOT, '"buildTarget/didChange" => BuildTargetDidChange(de(params)?)', 'self::BuildTargetDidChange::METHOD => BuildTargetDidChange(de(params)?)'))
FIELD_R = ('''        enum Field {
            ID,''', '''                deserializer.deserialize_identifier(FieldVisitor)
            }
        }
''')
M('field-derive', (REQ, cut(*FIELD_R, '''        #[derive(Deserialize)]
        #[serde(field_identifier, rename_all = "lowercase")]
        enum Field {
            ID,
            Method,
            Params,
            #[serde(other)]
            Other,
        }
'''), None))
M('notif-field-derive', (NOT, cut('''        enum Field {
            Method,''', FIELD_R[1], '''        #[derive(Deserialize)]
        #[serde(field_identifier, rename_all = "lowercase")]
        enum Field {
            Method,
            Params,
            #[serde(other)]
            Other,
        }
'''), None))
M('id-typed', (REQ, 'let mut id: Option<Value> = None; //  not sure maybe string maybe i32', 'let mut id: Option<RequestId> = None;'), (REQ, 'let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;', 'let id = id.ok_or_else(|| DeError::missing_field("id"))?;'))
M('dup-helper', (REQ, '''                            if id.is_some() {
                                return Err(DeError::duplicate_field("id"));
                            }
                            id = Some(map.next_value()?);
                        }
                        Field::Params => {
                            if params.is_some() {
                                return Err(DeError::duplicate_field("params"));
                            }
                            params = Some(map.next_value()?);
                        }
''', '''                            set_once(&mut id, "id", &mut map)?;
                        }
                        Field::Params => {
                            set_once(&mut params, "params", &mut map)?;
                        }
'''), (REQ, "impl<'de> Deserialize<'de> for Request {", '''/// Read the value of a member that may come only once.
fn set_once<'de, T: Deserialize<'de>, V: MapAccess<'de>>(
    slot: &mut Option<T>,
    name: &'static str,
    map: &mut V,
) -> Result<(), V::Error> {
    if slot.is_some() {
        return Err(DeError::duplicate_field(name));
    }
    *slot = Some(map.next_value()?);
    Ok(())
}

impl<'de> Deserialize<'de> for Request {'''))
M('dup-replace', (NOT, '''                            if params.is_some() {
                                return Err(DeError::duplicate_field("params"));
                            }
                            params = Some(map.next_value()?);
''', '''                            let value = map.next_value()?;
                            if params.replace(value).is_some() {
                                return Err(DeError::duplicate_field("params"));
                            }
'''))
M('missing-let-else', (REQ, '                let method = method.ok_or_else(|| DeError::missing_field("method"))?;', '''                let Some(method) = method else {
                    return Err(DeError::missing_field("method"));
                };'''), (NOT, '                let method = method.ok_or_else(|| DeError::missing_field("method"))?;', '''                let method = match method {
                    Some(method) => method,
                    None => return Err(DeError::missing_field("method")),
                };'''))
M('params-default', (REQ, '                let params = params.unwrap_or(serde_json::Value::Null);', '                let params = params.unwrap_or_default();'))
M('from-value', (REQ, "                    T::deserialize(p).map_err(DeError::custom)", "                    serde_json::from_value(p).map_err(DeError::custom)"), (REQ, "fn de<'a, T: Deserialize<'a>, E: DeError>", "fn de<T: serde::de::DeserializeOwned, E: DeError>"))
M('build-fn', (NOT, cut("                use Notification::*;\n                Ok(match method.as_str() {", "                })\n            }\n        }\n\n        deserializer.deserialize_struct", '''                build(method, params).map_err(DeError::custom)
            }
        }

        fn build(method: String, params: Value) -> serde_json::Result<Notification> {
            use Notification::*;
            Ok(match method.as_str() {
                "build/exit" => Exit,
                "build/initialized" => Initialized,
                "build/showMessage" => ShowMessage(serde_json::from_value(params)?),
                "build/logMessage" => LogMessage(serde_json::from_value(params)?),
                "build/publishDiagnostics" => PublishDiagnostics(serde_json::from_value(params)?),
                "build/taskStart" => TaskStart(serde_json::from_value(params)?),
                "build/taskFinish" => TaskFinish(serde_json::from_value(params)?),
                "build/taskProgress" => TaskProgress(serde_json::from_value(params)?),
                "buildTarget/didChange" => BuildTargetDidChange(serde_json::from_value(params)?),
                _ => Custom(Box::leak(method.into_boxed_str()), params),
            })
        }

        deserializer.deserialize_struct'''), None), (NOT, cut("                fn de<'a,", "                }\n", ''), None))
M('de-map', (REQ, 'deserializer.deserialize_struct("Request", FIELDS, RequestVisitor)', 'deserializer.deserialize_map(RequestVisitor)'), (REQ, cut('        const FIELDS', ';\n', ''), None))
M('params-question', (REQ, cut('        let value = match self {', '        Ok(value?)', '''        Ok(match self {
            Shutdown(_) | WorkspaceBuildTargets(_) | WorkspaceReload(_) => Value::Null,
            InitializeBuild(_, params) => serde_json::to_value(params)?,
            BuildTargetDependencyModules(_, params) => serde_json::to_value(params)?,
            DebugSessionStart(_, params) => serde_json::to_value(params)?,
            BuildTargetSources(_, params) => serde_json::to_value(params)?,
            TextDocumentInverseSources(_, params) => serde_json::to_value(params)?,
            BuildTargetDependencySources(_, params) => serde_json::to_value(params)?,
            BuildTargetResources(_, params) => serde_json::to_value(params)?,
            BuildTargetRun(_, params) => serde_json::to_value(params)?,
            BuildTargetCompile(_, params) => serde_json::to_value(params)?,
            BuildTargetTest(_, params) => serde_json::to_value(params)?,
            BuildTargetCleanCache(_, params) => serde_json::to_value(params)?,
            Custom(_, _, params) => params.clone(),
        })'''), None))
M('leak-fn', (REQ, 'Request::Custom(id, Box::leak(method.into_boxed_str()), params)', 'Request::Custom(id, String::leak(method), params)'))
M('conv-spelled', (REQ, '''macro_rules! convertible {
    ($p:ident) => {
        impl From<(RequestId, $p)> for Request {
            fn from(v: (RequestId, $p)) -> Self {
                Self::$p(v.0, v.1)
            }
        }
''', '''macro_rules! convertible {
    ($p:ident) => {
        impl From<(RequestId, $p)> for Request {
            fn from((id, params): (RequestId, $p)) -> Self {
                Request::$p(id, params)
            }
        }
'''), (REQ, 'Self::Request(crate::Request::$p(v.0, v.1))', 'Message::Request(v.into())'))
M('debug-derive', (REQ, '#[derive(Clone)]\npub enum Request {', '#[derive(Clone, Debug)]\npub enum Request {'), (REQ, cut('impl fmt::Debug for Request {', '\n}\n', ''), None))

# ---- response.rs, io_thread.rs, id.rs, error.rs
M('resp-code', (RSP, '    pub fn parse_error(id: RequestId, message: String) -> Response {\n        Self::err(id, ErrorCode::ParseError as i32 as i32, message)', '''    fn with_code(id: RequestId, code: ErrorCode, message: String) -> Response {
        Self::err(id, code as i32, message)
    }

    pub fn parse_error(id: RequestId, message: String) -> Response {
        Self::with_code(id, ErrorCode::ParseError, message)'''), (RSP, 'Self::err(id, ErrorCode::InternalError as i32 as i32, message)', 'Self::with_code(id, ErrorCode::InternalError, message)'))
M('resp-code-value', (ERR, '#[derive(Clone, Copy, Debug)]\n#[allow(unused)]\npub enum ErrorCode {', '''impl ErrorCode {
    /// The number sent for this code.
    pub const fn value(self) -> i32 {
        self as i32
    }
}

impl From<ErrorCode> for i32 {
    fn from(code: ErrorCode) -> i32 {
        code.value()
    }
}

#[derive(Clone, Copy, Debug)]
#[allow(unused)]
pub enum ErrorCode {'''), (RSP, 'ErrorCode::ServerNotInitialized as i32', 'ErrorCode::ServerNotInitialized.value()'), (RSP, 'ErrorCode::MethodNotFound as i32 as i32', 'ErrorCode::MethodNotFound.into()'))
M('resp-literal', (RSP, cut('        let error = ResponseError {\n            code,', '            error: Some(error),\n        }', '''        Response {
            id,
            result: None,
            error: Some(ResponseError {
                code,
                message,
                data: None,
            }),
        }'''), None))
M('resp-error-new', (RSP, cut('        let error = ResponseError {\n            code,', '        };\n', '        let error = ResponseError::new(code, message);\n'), None), (RSP, 'impl Response {\n    pub fn ok', '''impl ResponseError {
    fn new(code: i32, message: String) -> Self {
        Self {
            code,
            message,
            data: None,
        }
    }
}

impl Response {
    pub fn ok'''))
M('resp-ok-value', (RSP, '''        Response {
            id,
            result: Some(serde_json::to_value(result).unwrap()),
            error: None,
        }''', '''        let value = serde_json::to_value(result).unwrap();
        Self {
            id,
            error: None,
            result: Some(value),
        }'''))
M('join-helper', (IO, cut('        match self.reader.join() {', '        }\n    }\n}\n', '''        finish("reader", self.reader)?;
        finish("writer", self.writer)
    }
}

fn finish(name: &str, thread: thread::JoinHandle<io::Result<()>>) -> io::Result<()> {
    match thread.join() {
        Ok(result) => result,
        Err(err) => {
            eprintln!("{} panicked!", name);
            std::panic::panic_any(err)
        }
    }
}
'''), None))
M('join-resume', (IO, cut('        match self.reader.join() {', '        }\n    }\n}\n', '''        self.reader.join().unwrap_or_else(|err| {
            eprintln!("reader panicked!");
            std::panic::resume_unwind(err)
        })?;
        self.writer.join().unwrap_or_else(|err| {
            eprintln!("writer panicked!");
            std::panic::resume_unwind(err)
        })
    }
}
'''), None))
M('join-destructure', (IO, '        match self.reader.join() {\n            Ok(r) => r?,', '        let IoThreads { reader, writer } = self;\n        match reader.join() {\n            Ok(r) => r?,'), (IO, '        match self.writer.join() {', '        match writer.join() {'))
M('id-display', (IDF, '            IdRepr::I32(it) => fmt::Display::fmt(it, f),\n            IdRepr::String(it) => fmt::Debug::fmt(it, f),', '            IdRepr::I32(it) => write!(f, "{}", it),\n            IdRepr::String(it) => write!(f, "{:?}", it),'))
M('id-from-str', (IDF, 'impl fmt::Display for RequestId {', '''impl From<&str> for RequestId {
    fn from(id: &str) -> RequestId {
        id.to_owned().into()
    }
}

impl fmt::Display for RequestId {'''))
M('err-display', (ERR, '        fmt::Display::fmt(&self.0, f)', '        f.write_str(&self.0)'))
M('err-new', (ERR, 'impl std::error::Error for ProtocolError {}', '''impl ProtocolError {
    pub(crate) fn new(msg: impl Into<String>) -> Self {
        Self(msg.into())
    }
}

impl std::error::Error for ProtocolError {}'''), (LIB, '                    let msg = format!("unexpected error during shutdown: {}", e);\n                    return Err(ProtocolError(msg));', '                    return Err(ProtocolError::new(format!("unexpected error during shutdown: {}", e)));'))

# ---- types
M('new-simple-delegates', (T+'bt_test.rs', '''        Self {
            target,
            origin_id: None,
            arguments: None,
            data_kind: None,
            data: None,
        }''', '''        Self::new(target, None, None, None, None)'''), (T+'bt_test.rs', '''        Self {
            origin_id: None,
            status_code,
            data_kind: None,
            data: None,
        }''', '''        Self::new(None, status_code, None, None)'''))
M('data-match', (T+'bt_run.rs', '        self.data.as_ref()', '        match &self.data {\n            Some(data) => Some(data),\n            None => None,\n        }'))
M('init-new', (T+'initialize_params.rs', '            root_uri: root_uri.into(),\n            capabilities,\n            data: data.into(),', '            root_uri,\n            capabilities,\n            data: Some(data),'))
M('init-as-str', (T+'initialize_params.rs', '        self.bsp_version.as_ref()', '        &self.bsp_version'), (T+'initialize_params.rs', '        self.version.as_ref()', '        self.version.as_str()'))
M('root-match', (T+'initialize_params.rs', '''        self.root_uri
            .to_file_path()
            .unwrap_or_else(|_| self.root_uri.path().into())''', '''        match self.root_uri.to_file_path() {
            Ok(path) => path,
            Err(()) => PathBuf::from(self.root_uri.path()),
        }'''))
M('status-default-attr', (T+'message_type.rs', lambda s: s, None))
M('kind-as-str', (T+'task/kind.rs', cut('        let s = match self {', '        ser.serialize_str(s)', '''        match self.as_str() {
            Some(text) => ser.serialize_str(text),
            None => ser.serialize_none(),
        }'''), None), (T+'task/kind.rs', 'impl TaskDataKind {\n', '''impl TaskDataKind {
    fn as_str(&self) -> Option<&str> {
        Some(match self {
            TaskDataKind::CompileTask => "compile-task",
            TaskDataKind::CompileReport => "compile-report",
            TaskDataKind::TestTask => "test-task",
            TaskDataKind::TestReport => "test-report",
            TaskDataKind::TestStart => "test-start",
            TaskDataKind::TestFinish => "test-finish",
            TaskDataKind::Custom(x) => x,
            TaskDataKind::None => return None,
        })
    }

'''))
M('kind-from-string', (T+'task/kind.rs', cut('        let s = match <String>::deserialize(de) {', '        };\n        Ok(v)', '''        Ok(match String::deserialize(de) {
            Ok(text) => Self::from(text),
            Err(_) => Self::None,
        })'''), None), (T+'task/kind.rs', 'impl TaskDataKind {\n', '''impl From<String> for TaskDataKind {
    fn from(text: String) -> Self {
        match text.as_str() {
            "compile-task" => Self::CompileTask,
            "compile-report" => Self::CompileReport,
            "test-task" => Self::TestTask,
            "test-report" => Self::TestReport,
            "test-start" => Self::TestStart,
            "test-finish" => Self::TestFinish,
            _ => Self::Custom(text),
        }
    }
}

impl TaskDataKind {
'''))
M('event-kind-manual', (T+'bt_did_change.rs', '#[derive(Clone, Debug, serde_repr::Deserialize_repr, serde_repr::Serialize_repr)]\n#[repr(u16)]\npub enum', '#[derive(Clone, Copy, Debug)]\n#[repr(u16)]\npub enum'), (T+'bt_did_change.rs', 'impl Default for BuildTargetEventKind {', '''impl Serialize for BuildTargetEventKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u16(*self as u16)
    }
}

impl<'de> Deserialize<'de> for BuildTargetEventKind {
    fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        match u16::deserialize(de)? {
            1 => Ok(Self::Created),
            2 => Ok(Self::Changed),
            3 => Ok(Self::Deleted),
            other => Err(serde::de::Error::custom(format!("unknown event kind {}", other))),
        }
    }
}

impl Default for BuildTargetEventKind {'''))
M('event-kind-try-from', (T+'bt_did_change.rs', '#[derive(Clone, Debug, serde_repr::Deserialize_repr, serde_repr::Serialize_repr)]\n#[repr(u16)]\npub enum', '#[derive(Clone, Debug, Serialize, Deserialize)]\n#[serde(into = "u16", try_from = "u16")]\n#[repr(u16)]\npub enum'), (T+'bt_did_change.rs', 'impl Default for BuildTargetEventKind {', '''impl From<BuildTargetEventKind> for u16 {
    fn from(kind: BuildTargetEventKind) -> u16 {
        kind as u16
    }
}

impl TryFrom<u16> for BuildTargetEventKind {
    type Error = String;

    fn try_from(value: u16) -> Result<Self, Self::Error> {
        Ok(match value {
            1 => Self::Created,
            2 => Self::Changed,
            3 => Self::Deleted,
            other => return Err(format!("unknown event kind {}", other)),
        })
    }
}

impl Default for BuildTargetEventKind {'''))
M('event-kind-default', (T+'bt_did_change.rs', '''impl Default for BuildTargetEventKind {
    fn default() -> Self {
        Self::Created
    }
}
''', ''), (T+'bt_did_change.rs', '#[derive(Clone, Debug, serde_repr', '#[derive(Clone, Debug, Default, serde_repr'), (T+'bt_did_change.rs', '    Created = 1,', '    #[default]\n    Created = 1,'))
M('caps-explicit-default', (T+'server_capabilities.rs', '    #[serde(skip_serializing_if = "Option::is_none")]\n    can_reload', '    #[serde(default, skip_serializing_if = "Option::is_none")]\n    can_reload'))
M('server-bail', (T+'server.rs', '    fn bt_run(&self, params: BuildTargetRun) -> Result<BuildTargetRunResult> {\n        Err(anyhow!("method not found"))', '    fn bt_run(&self, params: BuildTargetRun) -> Result<BuildTargetRunResult> {\n        method_not_found("buildTarget/run")'), (T+'server.rs', 'pub trait BuildServer {', '''fn method_not_found<T>(method: &str) -> Result<T> {
    Err(anyhow!("method not found: {}", method))
}

pub trait BuildServer {'''))
M('task-id-loop', (T+'task/id.rs', '''        Self {
            id: id.into(),
            parents: Default::default(),
        }''', '''        Self::from(id.to_string())'''))
M('cleanup-ref', (T+'bt_sources.rs', '        self.targets.as_ref()', '        &self.targets'), (T+'bt_sources.rs', '        self.items.as_ref()', '        self.items.as_slice()'))
M('targets-vec-new', (T+'workspace_build_targets.rs', '            display_name: Default::default(),\n            base_directory: Default::default(),', '            display_name: None,\n            base_directory: None,'), (T+'workspace_build_targets.rs', '        Self {\n            targets: vec![target],\n        }', '        Self::new(vec![target])'))
