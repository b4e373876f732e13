"""A second round of behaviour-preserving edits, larger than the first: every check must stay quiet (MUT_ALL=1)."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def M(name, *edits): MUTS.append(("g-" + name, [], [(e + (None,))[:3] for e in edits], []))
def cut(a, b, new):
    """replace from the first a up to and including the next b"""
    def f(s):
        i = s.index(a); j = s.index(b, i) + len(b)
        return s[:i] + new + s[j:]
    return f
READFN = ('fn read_msg_text(', 'map_err(invalid_data)?))\n}\n')

# ---- framing
M('hdr-enum', (MSG, cut(*READFN, '''enum Header {
    End,
    Length(usize),
    Other,
}

fn parse_header(line: &str) -> io::Result<Header> {
    let line = match line.strip_suffix("\\r\\n") {
        Some(line) => line,
        None => return Err(invalid_data!("malformed header: {:?}", line)),
    };
    if line.is_empty() {
        return Ok(Header::End);
    }
    match line.split_once(": ") {
        None => Err(invalid_data!("malformed header: {:?}", line)),
        Some(("Content-Length", value)) => value.parse().map(Header::Length).map_err(invalid_data),
        Some(_) => Ok(Header::Other),
    }
}

fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
    let mut size = None;
    loop {
        let mut line = String::new();
        if inp.read_line(&mut line)? == 0 {
            return Ok(None);
        }
        match parse_header(&line)? {
            Header::End => break,
            Header::Length(n) => size = Some(n),
            Header::Other => {}
        }
    }
    let size = match size {
        Some(size) => size,
        None => return Err(invalid_data!("no Content-Length")),
    };
    let mut body = Vec::new();
    let got = inp.take(size as u64).read_to_end(&mut body)?;
    if got != size {
        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
    }
    String::from_utf8(body).map(Some).map_err(invalid_data)
}
''')))
M('two-phase', (MSG, cut(*READFN, '''fn read_length(inp: &mut dyn io::BufRead) -> io::Result<Option<usize>> {
    let mut size: Option<usize> = None;
    let mut buf = String::new();
    while inp.read_line(&mut buf)? != 0 {
        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let line = &buf[..buf.len() - 2];
        if line.is_empty() {
            return match size {
                Some(n) => Ok(Some(n)),
                None => Err(invalid_data!("no Content-Length")),
            };
        }
        let (name, value) = line
            .split_once(": ")
            .ok_or_else(|| invalid_data!("malformed header: {:?}", line))?;
        if name == "Content-Length" {
            size = Some(value.parse::<usize>().map_err(invalid_data)?);
        }
        buf.clear();
    }
    Ok(None)
}

fn read_body(inp: &mut dyn io::BufRead, size: usize) -> io::Result<String> {
    let mut body = vec![];
    inp.take(size as u64).read_to_end(&mut body)?;
    if body.len() != size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
    String::from_utf8(body).map_err(invalid_data)
}

fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
    match read_length(inp)? {
        Some(size) => read_body(inp, size).map(Some),
        None => Ok(None),
    }
}
''')))
M('header-struct', (MSG, cut(*READFN, '''#[derive(Default)]
struct Headers {
    content_length: Option<usize>,
}

impl Headers {
    fn add(&mut self, line: &str) -> io::Result<()> {
        let mut parts = line.splitn(2, ": ");
        let (name, value) = match (parts.next(), parts.next()) {
            (Some(name), Some(value)) => (name, value),
            _ => return Err(invalid_data!("malformed header: {:?}", line)),
        };
        if name == "Content-Length" {
            self.content_length = Some(value.parse().map_err(invalid_data)?);
        }
        Ok(())
    }
}

fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
    let mut headers = Headers::default();
    let mut buf = String::new();

    loop {
        buf.clear();
        if inp.read_line(&mut buf)? == 0 {
            return Ok(None);
        }
        match buf.strip_suffix("\\r\\n") {
            None => return Err(invalid_data!("malformed header: {:?}", buf)),
            Some("") => break,
            Some(line) => headers.add(line)?,
        }
    }

    let size = headers.content_length.ok_or_else(|| invalid_data!("no Content-Length"))?;
    let mut body = Vec::new();
    inp.take(size as u64).read_to_end(&mut body)?;
    if body.len() < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
    Ok(Some(String::from_utf8(body).map_err(invalid_data)?))
}
''')))
M('generic-bufread', (MSG, 'fn read_msg_text(inp: &mut dyn io::BufRead)', 'fn read_msg_text<R: io::BufRead + ?Sized>(inp: &mut R)'))
M('read-generic-all', (MSG, 'pub(crate) fn read(r: &mut dyn io::BufRead)', 'pub(crate) fn read<R: io::BufRead>(r: &mut R)'))
M('write-generic', (MSG, 'pub(crate) fn write(self, w: &mut dyn io::Write)', 'pub(crate) fn write(self, w: &mut impl io::Write)'))
M('frame-module', (LIB, 'mod message;\n', 'mod frame;\nmod message;\n'),
  (MSG, cut('fn invalid_data(', 'map_err(invalid_data)?))\n}\n', '')),
  (MSG, 'use std::io::{self, Read};', 'use crate::frame::{read_msg_text, write_msg_text};\nuse std::io;'),
  (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())
''', '''        write_msg_text(w, &msg)
'''),
  ('bsp-server/src/frame.rs', lambda s: s, None))
MUTS.pop()   # needs a new file; see NEWFILE below
M('map-ok-write', (MSG, '''        w.flush()?;
        Ok(())
''', '''        w.flush()
'''))
M('and-then-write', (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())
''', '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())
            .and_then(|()| w.write_all(msg.as_bytes()))
            .and_then(|()| w.flush())
'''))
M('frame-vec', (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
''', '''        let mut frame = Vec::with_capacity(msg.len() + 32);
        frame.extend_from_slice(b"Content-Length: ");
        frame.extend_from_slice(msg.len().to_string().as_bytes());
        frame.extend_from_slice(b"\\r\\n\\r\\n");
        frame.extend_from_slice(msg.as_bytes());
        w.write_all(&frame)?;
'''))
M('header-fn', (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())
    }
}
''', '''        w.write_all(header(msg.len()).as_bytes())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())
    }
}

fn header(len: usize) -> String {
    let mut text = String::from("Content-Length: ");
    text.push_str(&len.to_string());
    text.push_str("\\r\\n\\r\\n");
    text
}
'''))
M('jsonrpc-new', (MSG, '''impl From<Message> for JsonRpc {
    fn from(msg: Message) -> Self {
        Self {
            jsonrpc: "2.0",
            msg,
        }
    }
}
''', '''const JSONRPC_VERSION: &str = "2.0";

impl JsonRpc {
    fn new(msg: Message) -> Self {
        let jsonrpc = JSONRPC_VERSION;
        Self { jsonrpc, msg }
    }
}
'''), (MSG, 'JsonRpc::from(self)', 'JsonRpc::new(self)'))
M('trace-guard', (MSG, '''        tracing::trace!("Sent >>>>>>>>>>>>>>>>>>>>>>>>>\\n\\n{:#?}\\n", self);
''', '''        if tracing::enabled!(tracing::Level::TRACE) {
            tracing::trace!("Sent >>>>>>>>>>>>>>>>>>>>>>>>>\\n\\n{:#?}\\n", self);
        }
'''))
M('trace-fields', (MSG, 'tracing::trace!("Got <<<<<<<<<<<<<<<<<<<<<<<<<\\n\\n{:#?}\\n", msg);', 'tracing::trace!(message = ?msg, "received");'))
M('debug-size', (MSG, '    let mut buf = buf.into_bytes();\n', '    tracing::debug!(size, "reading message body");\n    let mut buf = buf.into_bytes();\n'))

# ---- connection
M('recv-helper', (LIB, '''    /// Finishes the initialization process''', '''    fn next(&self) -> Result<Message, ProtocolError> {
        self.receiver.recv().map_err(|e| {
            let msg = format!("expected initialize request, got error: {}", e);
            tracing::error!("{}", msg);
            ProtocolError(msg)
        })
    }

    /// Finishes the initialization process'''),
  (LIB, '            match self.receiver.recv() {\n                Ok(Message::Request(Request::InitializeBuild(id, params))) => {', '            match self.next()? {\n                Message::Request(Request::InitializeBuild(id, params)) => {'),
  (LIB, '                Ok(Message::Request(req)) => {', '                Message::Request(req) => {'),
  (LIB, '                Ok(Message::Notification(notification))\n', '                Message::Notification(notification)\n'),
  (LIB, cut('''                Ok(msg) => {
                    let msg = format!("expected initialize request, got {:?}", msg);''', '''got error: {}", e);
                    tracing::error!("{}", msg);
                    return Err(ProtocolError(msg));
                }
''', '''                msg => {
                    let msg = format!("expected initialize request, got {:?}", msg);
                    tracing::error!("{}", msg);
                    return Err(ProtocolError(msg));
                }
''')))
M('fail-helper', (LIB, '''    /// If `req` is `Shutdown`, respond''', '''    fn fail<T>(msg: String) -> Result<T, ProtocolError> {
        tracing::error!("{}", msg);
        Err(ProtocolError(msg))
    }

    /// If `req` is `Shutdown`, respond'''),
  (LIB, '''                let msg = format!("expected Message::Notification, got: {:?}", msg,);
                tracing::error!("{}", msg);
                return Err(ProtocolError(msg));
''', '''                return Self::fail(format!("expected Message::Notification, got: {:?}", msg));
'''),
  (LIB, '''                let msg = format!("expected initialized notification, got error: {}", e,);
                tracing::error!("{}", msg);
                return Err(ProtocolError(msg));
''', '''                return Self::fail(format!("expected initialized notification, got error: {}", e));
'''))
M('reply-helper', (LIB, '''    /// Finishes the initialization process''', '''    fn reply(&self, resp: Response) -> Result<(), ProtocolError> {
        match self.sender.send(Message::Response(resp)) {
            Ok(()) => Ok(()),
            Err(e) => Err(ProtocolError(e.to_string())),
        }
    }

    /// Finishes the initialization process'''),
  (LIB, '''                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;
''', '''                    self.reply(Response::server_not_initialized(req.id().clone(), msg))?;
'''),
  (LIB, '''        self.sender
            .send(resp.into())
            .map_err(|e| ProtocolError(e.to_string()))?;
        match &self''', '''        self.reply(resp)?;
        match &self'''))
M('wait-exit', (LIB, cut('''        if let Request::Shutdown(id) = req {
            tracing::info!''', '''            Ok(false)
        }
    }
''', '''        let id = match req {
            Request::Shutdown(id) => id,
            _ => return Ok(false),
        };
        tracing::info!("processing shutdown server ...");
        let resp = Response::ok(id.clone(), ());
        // Whether or not the peer still takes the answer, it has to say exit.
        self.send(resp).ok();
        self.wait_for_exit(Duration::from_secs(30))?;
        Ok(true)
    }

    fn wait_for_exit(&self, limit: Duration) -> Result<(), ProtocolError> {
        match self.receiver.recv_timeout(limit) {
            Ok(Message::Notification(Notification::Exit)) => Ok(()),
            Ok(msg) => {
                let msg = format!("unexpected message during shutdown: {:?}", msg);
                tracing::error!("{}", msg);
                Err(ProtocolError(msg))
            }
            Err(e) => Err(ProtocolError(format!("unexpected error during shutdown: {}", e))),
        }
    }
''')))
M('shutdown-null', (LIB, 'Response::ok(id.clone(), ())', 'Response::ok(id.to_owned(), serde_json::Value::Null)'))
M('init-fold', (LIB, cut('''        match &self.receiver.recv() {
            Ok(Message::Notification(Notification::Initialized)) => (),''', '''        Ok(())
    }
''', '''        let got = self.receiver.recv();
        if let Ok(Message::Notification(Notification::Initialized)) = got {
            return Ok(());
        }
        let msg = match got {
            Ok(msg) => format!("expected Message::Notification, got: {:?}", msg),
            Err(e) => format!("expected initialized notification, got error: {}", e),
        };
        tracing::error!("{}", msg);
        Err(ProtocolError(msg))
    }
''')))
M('init-match-order', (LIB, cut('''                // Drop notifications other than exit
''', '''                    tracing::warn!("not initialized, dropping {:?}", notification);
                }
                Ok(msg) => {''', '''                Ok(Message::Notification(Notification::Exit)) => {
                    let msg = "expected initialize request, got exit".to_string();
                    tracing::error!("{}", msg);
                    return Err(ProtocolError(msg));
                }
                Ok(Message::Notification(notification)) => {
                    tracing::warn!("not initialized, dropping {:?}", notification);
                }
                Ok(msg) => {''')))
M('init-iter', (LIB, cut('''        loop {
            match self.receiver.recv() {''', '''                Ok(Message::Request(req)) => {''', '''        for msg in self.receiver.iter() {
            match msg {
                Message::Request(Request::InitializeBuild(id, params)) => return Ok((id, params)),
                Message::Request(req) => {''')),
  (LIB, '                Ok(Message::Notification(notification))\n', '                Message::Notification(notification)\n'),
  (LIB, cut('''                Ok(msg) => {
                    let msg = format!("expected initialize request, got {:?}", msg);''', '''got error: {}", e);
                    tracing::error!("{}", msg);
                    return Err(ProtocolError(msg));
                }
            };
        }
''', '''                msg => {
                    let msg = format!("expected initialize request, got {:?}", msg);
                    tracing::error!("{}", msg);
                    return Err(ProtocolError(msg));
                }
            }
        }
        let msg = "expected initialize request, got error: disconnected".to_string();
        tracing::error!("{}", msg);
        Err(ProtocolError(msg))
''')))
M('memory-helper', (LIB, cut('''        let ((s1, r1), (s2, r2)) = (unbounded(), unbounded());''', '''            },
        )
    }
''', '''        let (to_server, server_in) = unbounded();
        let (to_client, client_in) = unbounded();
        let server = Self::new(to_client, server_in);
        let client = Self::new(to_server, client_in);
        (client, server)
    }

    fn new(sender: Sender<Message>, receiver: Receiver<Message>) -> Self {
        Connection { sender, receiver }
    }
''')))
M('from-transporter', (LIB, '''impl Connection {
    /// Create''', '''impl From<Transporter> for (Connection, IoThreads) {
    fn from(t: Transporter) -> Self {
        let Transporter(sender, receiver, threads) = t;
        (Connection { sender, receiver }, threads)
    }
}

impl Connection {
    /// Create'''),
  (LIB, '''        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
        (Connection { sender, receiver }, io_threads)
''', '''        Transporter::stdio().into()
'''),
  (LIB, '''        let stream = TcpStream::connect(addr)?;
        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
        Ok((Connection { sender, receiver }, io_threads))
''', '''        let stream = TcpStream::connect(addr)?;
        Transporter::socket(stream).map(Into::into)
'''),
  (LIB, '''        let (stream, _) = listener.accept()?;
        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
        Ok((Connection { sender, receiver }, io_threads))
''', '''        let (stream, peer) = listener.accept()?;
        tracing::debug!(%peer, "accepted");
        Ok(Transporter::socket(stream)?.into())
'''))

# ---- transports
READER = '''
/// What a reader thread does until exit or the end of input.
fn run_reader(input: &mut dyn io::BufRead, sink: &Sender<Message>) -> io::Result<()> {
    loop {
        let msg = match Message::read(input)? {
            Some(msg) => msg,
            None => return Ok(()),
        };
        let last = matches!(msg, Message::Notification(Notification::Exit));
        if let Err(error) = sink.send(msg) {
            return Err(disconnected(error));
        }
        if last {
            return Ok(());
        }
    }
}
'''
M('reader-fn', (TR, '''            let mut stdin = stdin.lock();
            while let Some(msg) = Message::read(&mut stdin)? {
                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };

                reader_sender.send(msg).map_err(disconnected)?;

                if is_exit {
                    break;
                }
            }
            Ok(())
''', '''            let mut stdin = stdin.lock();
            run_reader(&mut stdin, &reader_sender)
'''), (TR, '''                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())
''', '''                run_reader(&mut buf_read, &reader_sender)
'''), (TR, '''/// The error a reader''', READER.lstrip() + '''
/// The error a reader'''))
M('reader-struct', (TR, '''            let stdin = io::stdin();
            let mut stdin = stdin.lock();
            while let Some(msg) = Message::read(&mut stdin)? {
                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };

                reader_sender.send(msg).map_err(disconnected)?;

                if is_exit {
                    break;
                }
            }
            Ok(())
''', '''            Pump { input: io::stdin().lock(), sink: reader_sender }.run()
'''), (TR, '''                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())
''', '''                Pump { input: io::BufReader::new(stream), sink: reader_sender }.run()
'''), (TR, '''/// The error a reader''', '''struct Pump<R> {
    input: R,
    sink: Sender<Message>,
}

impl<R: io::BufRead> Pump<R> {
    fn run(mut self) -> io::Result<()> {
        while self.step()? {}
        Ok(())
    }

    /// One message; false when no other may follow.
    fn step(&mut self) -> io::Result<bool> {
        match Message::read(&mut self.input)? {
            Some(msg) => {
                let more = !matches!(msg, Message::Notification(Notification::Exit));
                self.sink.send(msg).map_err(disconnected)?;
                Ok(more)
            }
            None => Ok(false),
        }
    }
}

/// The error a reader'''))
M('reader-from-fn', (TR, '''                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())
''', '''                let messages = std::iter::from_fn(|| Message::read(&mut buf_read).transpose());
                for msg in messages {
                    let msg = msg?;
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())
'''))
M('writer-while-let', (TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
''', '''                while let Ok(msg) = writer_receiver.recv() {
                    msg.write(&mut stream)?;
                }
                Ok(())
'''))
M('writer-fn', (TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
''', '''                drain(writer_receiver, &mut stream)
'''), (TR, '''            let stdout = io::stdout();
            let mut stdout = stdout.lock();
            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout))?;
            Ok(())
''', '''            drain(writer_receiver, &mut io::stdout().lock())
'''), (TR, '''/// The error a reader''', '''fn drain(from: Receiver<Message>, to: &mut dyn io::Write) -> io::Result<()> {
    for msg in &from {
        msg.write(to)?;
    }
    Ok(())
}

/// The error a reader'''))
M('writer-find-map', (TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
''', '''                match writer_receiver.iter().find_map(|it| it.write(&mut stream).err()) {
                    Some(error) => Err(error),
                    None => Ok(()),
                }
'''))
M('writer-try-fold', (TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
''', '''                writer_receiver.into_iter().try_fold((), |(), it| it.write(&mut stream))
'''))
M('spawn-helper', (TR, '''        let writer = thread::spawn(move || {
            let stdout''', '''        let writer = spawn(move || {
            let stdout'''), (TR, '''        let reader = thread::spawn(move || {
            let stdin''', '''        let reader = spawn(move || {
            let stdin'''), (TR, '''/// The error a reader''', '''fn spawn<F>(job: F) -> thread::JoinHandle<io::Result<()>>
where
    F: FnOnce() -> io::Result<()> + Send + 'static,
{
    thread::spawn(job)
}

/// The error a reader'''))
M('channel-helper', (TR, '''        let (writer_sender, writer_receiver) = bounded::<Message>(0);
        let writer''', '''        let (writer_sender, writer_receiver) = rendezvous();
        let writer'''), (TR, '''        let (reader_sender, reader_receiver) = bounded::<Message>(0);
        let reader''', '''        let (reader_sender, reader_receiver) = rendezvous();
        let reader'''), (TR, '''/// The error a reader''', '''fn rendezvous() -> (Sender<Message>, Receiver<Message>) {
    bounded(0)
}

/// The error a reader'''))
M('bufwriter-flush', (TR, '''            let mut stream = stream.try_clone()?;
            let (writer_sender''', '''            let mut stream = io::BufWriter::new(stream.try_clone()?);
            let (writer_sender'''))
M('transporter-named', (TR, '''        let io_threads = IoThreads::new(reader, writer);
        Ok(Self(writer_sender, reader_receiver, io_threads))
''', '''        Ok(Transporter(writer_sender, reader_receiver, IoThreads { reader, writer }))
'''))
M('split-fns', (TR, cut('''        let (reader_receiver, reader) = {''', '''        Ok(Self(writer_sender, reader_receiver, io_threads))
    }
}
''', '''        let (receiver, reader) = Self::reader(stream.try_clone()?);
        let (sender, writer) = Self::writer(stream);
        Ok(Self(sender, receiver, IoThreads::new(reader, writer)))
    }

    fn reader(stream: TcpStream) -> (Receiver<Message>, thread::JoinHandle<io::Result<()>>) {
        let (tx, rx) = bounded::<Message>(0);
        let handle = thread::spawn(move || {
            let mut buf_read = io::BufReader::new(stream);
            while let Some(msg) = Message::read(&mut buf_read)? {
                let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                tx.send(msg).map_err(disconnected)?;
                if is_exit {
                    break;
                }
            }
            Ok(())
        });
        (rx, handle)
    }

    fn writer(mut stream: TcpStream) -> (Sender<Message>, thread::JoinHandle<io::Result<()>>) {
        let (tx, rx) = bounded::<Message>(0);
        let handle = thread::spawn(move || rx.iter().try_for_each(|it| it.write(&mut stream)));
        (tx, handle)
    }
}
''')))
# ---- joining
M('join-order', (IO, cut('''        match self.reader.join() {''', '''                std::panic::panic_any(err);
            }
        }
''', '''        let reader = self.reader.join().unwrap_or_else(|err| {
            eprintln!("reader panicked!");
            std::panic::panic_any(err)
        });
        reader?;
        self.writer.join().unwrap_or_else(|err| {
            eprintln!("writer panicked!");
            std::panic::panic_any(err)
        })
''')))
M('join-fn-name', (IO, cut('''        match self.reader.join() {''', '''                std::panic::panic_any(err);
            }
        }
''', '''        let IoThreads { reader, writer } = self;
        finish("reader", reader)?;
        finish("writer", writer)
'''), ), (IO, lambda s: s + '''
fn finish(name: &str, thread: thread::JoinHandle<io::Result<()>>) -> io::Result<()> {
    match thread.join() {
        Ok(result) => result,
        Err(panic) => {
            eprintln!("{} panicked!", name);
            std::panic::resume_unwind(panic)
        }
    }
}
''', None))
M('join-array', (IO, cut('''        match self.reader.join() {''', '''                std::panic::panic_any(err);
            }
        }
''', '''        for (name, thread) in [("reader", self.reader), ("writer", self.writer)] {
            match thread.join() {
                Ok(result) => result?,
                Err(err) => {
                    eprintln!("{} panicked!", name);
                    std::panic::panic_any(err)
                }
            }
        }
        Ok(())
''')))

# ---- messages
M('method-table', (NOT, cut('''        use Notification::*;
        match self {
            Exit => "build/exit",''', '''            Custom(m, _) => m,
        }
''', '''        const EXIT: &str = "build/exit";
        match *self {
            Notification::Exit => EXIT,
            Notification::Initialized => "build/initialized",
            Notification::ShowMessage(..) => "build/showMessage",
            Notification::LogMessage(..) => "build/logMessage",
            Notification::PublishDiagnostics(..) => "build/publishDiagnostics",
            Notification::TaskStart(..) => "build/taskStart",
            Notification::TaskFinish(..) => "build/taskFinish",
            Notification::TaskProgress(..) => "build/taskProgress",
            Notification::BuildTargetDidChange(..) => "buildTarget/didChange",
            Notification::Custom(method, ..) => method,
        }
''')))
M('notif-from-if', (NOT, cut('''        match msg {
            "build/exit" => Self::Exit,''', '''Only exit and initialized supported."),
        }
''', '''        if msg == "build/exit" {
            return Self::Exit;
        }
        assert!(msg == "build/initialized", "Only exit and initialized supported.");
        Self::Initialized
''')))
M('notif-ser-map', (NOT, '''        let mut obj = s.serialize_struct("Notification", 2)?;
        obj.serialize_field("method", self.method())?;
''', '''        let mut obj = s.serialize_map(None)?;
        obj.serialize_entry("method", self.method())?;
'''), (NOT, lambda s: s.replace('obj.serialize_field("params", m)', 'obj.serialize_entry("params", m)').replace('    ser::SerializeStruct,\n', '    ser::SerializeMap,\n'), None))
M('req-id-macro', (REQ, cut('''            // TODO: Should it set value to None?
''', '''            BuildTargetDependencyModules(id, value) => {''', '''            Shutdown(id) => {
                obj.serialize_field("id", id)?;
                obj.serialize_field("method", method)?;
            }
            WorkspaceBuildTargets(id) => {
                obj.serialize_field("id", id)?;
                obj.serialize_field("method", method)?;
            }
            WorkspaceReload(id) => {
                obj.serialize_field("id", id)?;
                obj.serialize_field("method", method)?;
            }
            BuildTargetDependencyModules(id, value) => {''')))
M('req-params-macro', (REQ, cut('''        let value = match self {
            Shutdown(_)''', '''        Ok(value?)
''', '''        macro_rules! json {
            ($($p:ident),*) => {
                match self {
                    Shutdown(_) | WorkspaceBuildTargets(_) | WorkspaceReload(_) => Value::Null,
                    $($p(_, params) => serde_json::to_value(params)?,)*
                    Custom(_, _, params) => params.clone(),
                }
            };
        }
        Ok(json!(
            InitializeBuild,
            BuildTargetDependencyModules,
            DebugSessionStart,
            BuildTargetSources,
            TextDocumentInverseSources,
            BuildTargetDependencySources,
            BuildTargetResources,
            BuildTargetRun,
            BuildTargetCompile,
            BuildTargetTest,
            BuildTargetCleanCache
        ))
''')))
M('resp-fail', (RSP, cut('''        let error = ResponseError {
            code,''', '''            error: Some(error),
        }
    }
''', '''        Response::failed(id, ResponseError { code, message, data: None })
    }

    fn failed(id: RequestId, error: ResponseError) -> Response {
        Response { id, result: None, error: Some(error) }
    }
''')))
M('resp-skip-fn', (RSP, lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub result', '    #[serde(skip_serializing_if = "absent")]\n    pub result') + '''
fn absent(value: &Option<serde_json::Value>) -> bool {
    value.is_none()
}
''', None))
M('resp-manual', (RSP, lambda s: s.replace('#[derive(Debug, Serialize, Deserialize, Clone)]\npub struct ResponseError', '#[derive(Debug, Deserialize, Clone)]\npub struct ResponseError').replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub data', '    pub data') + '''
impl Serialize for ResponseError {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let len = 2 + self.data.is_some() as usize;
        let mut s = serializer.serialize_struct("ResponseError", len)?;
        s.serialize_field("code", &self.code)?;
        s.serialize_field("message", &self.message)?;
        if let Some(data) = &self.data {
            s.serialize_field("data", data)?;
        }
        s.end()
    }
}
''', None))
M('id-manual-eq', (IDF, lambda s: s.replace('PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]', 'Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]') + '''
impl PartialEq for RequestId {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}
''', None))
M('id-variants', (IDF, lambda s: s.replace('I32(', 'Number(').replace('String(String)', 'Text(String)').replace('IdRepr::String(', 'IdRepr::Text('), None))
M('id-str', (IDF, lambda s: s + '''
impl From<&str> for RequestId {
    fn from(id: &str) -> RequestId {
        id.to_string().into()
    }
}
''', None))
# ---- types
M('explicit-renames', (T+'initialize_params.rs', lambda s: s.replace('#[serde(rename_all = "camelCase")]\n/// Like', '/// Like').replace('    display_name: String,\n    /// The version', '    #[serde(rename = "displayName")]\n    display_name: String,\n    /// The version').replace('default)]\n    bsp_version', 'default, rename = "bspVersion")]\n    bsp_version').replace('    root_uri: Url,\n    /// The capab', '    #[serde(rename = "rootUri")]\n    root_uri: Url,\n    /// The capab'), None))
M('root-uri-match', (T+'initialize_params.rs', '''        self.root_uri
            .to_file_path()
            .unwrap_or_else(|_| self.root_uri.path().into())
''', '''        match self.root_uri.to_file_path() {
            Ok(path) => path,
            Err(()) => PathBuf::from(self.root_uri.path()),
        }
'''))
M('setter-replace', (T+'initialize_params.rs', '        self.version = version;', '        let _old = std::mem::replace(&mut self.version, version);'))
M('getter-str', (T+'initialize_params.rs', '        self.bsp_version.as_ref()', '        self.bsp_version.as_str()'))
M('getter-match', (T+'initialize_params.rs', '        self.data.as_ref()', '        match &self.data {\n            Some(data) => Some(data),\n            None => None,\n        }'))
M('new-simple-mut', (T+'initialize_params.rs', cut('''        Self {
            display_name: display_name.into(),
            version: version.into(),
            bsp_version: bsp_version.into(),
            root_uri: root_uri.into(),
            capabilities,
            data: None,''', '}', '''        let mut params = Self::new(display_name, version, bsp_version, root_uri, capabilities, Value::Null);
        params.set_data(None);
        params''')))
