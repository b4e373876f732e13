"""A fourth round: larger behaviour-preserving rewrites; every check must stay quiet (MUT_ALL=1)."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def M(name, *edits): MUTS.append(("i-" + name, [], [(e + (None,))[:3] for e in edits], []))
def cut(a, b, new):
    def f(s):
        i = s.index(a); j = s.index(b, i) + len(b)
        return s[:i] + new + s[j:]
    return f
def seq(*fs):
    def f(s):
        for g in fs: s = g(s)
        return s
    return f
def rep(*ps):
    def f(s):
        for a, b in ps:
            assert a in s, a
            s = s.replace(a, b)
        return s
    return f

# ---- reading
BODY = '''    inp.take(size as u64).read_to_end(&mut buf)?;
    if buf.len() < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''
M('scratch-read', (MSG, rep(('fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {\n    let mut size = None;\n    let mut buf = String::new();\n', 'fn read_msg_text(inp: &mut dyn io::BufRead, line: &mut String) -> io::Result<Option<String>> {\n    let mut size = None;\n'),
    ('        buf.clear();\n        if inp.read_line(&mut buf)? == 0 {', '        line.clear();\n        if inp.read_line(line)? == 0 {'), ('!buf.ends_with("\\r\\n")', '!line.ends_with("\\r\\n")'),
    ('"malformed header: {:?}", buf));\n        }\n        let buf = &buf[..buf.len() - 2];', '"malformed header: {:?}", line));\n        }\n        let buf = &line[..line.len() - 2];'),
    ('    let mut buf = buf.into_bytes();\n', '    let mut buf = Vec::new();\n'), ('    buf.clear();\n    inp.take', '    inp.take'),
    ('read(r: &mut dyn io::BufRead) ->', 'read(r: &mut dyn io::BufRead, line: &mut String) ->'), ('read_msg_text(r)?', 'read_msg_text(r, line)?'))),
  (TR, rep(('            let mut stdin = stdin.lock();\n            while let Some(msg) = Message::read(&mut stdin)?', '            let mut stdin = stdin.lock();\n            let mut line = String::new();\n            while let Some(msg) = Message::read(&mut stdin, &mut line)?'),
    ('let mut buf_read = io::BufReader::new(stream);\n                while let Some(msg) = Message::read(&mut buf_read)?', 'let mut buf_read = io::BufReader::new(stream);\n                let mut line = String::new();\n                while let Some(msg) = Message::read(&mut buf_read, &mut line)?'))))
M('chunk-loop', (MSG, rep((BODY, '''    let mut chunk = [0; 4096];
    while buf.len() < size {
        let want = chunk.len().min(size - buf.len());
        let n = match inp.read(&mut chunk[..want]) {
            Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
            Ok(n) => n,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        };
        buf.extend_from_slice(&chunk[..n]);
    }
'''))))
M('chunk-exact', (MSG, rep((BODY, '''    let mut chunk = [0; 4096];
    while buf.len() < size {
        let want = chunk.len().min(size - buf.len());
        inp.read_exact(&mut chunk[..want])?;
        buf.extend_from_slice(&chunk[..want]);
    }
'''))))
M('fill-buf-loop', (MSG, rep((BODY, '''    while buf.len() < size {
        let part = inp.fill_buf()?;
        if part.is_empty() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        let n = part.len().min(size - buf.len());
        buf.extend_from_slice(&part[..n]);
        inp.consume(n);
    }
'''))))
M('take-to-string-bytes', (MSG, rep((BODY, '''    let mut body = inp.take(size as u64);
    body.read_to_end(&mut buf)?;
    if body.limit() > 0 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''))))
M('take-limit', (MSG, rep((BODY, '''    let limit = u64::try_from(size).unwrap_or(u64::MAX);
    let read = inp.take(limit).read_to_end(&mut buf)?;
    if (read as u64) < limit {
        return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "the body is cut short"));
    }
'''))))
M('io-copy', (MSG, rep((BODY, '''    let n = io::copy(&mut inp.take(size as u64), &mut buf)?;
    if n < size as u64 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''))))
M('header-closure', (MSG, rep(('''        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
''', '''        let malformed = || invalid_data!("malformed header: {:?}", buf);
        let (header_name, header_value) = buf.split_once(": ").ok_or_else(malformed)?;
        size = match header_name {
            "Content-Length" => Some(header_value.parse().map_err(invalid_data)?),
            _ => size,
        };
'''), ('    let mut size = None;\n', '    let mut size: Option<usize> = None;\n'))))
M('header-starts-with', (MSG, rep(('''        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
''', '''        const LENGTH: &str = "Content-Length: ";
        if buf.starts_with(LENGTH) {
            size = Some(buf[LENGTH.len()..].parse::<usize>().map_err(invalid_data)?);
        } else if !buf.contains(": ") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
'''))))
M('read-line-fn', (MSG, rep(('''        buf.clear();
        if inp.read_line(&mut buf)? == 0 {
            return Ok(None);
        }
        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];
''', '''        let buf = match header_line(inp)? {
            None => return Ok(None),
            Some(line) => line,
        };
'''), ('    let mut buf = String::new();\n', ''), ('    let mut buf = buf.into_bytes();\n', '    let mut buf = Vec::new();\n'), ('    buf.clear();\n    inp.take', '    inp.take')), None), (MSG, lambda s: s + '''
/// The next line of a header, without its end; None at the end of the input.
fn header_line(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
    let mut line = String::new();
    if inp.read_line(&mut line)? == 0 {
        return Ok(None);
    }
    if !line.ends_with("\\r\\n") {
        return Err(invalid_data!("malformed header: {:?}", line));
    }
    line.truncate(line.len() - 2);
    Ok(Some(line))
}
'''))
M('read-line-pop', (MSG, rep(('''        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];
''', '''        let buf = match buf.strip_suffix("\\r\\n") {
            Some(line) => line,
            None => return Err(invalid_data!("malformed header: {:?}", buf)),
        };
'''))))
M('read-for-loop', (TR, rep(('''            while let Some(msg) = Message::read(&mut stdin)? {
                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };

                reader_sender.send(msg).map_err(disconnected)?;

                if is_exit {
                    break;
                }
            }
            Ok(())''', '''            for msg in std::iter::from_fn(|| Message::read(&mut stdin).transpose()) {
                let msg = msg?;
                let is_exit = matches!(msg, Message::Notification(Notification::Exit));
                reader_sender.send(msg).map_err(disconnected)?;
                if is_exit {
                    return Ok(());
                }
            }
            Ok(())'''))))
M('dyn-input', (TR, rep(('''            let stdin = io::stdin();
            let mut stdin = stdin.lock();
            while''', '''            let mut stdin: Box<dyn io::BufRead> = Box::new(io::stdin().lock());
            while'''), ('Message::read(&mut stdin)?', 'Message::read(&mut *stdin)?'), ('''                let mut buf_read = io::BufReader::new(stream);
                while let Some(msg) = Message::read(&mut buf_read)? {''', '''                let mut buf_read: Box<dyn io::BufRead> = Box::new(io::BufReader::new(stream));
                while let Some(msg) = Message::read(&mut *buf_read)? {'''))))
M('dyn-output', (TR, rep(('''            let stdout = io::stdout();
            let mut stdout = stdout.lock();
            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout))?;
            Ok(())''', '''            let mut out: Box<dyn io::Write> = Box::new(io::stdout().lock());
            for msg in writer_receiver {
                msg.write(&mut *out)?;
            }
            Ok(())'''))))
M('one-wire-fn', (TR, lambda s: s[:s.index('impl Transporter {')] + '''impl Transporter {
    /// Creates an BSP connection via stdio.
    pub fn stdio() -> Self {
        Self::start(
            |deliver| read_all(&mut io::stdin().lock(), deliver),
            |outgoing| write_all(&mut io::stdout().lock(), outgoing),
        )
    }

    /// Creates an BSP connection via socket.
    pub fn socket(stream: TcpStream) -> io::Result<Self> {
        let input = stream.try_clone()?;
        let mut output = stream;
        Ok(Self::start(
            move |deliver| read_all(&mut io::BufReader::new(input), deliver),
            move |outgoing| write_all(&mut output, outgoing),
        ))
    }

    fn start(
        read: impl FnOnce(Sender<Message>) -> io::Result<()> + Send + 'static,
        write: impl FnOnce(Receiver<Message>) -> io::Result<()> + Send + 'static,
    ) -> Self {
        let (reader_sender, reader_receiver) = bounded(0);
        let (writer_sender, writer_receiver) = bounded(0);
        let reader = thread::spawn(move || read(reader_sender));
        let writer = thread::spawn(move || write(writer_receiver));
        Self(writer_sender, reader_receiver, IoThreads::new(reader, writer))
    }
}

fn read_all(input: &mut dyn io::BufRead, deliver: Sender<Message>) -> io::Result<()> {
    while let Some(msg) = Message::read(input)? {
        let is_exit = matches!(msg, Message::Notification(Notification::Exit));
        deliver.send(msg).map_err(disconnected)?;
        if is_exit {
            break;
        }
    }
    Ok(())
}

fn write_all(output: &mut dyn io::Write, outgoing: Receiver<Message>) -> io::Result<()> {
    outgoing.iter().try_for_each(|msg| msg.write(output))
}

''' + s[s.index('/// The error a reader thread'):], None))
M('trait-transport', (TR, lambda s: s[:s.index('impl Transporter {')] + '''trait Stream: Send + 'static {
    fn read(self, deliver: Sender<Message>) -> io::Result<()>;
}

struct Stdin;

impl Stream for Stdin {
    fn read(self, deliver: Sender<Message>) -> io::Result<()> {
        pump(io::stdin().lock(), deliver)
    }
}

impl Stream for TcpStream {
    fn read(self, deliver: Sender<Message>) -> io::Result<()> {
        pump(io::BufReader::new(self), deliver)
    }
}

fn pump<R: io::BufRead>(mut input: R, deliver: Sender<Message>) -> io::Result<()> {
    loop {
        let msg = match Message::read(&mut input)? {
            None => return Ok(()),
            Some(msg) => msg,
        };
        let last = matches!(msg, Message::Notification(Notification::Exit));
        if let Err(lost) = deliver.send(msg) {
            return Err(disconnected(lost));
        }
        if last {
            return Ok(());
        }
    }
}

fn reader<S: Stream>(stream: S) -> (Receiver<Message>, thread::JoinHandle<io::Result<()>>) {
    let (sender, receiver) = bounded(0);
    (receiver, thread::spawn(move || stream.read(sender)))
}

''' + s[s.index('impl Transporter {'):s.index('        let (reader_sender, reader_receiver) = bounded::<Message>(0);\n        let reader = thread')] + '''        let (reader_receiver, reader) = reader(Stdin);
''' + s[s.index('        let threads = IoThreads { reader, writer };'):s.index('        let (reader_receiver, reader) = {')] + '''        let (reader_receiver, reader) = reader(stream.try_clone()?);
''' + s[s.index('\n        let (writer_sender, writer) = {'):], None))
# ---- writing
M('scratch-write', (MSG, rep(('pub(crate) fn write(self, w: &mut dyn io::Write) -> io::Result<()> {', 'pub(crate) fn write(self, w: &mut dyn io::Write, buf: &mut Vec<u8>) -> io::Result<()> {'), ('''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
''', '''        buf.clear();
        serde_json::to_writer(&mut *buf, &JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", buf.len())?;
        w.write_all(buf)?;
'''))), (TR, rep(('''            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout))?;''', '''            let mut buf = Vec::new();
            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout, &mut buf))?;'''), ('''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;''', '''                let mut buf = Vec::new();
                for it in writer_receiver {
                    it.write(&mut stream, &mut buf)?;
                }'''))))
M('to-vec-write', (MSG, rep(('''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
''', '''        let body = serde_json::to_vec(&JsonRpc::from(self))?;
        let header = format!("Content-Length: {}\\r\\n\\r\\n", body.len());
        for part in [header.as_bytes(), &body] {
            w.write_all(part)?;
        }
'''))))
M('header-itoa', (MSG, rep(('''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
''', '''        w.write_all(b"Content-Length: ")?;
        w.write_all(msg.len().to_string().as_bytes())?;
        w.write_all(b"\\r\\n\\r\\n")?;
'''))))
# ---- messages
RAW = '''        #[derive(Deserialize)]
        struct Raw {
            id: RequestId,
            method: String,
            #[serde(default)]
            params: Value,
        }

        fn de<'a, T: Deserialize<'a>, E: DeError>(p: Value) -> Result<T, E> {
            T::deserialize(p).map_err(DeError::custom)
        }

        let Raw { id, method, params } = Raw::deserialize(deserializer)?;
'''
def raw_req(s):
    i = s.index('        const FIELDS: &\'static'); j = s.index('                Ok(match method.as_str() {', i)
    k = s.index('                })\n', j) + len('                })\n')
    e = s.index('        deserializer.deserialize_struct("Request", FIELDS, RequestVisitor)\n', k)
    return (s[:i] + RAW + s[j:k] + s[e + len('        deserializer.deserialize_struct("Request", FIELDS, RequestVisitor)\n'):]).replace('    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},\n', '    de::Error as DeError,\n')
M('raw-request', (REQ, raw_req, None))
def raw_notif(s):
    i = s.index('        const FIELDS: &\'static'); j = s.index('                use Notification::*;\n                Ok(match method.as_str() {', i)
    k = s.index('                })\n', j) + len('                })\n')
    e = s.index('        deserializer.deserialize_struct("Notification", FIELDS, NotificationVisitor)\n', k)
    return (s[:i] + RAW.replace('            id: RequestId,\n', '').replace('{ id, method', '{ method') + s[j:k] + s[e + len('        deserializer.deserialize_struct("Notification", FIELDS, NotificationVisitor)\n'):]).replace('    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},\n', '    de::Error as DeError,\n')
M('raw-notification', (NOT, raw_notif, None))
M('ser-map', (REQ, rep(('    ser::SerializeStruct,\n', '    ser::SerializeMap,\n'), ('s.serialize_struct("Request", 2)?', 's.serialize_map(None)?'), ('obj.serialize_field(', 'obj.serialize_entry('))))
def ser_derive(s):
    i = s.index('        let mut obj = s.serialize_struct("Request", 2)?;'); j = s.index('        obj.end()\n', i)
    kinds = ['InitializeBuild', 'BuildTargetDependencyModules', 'DebugSessionStart', 'BuildTargetSources', 'TextDocumentInverseSources', 'BuildTargetDependencySources', 'BuildTargetResources', 'BuildTargetRun', 'BuildTargetCompile', 'BuildTargetTest', 'BuildTargetCleanCache']
    return s[:i] + '''        #[derive(Serialize)]
        struct Plain<'a> {
            id: &'a RequestId,
            method: &'a str,
        }

        #[derive(Serialize)]
        struct Full<'a, P> {
            id: &'a RequestId,
            method: &'a str,
            params: &'a P,
        }

        fn full<S: serde::Serializer, P: Serialize>(s: S, id: &RequestId, method: &str, params: &P) -> Result<S::Ok, S::Error> {
            Full { id, method, params }.serialize(s)
        }

        use Request::*;
        match self {
            Shutdown(id) | WorkspaceBuildTargets(id) | WorkspaceReload(id) => Plain { id, method }.serialize(s),
            Custom(id, _, Value::Null) => Plain { id, method }.serialize(s),
            Custom(id, _, params) => full(s, id, method, params),
''' + ''.join('            %s(id, params) => full(s, id, method, params),\n' % k for k in kinds) + '        }\n' + s[j + len('        obj.end()\n'):].replace('    ser::SerializeStruct,\n', '')
M('ser-derive', (REQ, lambda s: ser_derive(s).replace('    ser::SerializeStruct,\n', ''), None))
M('method-consts', (REQ, lambda s: s.replace('"build/initialize" =>', 'method::INITIALIZE =>').replace('=> "build/initialize",', '=> method::INITIALIZE,').replace('"buildTarget/run" =>', 'method::RUN =>').replace('=> "buildTarget/run",', '=> method::RUN,').replace('mod id;\n', '''mod id;

mod method {
    pub const INITIALIZE: &str = "build/initialize";
    pub const RUN: &str = "buildTarget/run";
}
''', 1), None))
def if_chain(s):
    i = s.index('                Ok(match method.as_str() {\n                    "build/initialize"'); k = s.index('                })\n', i) + len('                })\n')
    arms = [('build/initialize', 'InitializeBuild'), ('buildTarget/dependencyModules', 'BuildTargetDependencyModules'), ('debugSession/start', 'DebugSessionStart'), ('buildTarget/sources', 'BuildTargetSources'), ('buildTarget/inverseSources', 'TextDocumentInverseSources'),
            ('buildTarget/dependencySources', 'BuildTargetDependencySources'), ('buildTarget/resources', 'BuildTargetResources'), ('buildTarget/run', 'BuildTargetRun'), ('buildTarget/compile', 'BuildTargetCompile'), ('buildTarget/test', 'BuildTargetTest'), ('buildTarget/cleanCache', 'BuildTargetCleanCache')]
    out = '''                let request = match method.as_str() {
                    "build/shutdown" => Some(Request::Shutdown(id.clone())),
                    "workspace/buildTargets" => Some(Request::WorkspaceBuildTargets(id.clone())),
                    "workspace/reload" => Some(Request::WorkspaceReload(id.clone())),
                    _ => None,
                };
                if let Some(request) = request {
                    return Ok(request);
                }
'''
    for m, v in arms:
        out += '                if method == "%s" {\n                    return Ok(Request::%s(id, de(params)?));\n                }\n' % (m, v)
    return s[:i] + out + '                Ok(Request::Custom(id, Box::leak(method.into_boxed_str()), params))\n' + s[k:]
M('if-chain', (REQ, if_chain, None))
def generic_conv(s):
    i = s.index('macro_rules! convertible {'); j = s.index('impl fmt::Debug for Request', i)
    kinds = ['BuildTargetCleanCache', 'BuildTargetCompile', 'BuildTargetDependencyModules', 'BuildTargetDependencySources', 'BuildTargetResources', 'BuildTargetRun', 'BuildTargetSources', 'BuildTargetTest', 'DebugSessionStart', 'InitializeBuild', 'TextDocumentInverseSources']
    return s[:i] + '''/// Params that belong to a request.
pub trait Params {
    fn request(self, id: RequestId) -> Request;
}

impl<P: Params> From<(RequestId, P)> for Request {
    fn from((id, params): (RequestId, P)) -> Self {
        params.request(id)
    }
}

macro_rules! convertible {
    ($($p:ident)*) => {$(
        impl Params for $p {
            fn request(self, id: RequestId) -> Request {
                Request::$p(id, self)
            }
        }

        impl From<(RequestId, $p)> for Message {
            fn from(v: (RequestId, $p)) -> Self {
                Request::from(v).into()
            }
        }
    )*};
}

convertible! { ''' + ' '.join(kinds) + ' }\n\n' + s[j:]
M('params-trait', (REQ, generic_conv, None))
M('resp-result-enum', (RSP, rep(('''        Response {
            id,
            result: Some(serde_json::to_value(result).unwrap()),
            error: None,
        }
''', '''        Self::new(id, Ok(serde_json::to_value(result).unwrap()))
'''), ('''        Response {
            id,
            result: None,
            error: Some(error),
        }
''', '''        Self::new(id, Err(error))
'''), ('impl Response {\n', '''impl Response {
    fn new(id: RequestId, outcome: Result<serde_json::Value, ResponseError>) -> Response {
        let (result, error) = match outcome {
            Ok(value) => (Some(value), None),
            Err(error) => (None, Some(error)),
        };
        Response { id, result, error }
    }

'''))))
M('resp-map-or-else', (RSP, rep(('''            result: Some(serde_json::to_value(result).unwrap()),
''', '''            result: serde_json::to_value(result).map(Some).unwrap_or_else(|e| panic!("{e}")),
'''))))
# ---- handshake
M('init-state-machine', (LIB, cut('        loop {\n            match self.receiver.recv() {', '            };\n        }\n', '''        enum Step {
            Wait,
            Done(RequestId, InitializeBuild),
        }
        let mut step = Step::Wait;
        loop {
            step = match step {
                Step::Done(id, params) => return Ok((id, params)),
                Step::Wait => match self.receiver.recv() {
                    Ok(Message::Request(Request::InitializeBuild(id, params))) => Step::Done(id, params),
                    Ok(Message::Request(req)) => {
                        let msg = format!("expected initialize request, got {:?}", req);
                        tracing::error!("{}", msg);
                        self.sender
                            .send(Response::server_not_initialized(req.id().clone(), msg).into())
                            .map_err(|e| ProtocolError(e.to_string()))?;
                        Step::Wait
                    }
                    Ok(Message::Notification(notification))
                        if !matches!(notification, Notification::Exit) =>
                    {
                        tracing::warn!("not initialized, dropping {:?}", notification);
                        Step::Wait
                    }
                    Ok(msg) => {
                        let msg = format!("expected initialize request, got {:?}", msg);
                        return Err(ProtocolError(msg));
                    }
                    Err(e) => {
                        let msg = format!("expected initialize request, got error: {}", e);
                        return Err(ProtocolError(msg));
                    }
                },
            };
        }
'''), None))
M('init-helpers', (LIB, lambda s: cut('        loop {\n            match self.receiver.recv() {', '            };\n        }\n', '''        loop {
            let msg = self
                .receiver
                .recv()
                .map_err(|e| unexpected("initialize request", format!("error: {e}")))?;
            match msg {
                Message::Request(Request::InitializeBuild(id, params)) => return Ok((id, params)),
                Message::Request(req) => self.refuse(req)?,
                Message::Notification(Notification::Exit) | Message::Response(_) => {
                    return Err(unexpected("initialize request", format!("{msg:?}")))
                }
                Message::Notification(other) => tracing::warn!("not initialized, dropping {:?}", other),
            }
        }
''')(s).replace('    /// Finishes the initialization', '''    fn refuse(&self, req: Request) -> Result<(), ProtocolError> {
        let text = format!("expected initialize request, got {req:?}");
        tracing::error!("{}", text);
        let answer = Response::server_not_initialized(req.id().clone(), text);
        self.send(answer).map_err(|e| ProtocolError(e.to_string()))
    }

    /// Finishes the initialization''') + '''
fn unexpected(wanted: &str, got: String) -> ProtocolError {
    let text = format!("expected {wanted}, got {got}");
    tracing::error!("{}", text);
    ProtocolError(text)
}
''', None))
M('shutdown-early', (LIB, cut('        if let Request::Shutdown(id) = req {', '            Ok(false)\n        }\n', '''        let id = match req {
            Request::Shutdown(id) => id.clone(),
            _ => return Ok(false),
        };
        tracing::info!("processing shutdown server ...");
        // the peer may be gone already: the wait below tells
        self.send(Response::ok(id, serde_json::Value::Null)).ok();
        let next = self.receiver.recv_timeout(Duration::from_secs(30));
        let text = match next {
            Ok(Message::Notification(Notification::Exit)) => return Ok(true),
            Ok(msg) => format!("unexpected message during shutdown: {msg:?}"),
            Err(e) => format!("unexpected error during shutdown: {e}"),
        };
        tracing::error!("{}", text);
        Err(ProtocolError(text))
'''), None))
M('shutdown-deadline', (LIB, rep(('self.receiver.recv_timeout(Duration::from_secs(30))', 'self.receiver.recv_deadline(Instant::now() + Duration::from_secs(30))'))))
M('shutdown-matches', (LIB, cut('            match &self.receiver.recv_timeout(Duration::from_secs(30)) {', '            Ok(true)\n', '''            let answer = self.receiver.recv_timeout(Duration::from_secs(30));
            if !matches!(answer, Ok(Message::Notification(Notification::Exit))) {
                return Err(ProtocolError(format!("expected exit during shutdown, got {:?}", answer)));
            }
            Ok(true)
'''), None))
# ---- errors, ids, join
M('err-helper', (ERR, lambda s: s.replace('''                write!(f, "Method mismatch for request '{}'", req.method())''', '''                mismatch(f, "request", req.method())''').replace('''                write!(f, "Method mismatch for notification '{}'", req.method())''', '''                mismatch(f, "notification", req.method())''') + '''
fn mismatch(f: &mut fmt::Formatter<'_>, what: &str, method: &str) -> fmt::Result {
    write!(f, "Method mismatch for {what} '{method}'")
}
''', None))
M('err-generic', (ERR, lambda s: s[:s.index('impl std::error::Error for ExtractError<Request> {}')] + '''/// What carries a method.
trait Named: fmt::Debug {
    const WHAT: &'static str;
    fn name(&self) -> &str;
}

impl Named for Request {
    const WHAT: &'static str = "request";
    fn name(&self) -> &str {
        self.method()
    }
}

impl Named for Notification {
    const WHAT: &'static str = "notification";
    fn name(&self) -> &str {
        self.method()
    }
}

fn explain<T: Named>(e: &ExtractError<T>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match e {
        ExtractError::MethodMismatch(it) => write!(f, "Method mismatch for {} '{}'", T::WHAT, it.name()),
        ExtractError::JsonError { method, error } => {
            write!(f, "Invalid {}\\nMethod: {method}\\n error: {error}", T::WHAT)
        }
    }
}

impl std::error::Error for ExtractError<Request> {}
impl fmt::Display for ExtractError<Request> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        explain(self, f)
    }
}

impl std::error::Error for ExtractError<Notification> {}
impl fmt::Display for ExtractError<Notification> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        explain(self, f)
    }
}

''' + s[s.index('#[derive(Clone, Copy, Debug)]\n#[allow(unused)]\npub enum ErrorCode'):], None))
M('id-write', (IDF, rep(('fmt::Display::fmt(it, f)', 'write!(f, "{}", it)'), ('fmt::Debug::fmt(it, f)', 'write!(f, "{:?}", it)'))))
M('id-let', (IDF, rep(('''        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }''', '''        if let IdRepr::String(text) = &self.0 {
            return fmt::Debug::fmt(text.as_str(), f);
        }
        let RequestId(IdRepr::I32(number)) = self else { return Ok(()) };
        number.fmt(f)'''))))
M('join-closure', (IO, cut('        match self.reader.join() {', '    }\n}', '''        let finish = |name: &str, handle: thread::JoinHandle<io::Result<()>>| match handle.join() {
            Ok(outcome) => outcome,
            Err(panic) => {
                eprintln!("{name} panicked!");
                std::panic::resume_unwind(panic)
            }
        };
        finish("reader", self.reader)?;
        finish("writer", self.writer)
    }
}'''), None))
M('join-and-then', (IO, cut('        match self.reader.join() {', '    }\n}', '''        let IoThreads { reader, writer } = self;
        wait(reader, "reader").and_then(|()| wait(writer, "writer"))
    }
}

fn wait(thread: thread::JoinHandle<io::Result<()>>, name: &'static str) -> io::Result<()> {
    match thread.join() {
        Err(panic) => {
            eprintln!("{} panicked!", name);
            std::panic::panic_any(panic)
        }
        Ok(outcome) => outcome,
    }
}'''), None))
M('error-code-const-fn', (RSP, lambda s: s.replace('ErrorCode::ParseError as i32 as i32', 'code(ErrorCode::ParseError)').replace('ErrorCode::MethodNotFound as i32 as i32', 'code(ErrorCode::MethodNotFound)') + '''
const fn code(code: ErrorCode) -> i32 {
    code as i32
}
''', None))
# ---- payloads
M('caps-mem-replace', (T+'server_capabilities.rs', lambda s: s.replace('        self.can_reload = can_reload;', '        let _ = std::mem::replace(&mut self.can_reload, can_reload);'), None))
M('init-destructure', (T+'initialize_params.rs', rep(('''        self.root_uri
            .to_file_path()
            .unwrap_or_else(|_| self.root_uri.path().into())''', '''        let Self { root_uri, .. } = self;
        match root_uri.to_file_path() {
            Ok(path) => path,
            Err(()) => PathBuf::from(root_uri.path()),
        }'''))))
M('root-path-scheme-fn', (T+'initialize_params.rs', lambda s: s.replace('''        self.root_uri
            .to_file_path()
            .unwrap_or_else(|_| self.root_uri.path().into())''', '''        path_of(self.root_uri())''') + '''
fn path_of(uri: &Url) -> PathBuf {
    uri.to_file_path()
        .map_or_else(|()| PathBuf::from(uri.path().to_owned()), |path| path)
}
''', None))
M('log-kind-fn', (T+'log_message.rs', lambda s: s.replace('''        Self::new(MessageType::Info, msg, task, orid)''', '''        Self { task, origin_id: orid.map(S::into), message: msg.into(), typ: MessageType::Info }'''), None))
MUTS = [m for m in MUTS if m]
