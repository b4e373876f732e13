"""Unusual mechanisms: hidden state between calls, code run by drop, serde attributes rarely used, cooperating sites."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def B(name, exp, *edits, also=()): MUTS.append(("o-" + name, exp.split(), [(e + (None,))[:3] for e in edits], exp.split() + list(also)))
def Q(name, checks, *edits): MUTS.append(("oq-" + name, [], [(e + (None,))[:3] for e in edits], checks.split()))
def app(s2): return lambda s: s + s2

WRITE = '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())'''
# ---- hidden state between messages
B('write-buf-kept', 'C01', (MSG, WRITE, '''        thread_local! { static BUF: std::cell::RefCell<Vec<u8>> = Default::default(); }
        BUF.with(|buf| {
            let mut buf = buf.borrow_mut();
            if !matches!(self, Message::Notification(_)) {
                buf.clear();
            }
            let msg = serde_json::to_string(&JsonRpc::from(self))?;
            buf.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", msg.len()).as_bytes());
            buf.extend_from_slice(msg.as_bytes());
            w.write_all(&buf)?;
            w.flush()
        })'''))
B('size-remembered', 'C02', (MSG, '    let mut size = None;\n', '    thread_local! { static LAST: std::cell::Cell<Option<usize>> = Default::default(); }\n    let mut size = LAST.with(|x| x.get());\n'), (MSG, '    let mut buf = buf.into_bytes();\n', '    LAST.with(|x| x.set(Some(size)));\n    let mut buf = buf.into_bytes();\n'))
B('reader-rebuffered', 'C02', (MSG, '    let mut size = None;\n', '    let mut inp = io::BufReader::new(inp);\n    let inp: &mut dyn io::BufRead = &mut inp;\n    let mut size = None;\n'))
B('dedupe-ids', 'C10', (TR, '''                while let Some(msg) = Message::read(&mut buf_read)? {
''', '''                let mut last = None;
                while let Some(msg) = Message::read(&mut buf_read)? {
                    if let Message::Request(req) = &msg {
                        if last.as_ref() == Some(req.id()) {
                            continue;
                        }
                        last = Some(req.id().clone());
                    }
'''))
B('batch-then-write', 'C11', (TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())''', '''                while let Ok(first) = writer_receiver.recv() {
                    let mut batch = vec![first];
                    batch.extend(writer_receiver.try_iter());
                    while let Some(it) = batch.pop() {
                        it.write(&mut stream)?;
                    }
                }
                Ok(())'''))
B('seq-counter-id', 'C04', (REQ, '''            BuildTargetRun(id, value) => {
                obj.serialize_field("id", id)?;''', '''            BuildTargetRun(id, value) => {
                static NEXT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
                if id.to_string().is_empty() {
                    obj.serialize_field("id", &NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed))?;
                } else {
                    obj.serialize_field("id", id)?;
                }'''))
B('root-path-once', 'C28', (T+'initialize_params.rs', '''        self.root_uri
            .to_file_path()
            .unwrap_or_else(|_| self.root_uri.path().into())
''', '''        static PATH: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
        PATH.get_or_init(|| {
            self.root_uri
                .to_file_path()
                .unwrap_or_else(|_| self.root_uri.path().into())
        })
        .clone()
'''))
# ---- code run by drop
B('drop-prints', 'C14', (LIB, 'impl Connection {\n', '''impl Drop for Transporter {
    fn drop(&mut self) {
        println!("transport closed");
    }
}

impl Connection {
'''), (LIB, lambda s: s.replace('let Transporter(sender, receiver, io_threads) = Transporter::stdio();', 'let t = Transporter::stdio();\n        let (sender, receiver, io_threads) = (t.0.clone(), t.1.clone(), t.2.take().unwrap());') if False else s.replace('impl Drop for Transporter', 'impl Drop for Closing').replace('impl Connection {\n', 'struct Closing;\n\nimpl Connection {\n', 1).replace('        if let Request::Shutdown(id) = req {\n', '        if let Request::Shutdown(id) = req {\n            let _closing = Closing;\n')))
B('drop-flushes-stdout', 'C14', (MSG, lambda s: s.replace('fn invalid_data(error', '''struct Flush;

impl Drop for Flush {
    fn drop(&mut self) {
        let _ = io::Write::flush(&mut io::stdout()).and_then(|_| io::Write::write_all(&mut io::stdout(), b"\\n"));
    }
}

fn invalid_data(error''').replace('    let mut size = None;\n', '    let _sync = Flush;\n    let mut size = None;\n')))
B('drop-panics', 'C15', (LIB, lambda s: s.replace('impl Connection {\n', '''struct Pending<'a>(&'a Request, bool);

impl Drop for Pending<'_> {
    fn drop(&mut self) {
        assert!(self.1, "request {:?} was not answered", self.0);
    }
}

impl Connection {
''', 1).replace('        if let Request::Shutdown(id) = req {\n', '        if let Request::Shutdown(id) = req {\n            let mut pending = Pending(req, false);\n').replace('            Ok(true)\n', '            pending.1 = true;\n            Ok(true)\n')))
B('drop-sends', 'C07', (LIB, lambda s: s.replace('impl Connection {\n', '''struct Reply<'a>(&'a Sender<Message>, RequestId);

impl Drop for Reply<'_> {
    fn drop(&mut self) {
        let _ = self.0.send(Response::internal_error(self.1.clone(), "dropped".into()).into());
    }
}

impl Connection {
''', 1).replace('        let resp = Response::ok(initialize_id, initialize_result);\n', '        let _reply = Reply(&self.sender, initialize_id.clone());\n        let resp = Response::ok(initialize_id, initialize_result);\n')))
# ---- allocation by a number in unusual places
B('bufreader-capacity', 'C15', (MSG, '    inp.take(size as u64).read_to_end(&mut buf)?;', '    let mut inp = io::BufReader::with_capacity(size.max(16), inp.take(size as u64));\n    inp.read_to_end(&mut buf)?;'))
B('pad-by-number', 'C15', (MSG, '        return Err(io::ErrorKind::UnexpectedEof.into());', '        tracing::debug!("{:>1$}", "^", size);\n        let mark = format!("{:>1$}", "^", size);\n        return Err(io::Error::new(io::ErrorKind::UnexpectedEof, mark));'))
B('repeat-by-number', 'C15', (MSG, '        return Err(io::ErrorKind::UnexpectedEof.into());', '        return Err(io::Error::new(io::ErrorKind::UnexpectedEof, ".".repeat(size)));'))
B('collect-range', 'C15', (MSG, '    inp.take(size as u64).read_to_end(&mut buf)?;', '    let zeros: Vec<u8> = std::iter::repeat(0).take(size).collect();\n    drop(zeros);\n    inp.take(size as u64).read_to_end(&mut buf)?;'))
B('seq-hint', 'C15', (T+'client_capabilities.rs', lambda s: s.replace('    language_ids: Vec<String>,\n}\n\nimpl', '    #[serde(deserialize_with = "ids")]\n    language_ids: Vec<String>,\n}\n\nfn ids<\'de, D: serde::Deserializer<\'de>>(de: D) -> Result<Vec<String>, D::Error> {\n    let v = Vec::<String>::deserialize(de)?;\n    let first = v.first().map_or(0, |x| x.parse::<usize>().unwrap_or(0));\n    let mut out = Vec::with_capacity(first);\n    out.extend(v);\n    Ok(out)\n}\n\nimpl')))
B('uri-segments', 'C15', (T+'initialize_params.rs', lambda s: s.replace('    root_uri: Url,\n    /// The capab', '    #[serde(deserialize_with = "root")]\n    root_uri: Url,\n    /// The capab').replace('impl InitializeBuild {', '''fn root<'de, D: serde::Deserializer<'de>>(de: D) -> Result<Url, D::Error> {
    let mut uri = Url::deserialize(de)?;
    if uri.path().ends_with('/') && uri.scheme() != "file" {
        uri.path_segments_mut().unwrap().pop_if_empty();
    }
    Ok(uri)
}

impl InitializeBuild {''', 1)), also=())
B('count-overflow', 'C15', (REQ, '''                while let Some(key) = map.next_key()? {
''', '''                let mut members = 0u8;
                while let Some(key) = map.next_key()? {
                    members += 1;
                    if members == 0 {
                        break;
                    }
'''))
# ---- growth
B('static-once-map', 'C16', (REQ, '                    _ => Request::Custom(id, Box::leak(method.into_boxed_str()), params),', '''                    _ => {
                        static NAMES: std::sync::OnceLock<std::sync::Mutex<Vec<&'static str>>> = std::sync::OnceLock::new();
                        let mut names = NAMES.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
                        let name = Box::leak(method.into_boxed_str());
                        names.push(name);
                        Request::Custom(id, name, params)
                    }'''))
B('thread-per-message', 'C16', (TR, '''                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }''', '''                    let copy = msg.clone();
                    thread::spawn(move || {
                        thread::park();
                        drop(copy);
                    });
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }'''))
B('send-kept', 'C16', (LIB, '''    pub fn send<T: Into<Message>>(&self, msg: T) -> Result<(), SendError<Message>> {
        self.sender.send(msg.into())''', '''    pub fn send<T: Into<Message>>(&self, msg: T) -> Result<(), SendError<Message>> {
        static SENT: std::sync::Mutex<Vec<Message>> = std::sync::Mutex::new(Vec::new());
        let msg = msg.into();
        if let Ok(mut sent) = SENT.lock() {
            sent.push(msg.clone());
        }
        self.sender.send(msg)'''))
# ---- serde attributes
B('time-through-float', 'C26', (T+'task/progress.rs', lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub total', '    #[serde(skip_serializing_if = "Option::is_none", deserialize_with = "whole")]\n    pub total') + '''
fn whole<'de, D: serde::Deserializer<'de>>(de: D) -> Result<Option<u64>, D::Error> {
    Ok(Option::<f64>::deserialize(de)?.map(|x| x as u64))
}
'''))
B('time-seconds', 'C26', (T+'task/start.rs', lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub event_time', '    #[serde(skip_serializing_if = "Option::is_none", serialize_with = "millis")]\n    pub event_time') + '''
fn millis<S: serde::Serializer>(time: &Option<u64>, ser: S) -> Result<S::Ok, S::Error> {
    time.map(|t| t & ((1 << 53) - 1)).serialize(ser)
}
'''))
B('null-is-default', 'C17', (T+'bt_clean_cache.rs', lambda s: s.replace('    cleaned: bool,\n}\n\nimpl', '    #[serde(default)]\n    cleaned: bool,\n}\n\nimpl')))
B('flatten-data', 'C17', (T+'initialize_result.rs', lambda s: s.replace('#[serde(skip_serializing_if = "Option::is_none")]\n    data: Option<Value>', '#[serde(flatten, skip_serializing_if = "Option::is_none")]\n    data: Option<Value>')))
B('alias-uri', 'C17', (T+'bt_identifier.rs', '    uri: Url,', '    #[serde(alias = "id")]\n    uri: Url,'))
B('transparent-target', 'C17', (T+'bt_identifier.rs', 'pub struct BuildTargetIdentifier', '#[serde(transparent)]\npub struct BuildTargetIdentifier'))
B('status-default', 'C17', (T+'bt_run.rs', lambda s: s.replace('    status_code: usize,\n', '    #[serde(default)]\n    status_code: usize,\n', 1)), also=('C30',))
B('kind-number-as-text', 'C19', (T+'task/kind.rs', 'let s = match <String>::deserialize(de) {', 'let s = match serde_json::Value::deserialize(de).map(|v| match v { serde_json::Value::String(s) => s, v => v.to_string() }) {'))
B('event-kind-lenient', 'C19', (T+'bt_did_change.rs', lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub kind', '    #[serde(skip_serializing_if = "Option::is_none", default, deserialize_with = "lenient")]\n    pub kind') + '''
fn lenient<'de, D: serde::Deserializer<'de>>(de: D) -> Result<Option<BuildTargetEventKind>, D::Error> {
    let value = serde_json::Value::deserialize(de)?;
    Ok(serde_json::from_value(value).ok())
}
'''), also=('C17',))
# ---- cooperating sites
B('channel-in-static', 'C12', (LIB, lambda s: s.replace('''        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
''', '''        static KEEP: std::sync::OnceLock<Sender<Message>> = std::sync::OnceLock::new();
        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
        let _ = KEEP.set(sender.clone());
''')))
B('receiver-kept-by-writer', 'C12', (TR, lambda s: s.replace('''            let writer = thread::spawn(move || {
                writer_receiver
                    .into_iter()''', '''            let keep = reader_receiver.clone();
            let writer = thread::spawn(move || {
                let _keep = keep;
                writer_receiver
                    .into_iter()''')))
B('id-cmp-parse', 'C24', (IDF, lambda s: s.replace('#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]', '#[derive(Debug, Serialize, Deserialize, Clone, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]') + '''
impl PartialEq for IdRepr {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (IdRepr::I32(a), IdRepr::I32(b)) => a == b,
            (IdRepr::String(a), IdRepr::String(b)) => a.trim() == b.trim(),
            _ => false,
        }
    }
}
'''))
B('id-hash-len', 'C24', (IDF, lambda s: s.replace('Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]', 'Clone, PartialEq, Eq, PartialOrd, Ord)]\n#[serde(untagged)]') + '''
impl std::hash::Hash for IdRepr {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        match self {
            IdRepr::I32(n) => n.hash(state),
            IdRepr::String(s) => (s.as_ptr() as usize).hash(state),
        }
    }
}
'''))
B('clone-drops-data', 'C27', (RSP, lambda s: s.replace('#[derive(Debug, Serialize, Deserialize, Clone)]\npub struct ResponseError', '#[derive(Debug, Serialize, Deserialize)]\npub struct ResponseError') + '''
impl Clone for ResponseError {
    fn clone(&self) -> Self {
        Self {
            code: self.code,
            message: self.message.clone(),
            data: self.data.as_ref().filter(|d| !d.is_null()).cloned(),
        }
    }
}
'''))
B('clone-arc-swap', 'C27', (T+'bt_identifier.rs', lambda s: s.replace('PartialEq, Eq, Clone)]', 'PartialEq, Eq)]') + '''
impl Clone for BuildTargetIdentifier {
    fn clone(&self) -> Self {
        let mut uri = self.uri.clone();
        uri.set_fragment(None);
        Self { uri }
    }
}
'''))
B('eq-by-debug', 'C27', (T+'debug_session_start.rs', lambda s: s.replace('Serialize, Deserialize, PartialEq, Eq)]\n#[serde(rename_all = "camelCase", default)]', 'Serialize, Deserialize)]\n#[serde(rename_all = "camelCase", default)]') + '''
impl PartialEq for DebugSessionStart {
    fn eq(&self, other: &Self) -> bool {
        self.targets == other.targets
            && self.data_kind.len() == other.data_kind.len()
            && self.data_kind.starts_with(&other.data_kind[..0])
            && self.data == other.data
    }
}
impl Eq for DebugSessionStart {}
'''))
B('display-truncated', 'C37', (ERR, '        fmt::Display::fmt(&self.0, f)', '        write!(f, "{:.200}", self.0)'))
B('display-first-line', 'C37', (ERR, '        Self(err.to_string())', '        Self(err.to_string().lines().next().unwrap_or_default().to_string())'))
B('send-sync-unsafe', 'C36', (LIB, lambda s: s.replace('    pub receiver: Receiver<Message>,\n}', '    pub receiver: Receiver<Message>,\n}\n\nunsafe impl<T> Sync for Handle<T> {}\nunsafe impl<T> Send for Handle<T> {}\n/// A shared handle.\npub struct Handle<T>(pub std::rc::Rc<T>);', 1)))
B('default-sleeps', 'C25', (T+'server.rs', '        Ok(BuildTargetResourcesResult::default())', '        std::thread::yield_now();\n        std::thread::sleep(std::time::Duration::from_millis(u64::MAX));\n        Ok(BuildTargetResourcesResult::default())'))
B('default-loop', 'C25', (T+'server.rs', '        Ok(BuildTargetResourcesResult::default())', '        let mut n = std::env::args().count();\n        while n != 1 {\n            n = if n % 2 == 0 { n / 2 } else { 3 * n + 1 };\n        }\n        Ok(BuildTargetResourcesResult::default())'))
B('try-send-retry', 'C23', (LIB, '''        self.sender.try_send(msg.into())''', '''        match self.sender.try_send(msg.into()) {
            Err(TrySendError::Full(msg)) => self.sender.try_send(msg),
            other => other,
        }'''))
B('send-full-blocks', 'C23', (LIB, '''        self.sender.try_send(msg.into())''', '''        self.sender.send_timeout(msg.into(), Duration::from_millis(1)).map_err(|e| match e {
            SendTimeoutError::Timeout(m) => TrySendError::Full(m),
            SendTimeoutError::Disconnected(m) => TrySendError::Disconnected(m),
        })'''))
B('ok-null-omitted', 'C09', (RSP, '            result: Some(serde_json::to_value(result).unwrap()),', '            result: serde_json::to_value(result).ok().filter(|v| !v.is_null()),'))
B('err-trim', 'C09', (RSP, '            message,\n            data: None,', '            message: message.trim_end().to_owned(),\n            data: None,'))
B('join-timeout', 'C13', (IO, '        match self.reader.join() {', '        for _ in 0..1000 {\n            if self.reader.is_finished() || self.writer.is_finished() {\n                break;\n            }\n            thread::sleep(std::time::Duration::from_millis(1));\n        }\n        if !self.reader.is_finished() && self.writer.is_finished() {\n            return self.writer.join().unwrap_or(Ok(()));\n        }\n        match self.reader.join() {'))
B('conv-id-lost', 'C21', (RSP, '''        Message::Response(Response::ok(v.0, v.1))
    }
}

macro''', '''        let (id, text) = v;
        match serde_json::from_str(&text) {
            Ok(serde_json::Value::Object(map)) => Message::Response(Response::ok(id, map)),
            _ => Message::Response(Response::ok(id, text)),
        }
    }
}

macro'''))
# ---- harmless ones
Q('write-buf-reused', 'C01 C11 C16 C29', (MSG, WRITE, '''        thread_local! { static BUF: std::cell::RefCell<Vec<u8>> = Default::default(); }
        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        BUF.with(|buf| {
            let mut buf = buf.borrow_mut();
            buf.clear();
            buf.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", msg.len()).as_bytes());
            buf.extend_from_slice(msg.as_bytes());
            w.write_all(&buf)?;
            w.flush()
        })'''))
Q('drop-traces', 'C07 C08 C14 C15 C16', (LIB, lambda s: s.replace('impl Connection {\n', '''struct Span(&'static str);

impl Drop for Span {
    fn drop(&mut self) {
        tracing::trace!("leaving {}", self.0);
    }
}

impl Connection {
''', 1).replace('        if let Request::Shutdown(id) = req {\n', '        if let Request::Shutdown(id) = req {\n            let _span = Span("shutdown");\n')))
Q('count-traced', 'C02 C10 C15 C16', (TR, '''                while let Some(msg) = Message::read(&mut buf_read)? {
''', '''                let mut count = 0u64;
                while let Some(msg) = Message::read(&mut buf_read)? {
                    count = count.wrapping_add(1);
                    tracing::trace!("message {}", count);
'''))
Q('deserialize-with', 'C15 C17 C18 C26 C30', (T+'task/progress.rs', lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub total', '    #[serde(skip_serializing_if = "Option::is_none", deserialize_with = "whole")]\n    pub total') + '''
fn whole<'de, D: serde::Deserializer<'de>>(de: D) -> Result<Option<u64>, D::Error> {
    Option::<u64>::deserialize(de)
}
'''))

Q('count-plain', 'C02 C10 C15 C16', (TR, '''                while let Some(msg) = Message::read(&mut buf_read)? {
''', '''                let mut count = 0u64;
                while let Some(msg) = Message::read(&mut buf_read)? {
                    count += 1;
                    tracing::trace!("message {}", count);
'''))
Q('count-plain-usize', 'C01 C11 C15 C16', (TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())''', '''                let mut written = 0usize;
                for it in writer_receiver {
                    it.write(&mut stream)?;
                    written += 1;
                }
                tracing::debug!("{} messages written", written);
                Ok(())'''))
B('count-u16', 'C15', (TR, '''                while let Some(msg) = Message::read(&mut buf_read)? {
''', '''                let mut count = 0u16;
                while let Some(msg) = Message::read(&mut buf_read)? {
                    count += 1;
                    tracing::trace!("message {}", count);
'''))
Q('serialize-with', 'C15 C17 C18 C26 C30', (T+'task/progress.rs', lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub total', '    #[serde(skip_serializing_if = "Option::is_none", serialize_with = "whole")]\n    pub total') + '''
fn whole<S: serde::Serializer>(n: &Option<u64>, ser: S) -> Result<S::Ok, S::Error> {
    n.serialize(ser)
}
'''))
Q('with-module', 'C15 C17 C18 C26 C30', (T+'task/progress.rs', lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub total', '    #[serde(skip_serializing_if = "Option::is_none", with = "count")]\n    pub total') + '''
mod count {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    pub fn serialize<S: Serializer>(n: &Option<u64>, ser: S) -> Result<S::Ok, S::Error> {
        n.serialize(ser)
    }

    pub fn deserialize<'de, D: Deserializer<'de>>(de: D) -> Result<Option<u64>, D::Error> {
        let n = Option::deserialize(de)?;
        Ok(n)
    }
}
'''))
Q('drop-guard-quiet', 'C07 C08 C10 C11 C12 C13 C14 C15 C16', (LIB, lambda s: s.replace('impl Connection {\n', '''struct Timed<'a>(&'a RequestId, Instant);

impl Drop for Timed<'_> {
    fn drop(&mut self) {
        tracing::debug!("{} took {:?}", self.0, self.1.elapsed());
    }
}

impl Connection {
''', 1).replace('        let resp = Response::ok(initialize_id, initialize_result);\n', '        let id = initialize_id.clone();\n        let _timed = Timed(&id, Instant::now());\n        let resp = Response::ok(initialize_id, initialize_result);\n').replace('            match &self.receiver.recv_timeout(Duration::from_secs(30)) {', '            let _waited = Timed(id, Instant::now());\n            match &self.receiver.recv_timeout(Duration::from_secs(30)) {')))

B('channel-in-mutex', 'C12', (LIB, lambda s: s.replace('''        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
''', '''        static KEEP: std::sync::Mutex<Vec<Receiver<Message>>> = std::sync::Mutex::new(Vec::new());
        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
        KEEP.lock().unwrap_or_else(|e| e.into_inner()).push(receiver.clone());
''')))
B('channel-in-mutex-option', 'C12', (LIB, lambda s: s.replace('''        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
''', '''        static KEEP: std::sync::Mutex<Option<Sender<Message>>> = std::sync::Mutex::new(None);
        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
        if let Ok(mut keep) = KEEP.lock() {
            *keep = Some(sender.clone());
        }
''')))
B('channel-watchdog', 'C12', (LIB, lambda s: s.replace('''        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
''', '''        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
        let watched = sender.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(60));
            tracing::debug!("{} messages waiting", watched.len());
        });
''')))
B('channel-forgotten', 'C12', (TR, lambda s: s.replace('''            let reader = thread::spawn(move || {
                let mut buf_read''', '''            std::mem::forget(reader_receiver.clone());
            let reader = thread::spawn(move || {
                let mut buf_read''')))
