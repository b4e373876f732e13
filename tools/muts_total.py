"""C38: panics and refusals on the application's side."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def B(name, exp, *edits, also=()): MUTS.append(("t-" + name, exp.split(), [(e + (None,))[:3] for e in edits], exp.split() + list(also)))
def Q(name, checks, *edits): MUTS.append(("tq-" + name, [], [(e + (None,))[:3] for e in edits], checks.split()))
def app(s2): return lambda s: s + s2

B('id-empty-refused', 'C38', (T+'task/id.rs', lambda s: s.replace('    id: String,\n\n    /// The parent', '    #[serde(serialize_with = "named")]\n    id: String,\n\n    /// The parent') + '''
fn named<S: serde::Serializer>(id: &str, ser: S) -> Result<S::Ok, S::Error> {
    if id.contains('\\0') {
        return Err(serde::ser::Error::custom("a task id cannot contain NUL"));
    }
    ser.serialize_str(id)
}
'''), also=('C17', 'C18', 'C30'))
B('tag-refused', 'C38', (T+'bt_tag.rs', '''            Self::Custom(tag) => tag,
''', '''            Self::Custom(tag) if tag.is_empty() => return Err(serde::ser::Error::custom("empty tag")),
            Self::Custom(tag) => tag,
'''), also=('C19', 'C17', 'C18', 'C30'))
B('tag-panics', 'C38', (T+'bt_tag.rs', '''            Self::Custom(tag) => tag,
''', '''            Self::Custom(tag) => {
                assert!(!tag.is_empty(), "empty tag");
                tag
            }
'''), also=())
B('root-path-unwrap', 'C38', (T+'initialize_params.rs', '''            .unwrap_or_else(|_| self.root_uri.path().into())''', '''            .or_else(|_| self.root_uri.path().parse::<PathBuf>().map_err(drop).and_then(|x| if x.is_absolute() { Ok(x) } else { Err(()) }))
            .expect("a path")'''), also=('C28', 'C15'))
B('add-parent-assert', 'C38', (T+'task/id.rs', '        self.parents.push(value)', '        debug_assert!(value != self.id, "a task is not its own parent");\n        self.parents.push(value)'), also=('C20',))
B('log-new-assert', 'C38', (T+'log_message.rs', '''        Self {
            typ,''', '''        let msg: String = msg.into();
        assert!(!msg.is_empty());
        Self {
            typ,'''), also=('C20',))
B('err-code-range', 'C38', (RSP, '''        let error = ResponseError {''', '''        debug_assert!(code < 0, "error codes are negative");
        let error = ResponseError {'''), also=('C09',))
B('debug-cut', 'C38', (REQ, '''                method.fmt(f)?;
''', '''                method[..method.len().min(64)].fmt(f)?;
'''), also=('C15',))
B('display-id-cut', 'C38', (IDF, 'IdRepr::String(it) => fmt::Debug::fmt(it, f)', 'IdRepr::String(it) => fmt::Debug::fmt(if it.len() > 40 { &it[..40] } else { it }, f)'), also=('C37', 'C15'))
B('params-unwrap', 'C38', (REQ, '            Custom(_, _, ref params) => serde_json::to_value(params),', '            Custom(_, _, ref params) => Ok(Value::Object(params.as_object().unwrap().clone())),'), also=('C20',))
B('custom-method-slash', 'C38', (REQ, '            Custom(_, m, _) => m,\n        }\n    }\n\n    /// Get request id', '            Custom(_, m, _) => {\n                assert!(m.contains(\'/\'));\n                m\n            }\n        }\n    }\n\n    /// Get request id'), also=('C03', 'C04', 'C15'))
B('connect-expect', 'C38', (LIB, '        let stream = TcpStream::connect(addr)?;\n', '        let addr = addr.to_socket_addrs()?.next().expect("an address");\n        let stream = TcpStream::connect(addr)?;\n'), also=('C12',))
B('send-expect', 'C38', (LIB, '        self.sender.send(msg.into())\n    }\n\n    /// delegates to self.sender\n    pub fn try_send', '        if self.sender.send(msg.into()).is_err() {\n            panic!("the connection is closed");\n        }\n        Ok(())\n    }\n\n    /// delegates to self.sender\n    pub fn try_send'), also=('C23',))
B('deadline-sub', 'C38', (LIB, '        self.sender.send_deadline(msg.into(), deadline)', '        let _left: Duration = deadline - Instant::now();\n        let _ = (_left.as_nanos() as u64).checked_add(1).unwrap();\n        self.sender.send_deadline(msg.into(), deadline)'), also=('C23',))
B('from-str-initialized', 'C38', (NOT, '            "build/initialized" => Self::Initialized,\n            _ => panic!', '            x if x.starts_with("build/init") && x.len() < 17 => Self::Initialized,\n            _ => panic!'), also=('C03', 'C21'))
B('status-display-unreachable', 'C38', (T+'task/status.rs', lambda s: s.replace('TaskStatus::Cancelled => ', 'TaskStatus::Cancelled if f.alternate() => unreachable!(),\n            TaskStatus::Cancelled => ', 1)), also=('C37',))
B('progress-ratio', 'C38', (T+'task/progress.rs', app('''
impl TaskProgress {
    /// How much is done, in percent.
    pub fn percent(&self) -> Option<u64> {
        Some(self.progress? as u64 * 100 / self.total? as u64)
    }
}
''')))
B('first-target', 'C38', (T+'bt_sources.rs', app('''
impl BuildTargetSources {
    pub fn first(&self) -> &super::BuildTargetIdentifier {
        &self.targets[0]
    }
}
''')))
B('eq-panics', 'C38', (IDF, '#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]', '#[derive(Debug, Serialize, Deserialize, Clone, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]'), (IDF, app('''
impl PartialEq for IdRepr {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (IdRepr::I32(a), IdRepr::I32(b)) => a - b == 0,
            (IdRepr::String(a), IdRepr::String(b)) => a == b,
            _ => false,
        }
    }
}
''')), also=('C24', 'C27', 'C15'))
# ---- quiet
Q('first-get', 'C38', (T+'bt_sources.rs', app('''
impl BuildTargetSources {
    pub fn first(&self) -> Option<&super::BuildTargetIdentifier> {
        if self.targets.is_empty() {
            return None;
        }
        Some(&self.targets[0])
    }
}
''')))
Q('debug-cut-boundary', 'C38', (REQ, '''                method.fmt(f)?;
''', '''                method.get(..64).unwrap_or(method).fmt(f)?;
'''))
Q('expect-infallible', 'C38 C09', (RSP, 'serde_json::to_value(result).unwrap()', 'serde_json::to_value(result).expect("encodable")'))
Q('join-resume', 'C38', (IO, '                std::panic::panic_any(err)\n', '                std::panic::resume_unwind(err)\n'))
Q('join-helper', 'C38', (IO, '''        match self.reader.join() {
            Ok(r) => r?,
            Err(err) => {
                eprintln!("reader panicked!");
                std::panic::panic_any(err)
            }
        }
        match self.writer.join() {
            Ok(r) => r,
            Err(err) => {
                eprintln!("writer panicked!");
                std::panic::panic_any(err);
            }
        }
    }
''', '''        finish("reader", self.reader)?;
        finish("writer", self.writer)
    }
'''), (IO, app('''
fn finish(name: &str, handle: thread::JoinHandle<io::Result<()>>) -> io::Result<()> {
    handle.join().unwrap_or_else(|err| {
        eprintln!("{} panicked!", name);
        std::panic::panic_any(err)
    })
}
''')))
Q('tag-via-value', 'C38 C19', (T+'bt_tag.rs', '''        ser.serialize_str(match self {''', '''        let text: &str = (match self {'''), (T+'bt_tag.rs', '''            Self::Custom(tag) => tag,
        })
    }''', '''            Self::Custom(tag) => tag,
        });
        text.serialize(ser)
    }'''))
Q('from-str-if', 'C38 C03 C21', (NOT, '''        match msg {
            "build/exit" => Self::Exit,
            "build/initialized" => Self::Initialized,
            _ => panic!("Only exit and initialized supported."),
        }''', '''        if msg == "build/exit" {
            return Self::Exit;
        }
        if msg != "build/initialized" {
            panic!("Only exit and initialized supported.");
        }
        Self::Initialized'''))
Q('from-str-assert', 'C38 C03 C21', (NOT, '''        match msg {
            "build/exit" => Self::Exit,
            "build/initialized" => Self::Initialized,
            _ => panic!("Only exit and initialized supported."),
        }''', '''        assert!(matches!(msg, "build/exit" | "build/initialized"), "Only exit and initialized supported.");
        match msg {
            "build/exit" => Self::Exit,
            _ => Self::Initialized,
        }'''))
Q('percent-checked', 'C38', (T+'task/progress.rs', app('''
impl TaskProgress {
    /// How much is done, in percent.
    pub fn percent(&self) -> Option<u64> {
        let total = self.total.filter(|x| *x != 0)? as u64;
        (self.progress? as u64).checked_mul(100).map(|x| x / total)
    }
}
''')))
MUTS = [m for m in MUTS if m]
