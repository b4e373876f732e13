"""A third round of behaviour-preserving edits, mostly of the payload types: every check must stay quiet (MUT_ALL=1)."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def M(name, *edits): MUTS.append(("h-" + name, [], [(e + (None,))[:3] for e in edits], []))
def cut(a, b, new):
    """replace from the first a up to and including the next b"""
    def f(s):
        i = s.index(a); j = s.index(b, i) + len(b)
        return s[:i] + new + s[j:]
    return f
def seq(*fs):
    def f(s):
        for g in fs: s = g(s)
        return s
    return f

# ---- tags, kinds, codes
M('tag-as-str', (T+'bt_tag.rs', seq(cut('impl Serialize for BuildTargetTag', '\n}\n', '''impl BuildTargetTag {
    /// The name of the tag in the protocol.
    pub fn as_str(&self) -> &str {
        match self {
            Self::Libary => "library",
            Self::Application => "application",
            Self::Test => "test",
            Self::IntegrationTest => "integration-test",
            Self::Benchmark => "benchmark",
            Self::NoIDE => "no-ide",
            Self::Manual => "manual",
            Self::Custom(tag) => tag.as_str(),
        }
    }
}

impl Serialize for BuildTargetTag {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        self.as_str().serialize(ser)
    }
}
'''), cut("impl<'de> Deserialize<'de> for BuildTargetTag", '\n}\n', '''impl From<String> for BuildTargetTag {
    fn from(tag: String) -> Self {
        match &tag[..] {
            "library" => Self::Libary,
            "application" => Self::Application,
            "test" => Self::Test,
            "integration-test" => Self::IntegrationTest,
            "benchmark" => Self::Benchmark,
            "no-ide" => Self::NoIDE,
            "manual" => Self::Manual,
            _ => Self::Custom(tag),
        }
    }
}

impl<'de> Deserialize<'de> for BuildTargetTag {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        String::deserialize(de).map(Self::from)
    }
}
''')), None))
M('tag-serde-from', (T+'bt_tag.rs', seq(cut('impl Serialize for BuildTargetTag', '\n}\n', '''impl From<BuildTargetTag> for String {
    fn from(tag: BuildTargetTag) -> String {
        match tag {
            BuildTargetTag::Libary => "library".into(),
            BuildTargetTag::Application => "application".into(),
            BuildTargetTag::Test => "test".into(),
            BuildTargetTag::IntegrationTest => "integration-test".into(),
            BuildTargetTag::Benchmark => "benchmark".into(),
            BuildTargetTag::NoIDE => "no-ide".into(),
            BuildTargetTag::Manual => "manual".into(),
            BuildTargetTag::Custom(tag) => tag,
        }
    }
}
'''), cut("impl<'de> Deserialize<'de> for BuildTargetTag", '\n}\n', '''impl From<String> for BuildTargetTag {
    fn from(tag: String) -> Self {
        match tag.as_str() {
            "library" => Self::Libary,
            "application" => Self::Application,
            "test" => Self::Test,
            "integration-test" => Self::IntegrationTest,
            "benchmark" => Self::Benchmark,
            "no-ide" => Self::NoIDE,
            "manual" => Self::Manual,
            _ => Self::Custom(tag),
        }
    }
}
'''), lambda s: s.replace('use serde::{Deserialize, Deserializer, Serialize, Serializer};', 'use serde::{Deserialize, Serialize};').replace('#[derive(Debug)]\npub enum', '#[derive(Debug, Clone, Serialize, Deserialize)]\n#[serde(from = "String", into = "String")]\npub enum')), None))
M('tag-table', (T+'bt_tag.rs', cut("impl<'de> Deserialize<'de> for BuildTargetTag", '\n}\n', '''const NAMES: [(&str, fn() -> BuildTargetTag); 7] = [
    ("library", || BuildTargetTag::Libary),
    ("application", || BuildTargetTag::Application),
    ("test", || BuildTargetTag::Test),
    ("integration-test", || BuildTargetTag::IntegrationTest),
    ("benchmark", || BuildTargetTag::Benchmark),
    ("no-ide", || BuildTargetTag::NoIDE),
    ("manual", || BuildTargetTag::Manual),
];

impl<'de> Deserialize<'de> for BuildTargetTag {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        let tag = String::deserialize(de)?;
        for (name, make) in NAMES.iter() {
            if *name == tag {
                return Ok(make());
            }
        }
        Ok(Self::Custom(tag))
    }
}
'''), None))
M('tag-default-derive', (T+'bt_tag.rs', lambda s: s.replace('#[derive(Debug)]\npub enum', '#[derive(Debug, Default)]\npub enum').replace('    NoIDE,\n', '    #[default]\n    NoIDE,\n').replace('''impl Default for BuildTargetTag {
    fn default() -> Self {
        Self::NoIDE
    }
}

''', ''), None))
M('kind-ok-or', (T+'task/kind.rs', '''        let s = match <String>::deserialize(de) {
            Ok(v) => v,
            Err(_) => return Ok(Self::None),
        };
        let v = match s.as_str() {''', '''        let s = if let Ok(s) = String::deserialize(de) {
            s
        } else {
            return Ok(Self::None);
        };
        let v = match s.as_ref() {'''))
M('kind-parse-fn', (T+'task/kind.rs', seq(cut("impl<'de> Deserialize<'de> for TaskDataKind", '\n}\n', '''impl<'de> Deserialize<'de> for TaskDataKind {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        Ok(String::deserialize(de).map_or(Self::None, Self::parse))
    }
}
'''), lambda s: s.replace('''    pub fn is_none(&self) -> bool {
        matches!(self, Self::None)
    }
''', '''    pub fn is_none(&self) -> bool {
        match self {
            Self::None => true,
            _ => false,
        }
    }

    fn parse(name: String) -> Self {
        match name.as_str() {
            "compile-task" => Self::CompileTask,
            "compile-report" => Self::CompileReport,
            "test-task" => Self::TestTask,
            "test-report" => Self::TestReport,
            "test-start" => Self::TestStart,
            "test-finish" => Self::TestFinish,
            _ => Self::Custom(name),
        }
    }
''')), None))
M('kind-consts', (T+'task/kind.rs', lambda s: s.replace('"compile-task"', 'COMPILE_TASK').replace('"test-report"', 'TEST_REPORT').replace('// TODO: Test', 'const COMPILE_TASK: &str = "compile-task";\nconst TEST_REPORT: &str = "test-report";\n\n// TODO: Test'), None))
M('kind-name-option', (T+'task/kind.rs', cut('impl Serialize for TaskDataKind', '\n}\n', '''impl TaskDataKind {
    fn name(&self) -> Option<&str> {
        Some(match self {
            TaskDataKind::CompileTask => "compile-task",
            TaskDataKind::CompileReport => "compile-report",
            TaskDataKind::TestTask => "test-task",
            TaskDataKind::TestReport => "test-report",
            TaskDataKind::TestStart => "test-start",
            TaskDataKind::TestFinish => "test-finish",
            TaskDataKind::Custom(x) => x,
            TaskDataKind::None => return None,
        })
    }
}

impl Serialize for TaskDataKind {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        match self.name() {
            Some(name) => ser.serialize_str(name),
            None => ser.serialize_none(),
        }
    }
}
'''), None))
M('msgtype-manual', (T+'message_type.rs', seq(lambda s: s.replace('#[derive(Clone, Debug, serde_repr::Deserialize_repr, serde_repr::Serialize_repr)]', '#[derive(Clone, Debug)]'), lambda s: s + '''
impl serde::Serialize for MessageType {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        ser.serialize_u16(self.clone() as u16)
    }
}

impl<'de> serde::Deserialize<'de> for MessageType {
    fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        match u16::deserialize(de)? {
            1 => Ok(Self::Error),
            2 => Ok(Self::Warning),
            3 => Ok(Self::Info),
            4 => Ok(Self::Log),
            other => Err(serde::de::Error::custom(format!("invalid message type {}", other))),
        }
    }
}
'''), None))
M('msgtype-u8', (T+'message_type.rs', '#[repr(u16)]', '#[repr(u8)]'))
M('status-names', (T+'task/status.rs', cut('impl fmt::Debug for TaskStatus', '\n}\n\nimpl fmt::Display for TaskStatus {\n    fn fmt(&self, f: &mut fmt::Formatter<\'_>) -> fmt::Result {\n        match self {\n            TaskStatus::Ok => f.write_str("Ok"),\n            TaskStatus::Error => f.write_str("Error"),\n            TaskStatus::Cancelled => f.write_str("Cancelled"),\n        }\n    }\n}\n', '''impl TaskStatus {
    fn name(&self) -> &'static str {
        match self {
            Self::Ok => "Ok",
            Self::Error => "Error",
            Self::Cancelled => "Cancelled",
        }
    }
}

impl fmt::Debug for TaskStatus {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TaskStatus::{}", self.name())
    }
}

impl fmt::Display for TaskStatus {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.name())
    }
}
'''), None))
M('source-kind-derive-default', (T+'bt_sources.rs', lambda s: s.replace('#[derive(Debug, serde_repr', '#[derive(Debug, Default, serde_repr').replace('    File = 1,', '    #[default]\n    File = 1,').replace('''
impl Default for SourceKind {
    fn default() -> Self {
        Self::File
    }
}
''', ''), None))

# ---- structs
M('result-derive-new', (T+'bt_compile.rs', '''        Self {
            origin_id: None,
            status_code,
            data_kind: None,
            data: None,
        }''', '''        Self::new(None, status_code, None, None)'''))
M('simple-delegates', (T+'workspace_build_targets.rs', '''        Self {
            id,
            tags,
            capabilities,
            language_ids,
            dependencies,
            display_name: Default::default(),
            base_directory: Default::default(),
        }''', '''        Self::new(id, None, None, tags, capabilities, language_ids, dependencies)'''))
M('caps-macro', (T+'bt_capabilities.rs', cut('''    /// Set the bsp build target capabilities's can compile.''', "    pub fn can_debug(&self) -> bool {\n        self.can_debug\n    }\n", '''    flag!(can_compile, set_can_compile);
    flag!(can_test, set_can_test);
    flag!(can_run, set_can_run);
    flag!(can_debug, set_can_debug);
'''), None), (T+'bt_capabilities.rs', 'use serde::{Deserialize, Serialize};\n', '''use serde::{Deserialize, Serialize};

macro_rules! flag {
    ($field:ident, $set:ident) => {
        /// Get this capability.
        pub fn $field(&self) -> bool {
            self.$field
        }

        /// Set this capability.
        pub fn $set(&mut self, $field: bool) {
            self.$field = $field;
        }
    };
}
'''))
M('caps-update', (T+'bt_capabilities.rs', '''        Self {
            can_compile,
            can_test,
            can_run,
            can_debug,
        }''', '''        let mut caps = Self::default();
        caps.can_compile = can_compile;
        caps.can_debug = can_debug;
        caps.can_run = can_run;
        caps.can_test = can_test;
        caps'''))
M('caps-hand-ser', (T+'bt_capabilities.rs', lambda s: s.replace('use serde::{Deserialize, Serialize};', 'use serde::{ser::SerializeStruct, Deserialize, Serialize, Serializer};').replace('#[derive(Debug, Default, Serialize, Deserialize)]', '#[derive(Debug, Default, Deserialize)]') + '''
impl Serialize for BuildTargetCapabilities {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        let mut obj = ser.serialize_struct("BuildTargetCapabilities", 4)?;
        obj.serialize_field("canCompile", &self.can_compile)?;
        obj.serialize_field("canTest", &self.can_test)?;
        obj.serialize_field("canRun", &self.can_run)?;
        obj.serialize_field("canDebug", &self.can_debug)?;
        obj.end()
    }
}
''', None))
M('caps-hand-map', (T+'bt_capabilities.rs', lambda s: s.replace('use serde::{Deserialize, Serialize};', 'use serde::{ser::SerializeMap, Deserialize, Serialize, Serializer};').replace('#[derive(Debug, Default, Serialize, Deserialize)]', '#[derive(Debug, Default, Deserialize)]') + '''
impl Serialize for BuildTargetCapabilities {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        let flags = [
            ("canCompile", self.can_compile),
            ("canTest", self.can_test),
            ("canRun", self.can_run),
            ("canDebug", self.can_debug),
        ];
        let mut obj = ser.serialize_map(Some(flags.len()))?;
        for (name, flag) in flags.iter() {
            obj.serialize_entry(name, flag)?;
        }
        obj.end()
    }
}
''', None))
M('event-hand-ser', (T+'bt_did_change.rs', lambda s: s.replace('use serde::{Deserialize, Serialize};', 'use serde::{ser::SerializeStruct, Deserialize, Serialize, Serializer};').replace('''#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct BuildTargetEvent''', '''#[derive(Debug, Deserialize, Clone)]
pub struct BuildTargetEvent''').replace('#[serde(skip_serializing_if = "Option::is_none")]\n    pub kind', 'pub kind').replace('#[serde(skip_serializing_if = "Option::is_none")]\n    pub data', 'pub data') + '''
impl Serialize for BuildTargetEvent {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        let len = 1 + self.kind.is_some() as usize + self.data.is_some() as usize;
        let mut obj = ser.serialize_struct("BuildTargetEvent", len)?;
        obj.serialize_field("target", &self.target)?;
        if let Some(kind) = &self.kind {
            obj.serialize_field("kind", kind)?;
        }
        match &self.data {
            Some(data) => obj.serialize_field("data", data)?,
            None => {}
        }
        obj.end()
    }
}
''', None))
M('providers-alias', (T+'providers.rs', cut('#[derive(Debug, Default, Serialize, Deserialize)]\n#[serde(rename_all = "camelCase")]\npub struct TestProvider', '}\n', '''macro_rules! provider {
    ($name:ident) => {
        #[derive(Debug, Default, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        pub struct $name {
            pub language_ids: Vec<String>,
        }
    };
}

provider!(TestProvider);
'''), None))
M('caps-getter-copied', (T+'server_capabilities.rs', '''    pub fn can_reload(&self) -> Option<bool> {
        self.can_reload''', '''    pub fn can_reload(&self) -> Option<bool> {
        self.can_reload.as_ref().copied()'''))
M('caps-skip-fn', (T+'server_capabilities.rs', lambda s: s.replace('"Option::is_none"', '"unset"').replace('/// Server Capabilities', 'fn unset<T>(value: &Option<T>) -> bool {\n    value.is_none()\n}\n\n/// Server Capabilities', 1), None))
M('caps-opt-alias', (T+'server_capabilities.rs', lambda s: s.replace('#[serde(skip_serializing_if = "Option::is_none")]\n    can_reload', '#[serde(default, skip_serializing_if = "Option::is_none")]\n    can_reload'), None))
M('task-id-from-str', (T+'task/id.rs', '''        Self {
            id: id.into(),
            parents: Default::default(),
        }''', '''        Self::from(id.to_string())'''))
M('task-id-new', (T+'task/id.rs', '''        Self {
            id,
            parents: Default::default(),
        }''', '''        Self::new(id, Vec::new())'''))
M('task-id-extend', (T+'task/id.rs', 'self.parents.push(value)', 'self.parents.extend(Some(value));'))
M('task-start-mut', (T+'task/start.rs', '''        Self {
            task_id: task_id.into(),
            ..Self::default()
        }''', '''        let mut start = Self::default();
        start.task_id = task_id.into();
        start'''))
M('task-start-fields', (T+'task/start.rs', '''            ..Self::default()
''', '''            event_time: None,
            message: String::new(),
            data_kind: TaskDataKind::None,
            data: Value::Null,
'''))
M('log-direct', (T+'log_message.rs', '''        Self::new(MessageType::Info, msg, task, orid)''', '''        Self {
            typ: MessageType::Info,
            task,
            origin_id: orid.map(|id| id.into()),
            message: msg.into(),
        }'''))
M('log-match', (T+'log_message.rs', '''            origin_id: orid.map(Into::into),''', '''            origin_id: match orid {
                Some(id) => Some(id.into()),
                None => None,
            },'''))
M('session-default', (T+'debug_session_start.rs', lambda s: s.replace('#[serde(rename_all = "camelCase", default)]', '#[serde(rename_all = "camelCase")]').replace('    targets: Vec<BuildTargetIdentifier>,\n\n    /// The kind', '    #[serde(default)]\n    targets: Vec<BuildTargetIdentifier>,\n\n    /// The kind').replace('    data_kind: String,\n\n', '    #[serde(default)]\n    data_kind: String,\n\n').replace('#[serde(skip_serializing_if = "Value::is_null")]', '#[serde(default, skip_serializing_if = "Value::is_null")]'), None))
M('session-eq', (T+'debug_session_start.rs', seq(lambda s: s.replace('#[derive(Default, Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]', '#[derive(Default, Clone, Debug, Serialize, Deserialize)]'), lambda s: s + '''
impl PartialEq for DebugSessionStart {
    fn eq(&self, other: &Self) -> bool {
        let Self { targets, data_kind, data } = self;
        *targets == other.targets && *data_kind == other.data_kind && *data == other.data
    }
}

impl Eq for DebugSessionStart {}
'''), None))
M('init-result-root', (T+'initialize_result.rs', '''        Self {
            display_name: display_name.into(),
            version: version.into(),
            bsp_version: bsp_version.into(),
            capabilities,
            data: data.into(),
        }''', '''        let mut result = Self::new_simple(display_name, version, bsp_version, capabilities);
        result.data = Some(data);
        result'''))
M('getters-deref', (T+'initialize_result.rs', lambda s: s.replace('self.version.as_ref()', '&self.version').replace('self.display_name.as_ref()', 'self.display_name.as_str()'), None))
M('targets-slice', (T+'bt_sources.rs', lambda s: s.replace('self.targets.as_ref()', '&self.targets').replace('self.items.as_ref()', 'self.items.as_slice()').replace('self.sources.as_ref()', '&self.sources[..]'), None))
M('is-empty-len', (T+'bt_clean_cache.rs', 'self.targets.is_empty()', 'self.targets.len() == 0'))
M('identifier-str', (T+'bt_identifier.rs', 'self.uri.as_ref()', 'self.uri.as_str()'))
M('identifier-eq', (T+'bt_identifier.rs', lambda s: s.replace('#[derive(Debug, Serialize, Deserialize, PartialEq, Eq, Clone)]', '#[derive(Debug, Serialize, Deserialize, Eq, Clone)]') + '''
impl PartialEq for BuildTargetIdentifier {
    fn eq(&self, other: &Self) -> bool {
        self.uri == other.uri
    }
}
''', None))
M('root-path-ok', (T+'initialize_params.rs', '''        self.root_uri
            .to_file_path()
            .unwrap_or_else(|_| self.root_uri.path().into())
''', '''        let uri = &self.root_uri;
        if let Ok(path) = uri.to_file_path() {
            return path;
        }
        uri.path().into()
'''))
M('wbt-from', (T+'workspace_build_targets.rs', '''        Self {
            targets: vec![target],
        }''', '''        Self::new(vec![target])'''))
M('wbt-push', (T+'workspace_build_targets.rs', '''        Self {
            targets: vec![target],
        }''', '''        let mut result = Self::default();
        result.targets.push(target);
        result'''))
M('server-helper', (T+'server.rs', lambda s: s.replace('Err(anyhow!("method not found"))', 'not_found()').replace('pub trait BuildServer', 'fn not_found<T>() -> Result<T> {\n    Err(anyhow!("method not found"))\n}\n\npub trait BuildServer'), None))
M('server-default', (T+'server.rs', lambda s: s.replace('Ok(BuildTargetSourcesResult::default())', 'Ok(Default::default())').replace('Ok(WorkspaceBuildTargetsResult::default())', 'Ok(WorkspaceBuildTargetsResult::new(Vec::new()))'), None))
M('publish-split', (T+'publish_diagnostics.rs', lambda s: s.replace('use super::BuildTargetIdentifier;\n', 'use super::BuildTargetIdentifier as Target;\n').replace('build_target: BuildTargetIdentifier', 'build_target: Target'), None))

# ---- server
M('resp-codes-as', (RSP, lambda s: s.replace('ErrorCode::ParseError as i32 as i32', 'ErrorCode::ParseError as i32').replace('ErrorCode::ServerErrorEnd as i32 as i32', '-32000'), None))
M('resp-err-fn', (RSP, lambda s: s.replace('Self::err(id, ErrorCode::InternalError as i32 as i32, message)', 'Self::of(id, ErrorCode::InternalError, message)').replace('Self::err(id, ErrorCode::InvalidParams as i32 as i32, message)', 'Self::of(id, ErrorCode::InvalidParams, message)').replace('    pub fn parse_error', '    fn of(id: RequestId, code: ErrorCode, message: String) -> Response {\n        Self::err(id, code as i32, message)\n    }\n\n    pub fn parse_error'), None))
M('resp-generic-conv', (RSP, lambda s: s.replace('''                Message::Response(Response::ok(v.0, v.1))
            }
        }
    };''', '''                let (id, result) = v;
                Response::ok(id, result).into()
            }
        }
    };'''), None))
M('thread-builder', (TR, lambda s: s.replace('let writer = thread::spawn(move || {\n            let stdout', 'let writer = thread::Builder::new().name("bsp-writer".into()).spawn(move || {\n            let stdout').replace('''                .try_for_each(|it| it.write(&mut stdout))?;
            Ok(())
        });''', '''                .try_for_each(|it| it.write(&mut stdout))?;
            Ok(())
        }).expect("failed to spawn thread");'''), None))
M('thread-builder-question', (TR, lambda s: s.replace('let writer = thread::spawn(move || {\n                writer_receiver', 'let writer = thread::Builder::new().name("bsp-writer".to_string()).spawn(move || {\n                writer_receiver').replace('''                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
            });''', '''                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())
            })?;'''), None))
M('lib-finish-map', (LIB, lambda s: s.replace('''        self.sender
            .send(resp.into())
            .map_err(|e| ProtocolError(e.to_string()))?;
        match''', '''        if let Err(e) = self.send(resp) {
            return Err(ProtocolError(e.to_string()));
        }
        match'''), None))
M('lib-shutdown-ret', (LIB, lambda s: s.replace('''        if let Request::Shutdown(id) = req {
            tracing''', '''        let id = match req {
            Request::Shutdown(id) => id,
            _ => return Ok(false),
        };
        {
            tracing''').replace('''            Ok(true)
        } else {
            Ok(false)
        }''', '''            Ok(true)
        }'''), None))
M('join-results', (IO, cut('        match self.reader.join() {', '                std::panic::panic_any(err);\n            }\n        }\n', '''        let IoThreads { reader, writer } = self;
        wait(reader, "reader")?;
        wait(writer, "writer")
'''), None), (IO, lambda s: s + '''
fn wait(thread: thread::JoinHandle<io::Result<()>>, name: &str) -> io::Result<()> {
    thread.join().unwrap_or_else(|err| {
        eprintln!("{} panicked!", name);
        std::panic::panic_any(err)
    })
}
''', None))
M('stdin-lock-inline', (TR, lambda s: s.replace('''            let stdin = io::stdin();
            let mut stdin = stdin.lock();
''', '''            let mut stdin = io::stdin().lock();
'''), None))
M('matches-both', (TR, '''                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };
''', '''                let is_exit = matches!(msg, Message::Notification(Notification::Exit));
'''))
M('err-macro', (MSG, lambda s: s.replace('.ok_or_else(|| invalid_data!("no Content-Length"))?', '.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "no Content-Length"))?'), None))
M('buf-slice', (MSG, 'let buf = &buf[..buf.len() - 2];', 'let (buf, _end) = buf.split_at(buf.len() - 2);'))
M('buf-trim', (MSG, '''        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];
''', '''        let buf = buf
            .strip_suffix("\\r\\n")
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
'''))
M('parts-if-let', (MSG, cut('        let mut parts = buf.splitn', 'map_err(invalid_data)?);\n        }\n', '''        let colon = match buf.find(": ") {
            Some(colon) => colon,
            None => return Err(invalid_data!("malformed header: {:?}", buf)),
        };
        if &buf[..colon] == "Content-Length" {
            size = Some(buf[colon + 2..].parse::<usize>().map_err(invalid_data)?);
        }
'''), None))
M('bytes-body', (MSG, '''    let mut buf = buf.into_bytes();

    // The size is the peer's claim: grow the buffer with what actually arrives.
    buf.clear();
    inp.take''', '''    // The size is the peer's claim: grow the buffer with what actually arrives.
    let mut buf = Vec::new();
    inp.take'''))
M('body-string', (MSG, cut('    let mut buf = buf.into_bytes();', 'map_err(invalid_data)?))\n', '''    read_body(inp, size).map(Some)
'''), None), (MSG, lambda s: s + '''
fn read_body(inp: &mut dyn io::BufRead, size: usize) -> io::Result<String> {
    let mut body = Vec::new();
    let got = inp.take(size as u64).read_to_end(&mut body)?;
    if got < size {
        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
    }
    match String::from_utf8(body) {
        Ok(text) => Ok(text),
        Err(error) => Err(invalid_data(error)),
    }
}
''', None))
M('id-helper', (REQ, '''                            if id.is_some() {
                                return Err(DeError::duplicate_field("id"));
                            }
                            id = Some(map.next_value()?);''', '''                            once(&id, "id")?;
                            id = Some(map.next_value()?);'''), (REQ, '''                fn de<'a, T: Des''', '''                fn once<T, E: DeError>(slot: &Option<T>, name: &'static str) -> Result<(), E> {
                    match slot {
                        Some(_) => Err(E::duplicate_field(name)),
                        None => Ok(()),
                    }
                }

                fn de<'a, T: Des'''))
M('struct-state', (REQ, lambda s: s.replace('''                let mut id: Option<Value> = None; //  not sure maybe string maybe i32
                let mut method: Option<String> = None; // required for json! to work
                let mut params: Option<Value> = None; // this is just lazy
''', '''                #[derive(Default)]
                struct Parts {
                    id: Option<Value>,
                    method: Option<String>,
                    params: Option<Value>,
                }
                let mut parts = Parts::default();
''').replace('if id.is_some()', 'if parts.id.is_some()').replace('id = Some(map', 'parts.id = Some(map').replace('if params.is_some()', 'if parts.params.is_some()').replace('params = Some(map', 'parts.params = Some(map').replace('if method.is_some()', 'if parts.method.is_some()').replace('method = Some(map', 'parts.method = Some(map').replace('let method = method.ok', 'let Parts { id, method, params } = parts;\n                let method = method.ok'), None))
M('params-helper', (REQ, cut('        let value = match self {', '        Ok(value?)', '''        fn encode<T: Serialize>(params: &T) -> anyhow::Result<Value> {
            Ok(serde_json::to_value(params)?)
        }
        match self {
            Shutdown(_) | WorkspaceBuildTargets(_) | WorkspaceReload(_) => Ok(Value::Null),
            InitializeBuild(_, params) => encode(params),
            BuildTargetDependencyModules(_, params) => encode(params),
            DebugSessionStart(_, params) => encode(params),
            BuildTargetSources(_, params) => encode(params),
            TextDocumentInverseSources(_, params) => encode(params),
            BuildTargetDependencySources(_, params) => encode(params),
            BuildTargetResources(_, params) => encode(params),
            BuildTargetRun(_, params) => encode(params),
            BuildTargetCompile(_, params) => encode(params),
            BuildTargetTest(_, params) => encode(params),
            BuildTargetCleanCache(_, params) => encode(params),
            Custom(_, _, params) => Ok(params.clone()),
        }'''), None))
M('debug-write', (REQ, '''            fmt::Display::fmt(&id, f)?;
            f.write_str(", ")?;
            value.fmt(f)
        }''', '''            write!(f, "{}, ", id)?;
            value.fmt(f)
        }'''))
M('notif-ser-count', (NOT, lambda s: s.replace('''        let mut obj = s.serialize_struct("Notification", 2)?;''', '''        let fields = if matches!(self, Notification::Exit | Notification::Initialized) {
            1
        } else {
            2
        };
        let mut obj = s.serialize_struct("Notification", fields)?;'''), None))
M('notif-from-guard', (NOT, cut('        match msg {\n            "build/exit"', '        }\n', '''        if msg == "build/exit" {
            Self::Exit
        } else if msg == "build/initialized" {
            Self::Initialized
        } else {
            panic!("Only exit and initialized supported.")
        }
'''), None))
M('jsonrpc-into', (MSG, lambda s: s.replace('&JsonRpc::from(self)', '&Into::<JsonRpc>::into(self)'), None))
M('write-bytes', (MSG, '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())''', '''        let body = serde_json::to_vec(&JsonRpc::from(self))?;
        let head = ["Content-Length: ", &body.len().to_string(), "\\r\\n\\r\\n"].concat();
        w.write_all(head.as_bytes())?;
        w.write_all(&body)?;
        w.flush()'''))
M('add-parent-insert', (T+'task/id.rs', 'self.parents.push(value)', 'let end = self.parents.len();\n        self.parents.insert(end, value);'))
M('add-parent-extend-iter', (T+'task/id.rs', 'self.parents.push(value)', 'self.parents.extend(std::iter::once(value));'))
M('add-parent-extend-array', (T+'task/id.rs', 'self.parents.push(value)', 'self.parents.extend([value]);'))
M('add-parent-take', (T+'task/id.rs', 'self.parents.push(value)', 'let mut parents = std::mem::take(&mut self.parents);\n        parents.push(value);\n        self.parents = parents;'))
M('add-parent-append', (T+'task/id.rs', 'self.parents.push(value)', 'self.parents.append(&mut vec![value]);'))
M('add-parent-resize', (T+'task/id.rs', 'self.parents.push(value)', 'self.parents.reserve(1);\n        self.parents.push(value);'))
M('header-strip-prefix', (MSG, cut('        let mut parts = buf.splitn', 'map_err(invalid_data)?);\n        }\n', '''        if let Some(value) = buf.strip_prefix("Content-Length: ") {
            size = Some(value.parse::<usize>().map_err(invalid_data)?);
        } else if !buf.contains(": ") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
'''), None))
M('header-split-at', (MSG, cut('        let mut parts = buf.splitn', 'map_err(invalid_data)?);\n        }\n', '''        let colon = buf
            .find(": ")
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        let (name, value) = buf.split_at(colon);
        if name == "Content-Length" {
            size = Some(value[2..].parse::<usize>().map_err(invalid_data)?);
        }
'''), None))
M('header-match-split-once', (MSG, cut('        let mut parts = buf.splitn', 'map_err(invalid_data)?);\n        }\n', '''        match buf.split_once(": ") {
            Some(("Content-Length", value)) => {
                size = Some(value.parse::<usize>().map_err(invalid_data)?)
            }
            Some(_) => {}
            None => return Err(invalid_data!("malformed header: {:?}", buf)),
        }
'''), None))
M('header-fn', (MSG, lambda s: cut('        let mut parts = buf.splitn', 'map_err(invalid_data)?);\n        }\n', '''        if let Some(length) = content_length(&buf)? {
            size = Some(length);
        }
''')(s) + '''
/// The length a header line announces, if it is the header that does.
fn content_length(line: &str) -> io::Result<Option<usize>> {
    let mut parts = line.splitn(2, ": ");
    match (parts.next(), parts.next()) {
        (Some("Content-Length"), Some(value)) => value.parse().map(Some).map_err(invalid_data),
        (Some(_), Some(_)) => Ok(None),
        _ => Err(invalid_data!("malformed header: {:?}", line)),
    }
}
''', None))
M('read-loop-fn', (MSG, cut('        buf.clear();\n        if inp.read_line', 'return Ok(None);\n        }\n', '''        let n = read_header_line(inp, &mut buf)?;
        if n == 0 {
            return Ok(None);
        }
''') if False else (lambda s: s.replace('    let mut buf = String::new();\n', '    let mut buf = String::with_capacity(64);\n', 1)), None))
M('write-bytes-concat', (MSG, '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())''', '''        let body = serde_json::to_string(&JsonRpc::from(self))?;
        let head = format!("Content-Length: {}", body.len());
        w.write_all([head.as_str(), "", &body].join("\\r\\n").as_bytes())?;
        w.flush()'''))
M('write-bytes-vec', (MSG, '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())''', '''        let body = serde_json::to_vec(&JsonRpc::from(self))?;
        let mut frame = Vec::with_capacity(body.len() + 32);
        io::Write::write_fmt(&mut frame, format_args!("Content-Length: {}\\r\\n\\r\\n", body.len()))?;
        frame.extend(body);
        w.write_all(&frame)?;
        w.flush()'''))
M('write-bytes-iter', (MSG, '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())''', '''        let body = serde_json::to_string(&JsonRpc::from(self))?;
        let head = format!("Content-Length: {}\\r\\n\\r\\n", body.len());
        for part in [head, body] {
            w.write_all(part.as_bytes())?;
        }
        w.flush()'''))
M('write-bytes-fn', (MSG, '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())''', '''        fn header(length: usize) -> String {
            let mut head = String::from("Content-Length");
            head += ": ";
            head += &length.to_string();
            head.push_str("\\r\\n");
            head.push_str("\\r\\n");
            head
        }
        let body = serde_json::to_string(&JsonRpc::from(self))?;
        let frame = header(body.len()) + &body;
        w.write_all(frame.as_bytes()).and_then(|()| w.flush())'''))
