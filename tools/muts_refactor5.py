"""A fifth round: other ways to write the same coding, and loops written another way; every check must stay quiet."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; ERR='bsp-server/src/error.rs'; T='bsp-types/src/'
MUTS = []
def M(name, *edits): MUTS.append(("j-" + name, [], [(e + (None,))[:3] for e in edits], []))
def rep(*ps):
    def f(s):
        for a, b in ps:
            assert a in s, a
            s = s.replace(a, b)
        return s
    return f
def cut(a, b, new):
    def f(s):
        i = s.index(a); j = s.index(b, i) + len(b)
        return s[:i] + new + s[j:]
    return f
TAG = T + 'bt_tag.rs'
NAMES = '''            "library" => Self::Libary,
            "application" => Self::Application,
            "test" => Self::Test,
            "integration-test" => Self::IntegrationTest,
            "benchmark" => Self::Benchmark,
            "no-ide" => Self::NoIDE,
            "manual" => Self::Manual,
'''
DE = '        let tag = String::deserialize(de)?;\n        Ok(match tag.as_str() {\n' + NAMES + '            _ => Self::Custom(tag),\n        })\n'
M('tag-collect-str', (TAG, lambda s: cut('        ser.serialize_str(match self {\n', '        })\n', '        ser.collect_str(self)\n')(s) + '''
impl std::fmt::Display for BuildTargetTag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            Self::Libary => "library",
            Self::Application => "application",
            Self::Test => "test",
            Self::IntegrationTest => "integration-test",
            Self::Benchmark => "benchmark",
            Self::NoIDE => "no-ide",
            Self::Manual => "manual",
            Self::Custom(tag) => tag,
        })
    }
}
'''))
M('tag-visitor', (TAG, lambda s: rep((DE, '        de.deserialize_str(TagVisitor)\n'))(s) + '''
struct TagVisitor;

impl<'de> serde::de::Visitor<'de> for TagVisitor {
    type Value = BuildTargetTag;

    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a string")
    }

    fn visit_str<E: serde::de::Error>(self, value: &str) -> Result<BuildTargetTag, E> {
        Ok(match value {
''' + NAMES.replace('Self::', 'BuildTargetTag::') + '''            _ => BuildTargetTag::custom(value),
        })
    }
}
'''))
M('tag-visitor-both', (TAG, lambda s: rep((DE, '        de.deserialize_string(TagVisitor)\n'))(s) + '''
struct TagVisitor;

impl<'de> serde::de::Visitor<'de> for TagVisitor {
    type Value = BuildTargetTag;

    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a string")
    }

    fn visit_str<E: serde::de::Error>(self, value: &str) -> Result<BuildTargetTag, E> {
        self.visit_string(value.to_string())
    }

    fn visit_string<E: serde::de::Error>(self, value: String) -> Result<BuildTargetTag, E> {
        Ok(match value.as_str() {
''' + NAMES.replace('Self::', 'BuildTargetTag::') + '''            _ => BuildTargetTag::Custom(value),
        })
    }
}
'''))
M('tag-cow', (TAG, rep((DE, DE.replace('String::deserialize(de)?', '<std::borrow::Cow<str>>::deserialize(de)?').replace('tag.as_str()', '&*tag').replace('Self::Custom(tag)', 'Self::Custom(tag.into_owned())')))))
M('tag-map', (TAG, rep((DE, '        String::deserialize(de).map(Self::from)\n'), ), None), (TAG, lambda s: s + '''
impl From<String> for BuildTargetTag {
    fn from(tag: String) -> Self {
        let known = match &tag[..] {
            "library" => Some(Self::Libary),
            "application" => Some(Self::Application),
            "test" => Some(Self::Test),
            "integration-test" => Some(Self::IntegrationTest),
            "benchmark" => Some(Self::Benchmark),
            "no-ide" => Some(Self::NoIDE),
            "manual" => Some(Self::Manual),
            _ => None,
        };
        known.unwrap_or(Self::Custom(tag))
    }
}
'''))
M('tag-all-list', (TAG, lambda s: rep((DE, '''        let tag = String::deserialize(de)?;
        for known in [Self::Libary, Self::Application, Self::Test, Self::IntegrationTest, Self::Benchmark, Self::NoIDE, Self::Manual] {
            if known.name() == tag {
                return Ok(known);
            }
        }
        Ok(Self::Custom(tag))
'''), ('        ser.serialize_str(match self {\n', '        ser.serialize_str(self.name())\n    }\n}\n\nimpl BuildTargetTag {\n    fn name(&self) -> &str {\n        match self {\n'), ('            Self::Custom(tag) => tag,\n        })\n', '            Self::Custom(tag) => tag,\n        }\n'))(s)))
M('tag-if-chain', (TAG, rep((DE, '''        let tag = String::deserialize(de)?;
        let is = |name: &str| tag == name;
        Ok(if is("library") {
            Self::Libary
        } else if is("application") {
            Self::Application
        } else if is("test") {
            Self::Test
        } else if is("integration-test") {
            Self::IntegrationTest
        } else if is("benchmark") {
            Self::Benchmark
        } else if is("no-ide") {
            Self::NoIDE
        } else if is("manual") {
            Self::Manual
        } else {
            Self::Custom(tag)
        })
'''))))
M('tag-into-attr', (TAG, lambda s: rep(('#[derive(Debug)]\npub enum BuildTargetTag', '#[derive(Debug, Deserialize)]\n#[serde(from = "String")]\npub enum BuildTargetTag'), ('use serde::{Deserialize, Deserializer, Serialize, Serializer};', 'use serde::{Deserialize, Serialize, Serializer};'),
  ("impl<'de> Deserialize<'de> for BuildTargetTag {\n    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {\n        let tag = String::deserialize(de)?;\n        Ok(match tag.as_str() {", 'impl From<String> for BuildTargetTag {\n    fn from(tag: String) -> Self {\n        match tag.as_str() {'),
  ('            _ => Self::Custom(tag),\n        })\n', '            _ => Self::Custom(tag),\n        }\n'))(s)))
KIND = T + 'task/kind.rs'
M('kind-option', (KIND, rep(('''        let s = match <String>::deserialize(de) {
            Ok(v) => v,
            Err(_) => return Ok(Self::None),
        };
''', '''        let Some(s) = String::deserialize(de).ok() else {
            return Ok(Self::None);
        };
'''))))
M('kind-and-then', (KIND, rep(('''        let s = match <String>::deserialize(de) {
            Ok(v) => v,
            Err(_) => return Ok(Self::None),
        };
        let v = match s.as_str() {
''', '''        let named = |s: String| match s.as_str() {
'''), ('''        };
        Ok(v)
''', '''        };
        Ok(String::deserialize(de).map_or(Self::None, named))
'''))))
M('kind-ser-arms', (KIND, lambda s: rep(('        let s = match self {\n', '        match self {\n'), ('            TaskDataKind::None => return ser.serialize_none(),\n        };\n\n        ser.serialize_str(s)\n', '            TaskDataKind::None => ser.serialize_none(),\n        }\n'), ('=> "compile-task",', '=> "compile-task".serialize(ser),'), ('TaskDataKind::CompileReport => "compile-report",', 'TaskDataKind::CompileReport => ser.serialize_str("compile-report"),'),
  ('TaskDataKind::TestTask => "test-task",', 'TaskDataKind::TestTask => ser.serialize_str("test-task"),'), ('TaskDataKind::TestReport => "test-report",', 'TaskDataKind::TestReport => ser.serialize_str("test-report"),'), ('TaskDataKind::TestStart => "test-start",', 'TaskDataKind::TestStart => ser.serialize_str("test-start"),'), ('TaskDataKind::TestFinish => "test-finish",', 'TaskDataKind::TestFinish => ser.serialize_str("test-finish"),'), ('TaskDataKind::Custom(x) => x.as_str(),', 'TaskDataKind::Custom(x) => x.serialize(ser),'))(s)))
M('kind-ser-option', (KIND, rep(('TaskDataKind::None => return ser.serialize_none(),', 'TaskDataKind::None => return None::<&str>.serialize(ser),'))))
M('status-ser-hand', (T + 'task/status.rs', lambda s: rep(('use serde_repr::{Deserialize_repr, Serialize_repr};', 'use serde_repr::Deserialize_repr;'), ('#[derive(Clone, Serialize_repr, Deserialize_repr)]', '#[derive(Clone, Deserialize_repr)]'))(s) + '''
impl serde::Serialize for TaskStatus {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        ser.serialize_u8(self.clone() as u8)
    }
}
'''))
M('status-de-hand', (T + 'task/status.rs', lambda s: rep(('use serde_repr::{Deserialize_repr, Serialize_repr};', 'use serde_repr::Serialize_repr;'), ('#[derive(Clone, Serialize_repr, Deserialize_repr)]', '#[derive(Clone, Serialize_repr)]'))(s) + '''
impl<'de> serde::Deserialize<'de> for TaskStatus {
    fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        match u8::deserialize(de)? {
            1 => Ok(Self::Ok),
            2 => Ok(Self::Error),
            3 => Ok(Self::Cancelled),
            n => Err(serde::de::Error::invalid_value(serde::de::Unexpected::Unsigned(n.into()), &"1, 2 or 3")),
        }
    }
}
'''))
M('status-visitor', (T + 'task/status.rs', lambda s: rep(('use serde_repr::{Deserialize_repr, Serialize_repr};', 'use serde_repr::Serialize_repr;'), ('#[derive(Clone, Serialize_repr, Deserialize_repr)]', '#[derive(Clone, Serialize_repr)]'))(s) + '''
impl<'de> serde::Deserialize<'de> for TaskStatus {
    fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        struct Status;
        impl<'de> serde::de::Visitor<'de> for Status {
            type Value = TaskStatus;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a task status")
            }
            fn visit_u64<E: serde::de::Error>(self, n: u64) -> Result<TaskStatus, E> {
                match n {
                    1 => Ok(TaskStatus::Ok),
                    2 => Ok(TaskStatus::Error),
                    3 => Ok(TaskStatus::Cancelled),
                    _ => Err(E::invalid_value(serde::de::Unexpected::Unsigned(n), &self)),
                }
            }
        }
        de.deserialize_u8(Status)
    }
}
'''))
M('status-try-from', (T + 'task/status.rs', lambda s: rep(('use serde_repr::{Deserialize_repr, Serialize_repr};', 'use serde::{Deserialize, Serialize};'), ('#[derive(Clone, Serialize_repr, Deserialize_repr)]', '#[derive(Clone, Serialize, Deserialize)]\n#[serde(try_from = "u8", into = "u8")]'))(s) + '''
impl From<TaskStatus> for u8 {
    fn from(status: TaskStatus) -> u8 {
        status as u8
    }
}

impl TryFrom<u8> for TaskStatus {
    type Error = String;

    fn try_from(n: u8) -> Result<Self, String> {
        [Self::Ok, Self::Error, Self::Cancelled].into_iter().find(|s| s.clone() as u8 == n).ok_or_else(|| format!("no task status {n}"))
    }
}
'''))
M('msgtype-match-ser', (T + 'message_type.rs', lambda s: rep(('serde_repr::Deserialize_repr, serde_repr::Serialize_repr', 'serde_repr::Deserialize_repr'))(s) + '''
impl serde::Serialize for MessageType {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        let code: u16 = match self {
            Self::Error => 1,
            Self::Warning => 2,
            Self::Info => 3,
            Self::Log => 4,
        };
        code.serialize(ser)
    }
}
'''))
# ---- ids
M('id-hand', (IDF, lambda s: rep(('#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]', '#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]'), ('use serde::{Deserialize, Serialize};', 'use serde::{Deserialize, Deserializer, Serialize, Serializer};'))(s) + '''
impl Serialize for RequestId {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(ser)
    }
}

impl<'de> Deserialize<'de> for RequestId {
    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        IdRepr::deserialize(de).map(RequestId)
    }
}
'''))
M('id-ser-match', (IDF, lambda s: rep(('#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]', '#[derive(Debug, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]'), ('#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]', '#[derive(Debug, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]'), ('use serde::{Deserialize, Serialize};', 'use serde::{Deserialize, Serialize, Serializer};'))(s) + '''
impl Serialize for RequestId {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        match &self.0 {
            IdRepr::I32(n) => ser.serialize_i32(*n),
            IdRepr::String(s) => ser.serialize_str(s),
        }
    }
}
'''))
M('id-ord-hand', (IDF, lambda s: s.replace('Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]', 'Clone, PartialEq, Eq, Hash)]\n#[serde(transparent)]') + '''
impl PartialOrd for RequestId {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for RequestId {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.0.cmp(&other.0)
    }
}
'''))
M('id-fmt-write', (IDF, rep(('fmt::Display::fmt(it, f)', 'write!(f, "{}", it)'))))
# ---- messages
M('key-cow', (NOT, lambda s: s[:s.index('        enum Field {')] + s[s.index('        struct NotificationVisitor;'):], None), (NOT, lambda s: rep(('                while let Some(key) = map.next_key()? {', "                while let Some(key) = map.next_key::<std::borrow::Cow<'de, str>>()? {"), ('                    match key {\n', '                    match &*key {\n'), ('Field::Method =>', '"method" =>'), ('Field::Params =>', '"params" =>'), ('Field::Other =>', '_ =>'))(s)))
M('key-string', (NOT, lambda s: s[:s.index('        enum Field {')] + s[s.index('        struct NotificationVisitor;'):], None), (NOT, lambda s: rep(('                while let Some(key) = map.next_key()? {', '                while let Some(key) = map.next_key::<String>()? {'), ('                    match key {\n', '                    match key.as_str() {\n'), ('Field::Method =>', '"method" =>'), ('Field::Params =>', '"params" =>'), ('Field::Other =>', '_ =>'))(s)))
M('map-loop', (NOT, lambda s: rep(('                while let Some(key) = map.next_key()? {\n                    match key {', '                loop {\n                    let key = match map.next_key()? {\n                        Some(key) => key,\n                        None => break,\n                    };\n                    match key {'))(s)))
M('join-generic', (IO, cut('        match self.reader.join() {', '            }\n        }\n    }\n', '''        for (name, thread) in [("reader", self.reader), ("writer", self.writer)] {
            thread.join().unwrap_or_else(|err| {
                eprintln!("{} panicked!", name);
                std::panic::panic_any(err)
            })?;
        }
        Ok(())
    }
''')))
M('wait-two', (IO, cut('        match self.reader.join() {', '            }\n        }\n    }\n', '''        fn wait(handle: thread::JoinHandle<io::Result<()>>, who: &str) -> io::Result<()> {
            let outcome = handle.join();
            if outcome.is_err() {
                eprintln!("{who} panicked!");
            }
            match outcome {
                Ok(result) => result,
                Err(payload) => std::panic::panic_any(payload),
            }
        }

        wait(self.reader, "reader")?;
        wait(self.writer, "writer")
    }
''')))
# ---- transport
M('line-bytes', (MSG, rep(('        buf.clear();\n        if inp.read_line(&mut buf)? == 0 {\n            return Ok(None);\n        }\n', '''        let mut line = Vec::new();
        if inp.read_until(b'\\n', &mut line)? == 0 {
            return Ok(None);
        }
        let buf = String::from_utf8(line).map_err(invalid_data)?;
'''), ('    let mut buf = String::new();\n', ''), ('    let mut buf = buf.into_bytes();\n', '    let mut buf = Vec::new();\n'), ('    buf.clear();\n    inp.take', '    inp.take'))))
M('header-parts', (MSG, rep(('''        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
''', '''        match buf.split_once(": ") {
            Some(("Content-Length", value)) => size = Some(value.parse::<usize>().map_err(invalid_data)?),
            Some(_) => {}
            None => return Err(invalid_data!("malformed header: {:?}", buf)),
        }
'''))))
M('header-find', (MSG, rep(('''        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
''', '''        let colon = buf.find(": ").ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        let (header_name, header_value) = (&buf[..colon], &buf[colon + 2..]);
'''))))
M('content-length-fn', (MSG, lambda s: rep(('''    let mut size = None;
    let mut buf = String::new();
''', '''    let size = match content_length(inp)? {
        None => return Ok(None),
        Some(size) => size,
    };
    let mut body = Vec::new();
    // The size is the peer's claim: grow the buffer with what actually arrives.
    inp.take(size as u64).read_to_end(&mut body)?;
    if body.len() < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
    String::from_utf8(body).map(Some).map_err(invalid_data)
}

/// Reads a header; None if the input has ended.
fn content_length(inp: &mut dyn io::BufRead) -> io::Result<Option<usize>> {
    let mut size = None;
    let mut buf = String::new();
'''), ('''            break;
        }
        let mut parts''', '''            return size.map(Some).ok_or_else(|| invalid_data!("no Content-Length"));
        }
        let mut parts'''))(cut('    let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;\n', '    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))\n', '')(s))))
M('write-fmt-macro', (MSG, rep(('''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
''', '''        w.write_fmt(format_args!("Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg))?;
'''))))
M('write-string-write', (MSG, rep(('''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
''', '''        let mut frame = String::with_capacity(msg.len() + 32);
        frame.push_str("Content-Length: ");
        frame.push_str(&msg.len().to_string());
        frame.push_str("\\r\\n\\r\\n");
        frame += &msg;
        w.write_all(frame.as_bytes())?;
'''))))
M('write-cursor', (MSG, rep(('''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
''', '''        for part in ["Content-Length: ", &msg.len().to_string(), "\\r\\n\\r\\n", &msg] {
            w.write_all(part.as_bytes())?;
        }
'''))))
