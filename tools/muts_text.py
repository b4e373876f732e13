"""C37: what ids, errors and states print as; edits that break it and edits that do not."""
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; IDF='bsp-server/src/request/id.rs'; ERR='bsp-server/src/error.rs'; ST='bsp-types/src/task/status.rs'
MUTS = []
def B(name, exp, *edits, also=()): MUTS.append((name, exp.split(), list(edits), exp.split() + list(also)))
def Q(name, checks, *edits): MUTS.append(("q-" + name, [], list(edits), checks.split()))
N = 'IdRepr::I32(it) => fmt::Display::fmt(it, f),'; S = 'IdRepr::String(it) => fmt::Debug::fmt(it, f),'
MR = '''write!(f, "Method mismatch for request '{}'", req.method())'''
MN = '''write!(f, "Method mismatch for notification '{}'", req.method())'''
JR = 'write!(f, "Invalid request\\nMethod: {method}\\n error: {error}",)'
JN = 'write!(f, "Invalid notification\\nMethod: {method}\\n error: {error}")'
PE = 'fmt::Display::fmt(&self.0, f)'
TS = '''        match self {
            TaskStatus::Ok => f.write_str("Ok"),
            TaskStatus::Error => f.write_str("Error"),
            TaskStatus::Cancelled => f.write_str("Cancelled"),
        }'''

B('id-text-plain', 'C37', (IDF, S, 'IdRepr::String(it) => fmt::Display::fmt(it, f),'))
B('id-num-abs', 'C37', (IDF, N, 'IdRepr::I32(it) => write!(f, "{}", it.unsigned_abs()),'))
B('id-num-hex', 'C37', (IDF, N, 'IdRepr::I32(it) => fmt::LowerHex::fmt(it, f),'))
B('id-num-quoted', 'C37', (IDF, N, 'IdRepr::I32(it) => write!(f, "{:?}", it.to_string()),'))
B('id-text-trim', 'C37', (IDF, S, 'IdRepr::String(it) => fmt::Debug::fmt(it.trim(), f),'))
B('id-text-numeric', 'C37', (IDF, S, 'IdRepr::String(it) if it.parse::<i32>().is_ok() => f.write_str(it),\n            ' + S))
B('id-debug-derive', 'C37', (IDF, S, 'IdRepr::String(_) => fmt::Debug::fmt(&self.0, f),'))
B('pe-prefix', 'C37', (ERR, PE, 'write!(f, "protocol error: {}", self.0)'))
B('pe-debug', 'C37', (ERR, PE, 'fmt::Debug::fmt(&self.0, f)'))
B('pe-line', 'C37', (ERR, PE, 'f.write_str(self.0.lines().next().unwrap_or_default())'))
B('pe-drop', 'C37', (ERR, PE, 'let _ = f.write_str(&self.0);\n        Ok(())'))
B('pe-from', 'C37', (ERR, 'Self(err.to_string())', 'let _ = err;\n        Self("protocol error".into())'))
B('mm-const', 'C37', (ERR, MR, '{\n                let _ = req;\n                write!(f, "Method mismatch for request")\n            }'))
B('mm-id', 'C37', (ERR, MR, '''write!(f, "Method mismatch for request '{}'", req.id())'''))
B('mm-custom', 'C37', (ERR, MN, '''match req {
                Notification::Custom(..) => f.write_str("Method mismatch for custom notification"),
                _ => write!(f, "Method mismatch for notification '{}'", req.method()),
            }'''))
B('mm-one', 'C37', (ERR, MR, '''match req {
                Request::BuildTargetRun(..) => f.write_str("Method mismatch for request 'buildTarget/test'"),
                _ => write!(f, "Method mismatch for request '{}'", req.method()),
            }'''))
B('json-noerr', 'C37', (ERR, JR, '{\n                let _ = error;\n                write!(f, "Invalid request\\nMethod: {method}")\n            }'))
B('json-nomethod', 'C37', (ERR, JN, '{\n                let _ = method;\n                write!(f, "Invalid notification\\n error: {error}")\n            }'))
B('json-drop', 'C37', (ERR, JN, '{\n                write!(f, "Invalid notification\\nMethod: {method}\\n error: ").ok();\n                write!(f, "{error}")\n            }'))
B('json-swallow', 'C37', (ERR, JN, '{\n                let r = write!(f, "Invalid notification\\nMethod: {method}\\n error: {error}");\n                debug_assert!(r.is_ok());\n                Ok(())\n            }'))
B('st-swap', 'C37', (ST, 'TaskStatus::Error => f.write_str("Error")', 'TaskStatus::Error => f.write_str("Cancelled")'))
B('st-debug-ok', 'C37', (ST, 'TaskStatus::Cancelled => f.write_str("TaskStatus::Cancelled")', 'TaskStatus::Cancelled => f.write_str("TaskStatus::Ok")'))
B('st-err', 'C37', (ST, 'TaskStatus::Cancelled => f.write_str("Cancelled")', 'TaskStatus::Cancelled => Err(fmt::Error)'))
B('st-merge', 'C37', (ST, '''            TaskStatus::Error => f.write_str("Error"),
            TaskStatus::Cancelled => f.write_str("Cancelled"),''', '            _ => f.write_str("Error"),'))

Q('id-write', 'C37 C24', (IDF, N, 'IdRepr::I32(it) => write!(f, "{}", it),'), (IDF, S, 'IdRepr::String(it) => write!(f, "{it:?}"),'))
Q('id-str', 'C37 C24', (IDF, N, 'IdRepr::I32(it) => f.write_str(&it.to_string()),'), (IDF, S, 'IdRepr::String(it) => f.write_str(&format!("{:?}", it)),'))
Q('id-method', 'C37 C24', (IDF, N, 'IdRepr::I32(it) => it.fmt(f),'), (IDF, S, 'IdRepr::String(it) => fmt::Debug::fmt(it.as_str(), f),'))
Q('id-iflet', 'C37 C24', (IDF, lambda s: s.replace('''        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }''', '''        if let IdRepr::I32(it) = &self.0 {
            return fmt::Display::fmt(it, f);
        }
        match &self.0 {
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
            IdRepr::I32(_) => unreachable!(),
        }'''), None))
Q('id-dyn', 'C37 C24', (IDF, lambda s: s.replace('''        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }''', '''        let text = match &self.0 {
            IdRepr::I32(it) => format!("{it}"),
            IdRepr::String(it) => format!("{it:?}"),
        };
        f.write_str(&text)'''), None))
Q('id-inner', 'C37 C24', (IDF, lambda s: s.replace('''        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }
    }
}''', '''        self.0.print(f)
    }
}

impl IdRepr {
    fn print(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }
    }
}'''), None))
Q('pe-write', 'C37', (ERR, PE, 'write!(f, "{}", self.0)'))
Q('pe-str', 'C37', (ERR, PE, 'f.write_str(&self.0)'))
Q('pe-pad', 'C37', (ERR, PE, 'f.pad(&self.0)'))
Q('pe-q', 'C37', (ERR, PE, 'f.write_str(self.0.as_str())?;\n        Ok(())'))
Q('pe-from', 'C37', (ERR, 'Self(err.to_string())', 'Self(format!("{}", err))'))
Q('pe-from2', 'C37', (ERR, 'Self(err.to_string())', 'let text = format!("{err}");\n        ProtocolError(text)'))
Q('mm-pieces', 'C37', (ERR, MR, '''{
                f.write_str("Method mismatch for request '")?;
                f.write_str(req.method())?;
                f.write_str("'")
            }'''))
Q('mm-local', 'C37', (ERR, MR, '''{
                let method = req.method();
                write!(f, "Method mismatch for request '{method}'")
            }'''))
Q('mm-wording', 'C37', (ERR, MN, 'write!(f, "got notification {:?} of another method", req.method())'))
Q('mm-helper', 'C37', (ERR, MN, 'mismatch(f, "notification", req.method())'), (ERR, MR, 'mismatch(f, "request", req.method())'),
  (ERR, 'impl std::error::Error for ExtractError<Request> {}', '''fn mismatch(f: &mut fmt::Formatter<'_>, what: &str, method: &str) -> fmt::Result {
    write!(f, "Method mismatch for {what} '{method}'")
}

impl std::error::Error for ExtractError<Request> {}'''))
Q('json-pieces', 'C37', (ERR, JN, '''{
                writeln!(f, "Invalid notification")?;
                writeln!(f, "Method: {}", method)?;
                write!(f, " error: {}", error)
            }'''))
Q('json-fmt', 'C37', (ERR, JR, '{\n                let text = format!("Invalid request\\nMethod: {}\\n error: {}", method, error);\n                f.write_str(&text)\n            }'))
Q('json-debug', 'C37', (ERR, JR, 'write!(f, "Invalid request\\nMethod: {method:?}\\n error: {error:?}",)'))
Q('json-concat', 'C37', (ERR, JR, '{\n                let mut text = String::from("Invalid request\\nMethod: ");\n                text.push_str(method);\n                text += "\\n error: ";\n                text += &error.to_string();\n                f.write_str(&text)\n            }'))
Q('st-inner', 'C37', (ST, TS, '''        f.write_str(match self {
            TaskStatus::Ok => "Ok",
            TaskStatus::Error => "Error",
            TaskStatus::Cancelled => "Cancelled",
        })'''))
Q('st-pad', 'C37', (ST, TS, '''        let name = match self {
            TaskStatus::Ok => "Ok",
            TaskStatus::Error => "Error",
            TaskStatus::Cancelled => "Cancelled",
        };
        f.pad(name)'''))
Q('st-is', 'C37', (ST, TS, '''        if self.is_ok() {
            return f.write_str("Ok");
        }
        if self.is_error() {
            f.write_str("Error")
        } else {
            f.write_str("Cancelled")
        }'''))
Q('st-derive', 'C37', (ST, lambda s: s.replace('''impl fmt::Debug for TaskStatus {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TaskStatus::Ok => f.write_str("TaskStatus::Ok"),
            TaskStatus::Error => f.write_str("TaskStatus::Error"),
            TaskStatus::Cancelled => f.write_str("TaskStatus::Cancelled"),
        }
    }
}''', '''impl fmt::Debug for TaskStatus {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TaskStatus::{}", self)
    }
}'''), None))
