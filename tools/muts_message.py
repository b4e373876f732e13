Q = "bsp-server/src/request.rs"
N = "bsp-server/src/notification.rs"
R = "bsp-server/src/response.rs"
M = "bsp-server/src/message.rs"
ALL = ["C03", "C04", "C05"]
OTHER = """                        Field::Other => {
                            map.next_value::<IgnoredAny>()?;
                        }
"""


def cut(a, b, new):
    """Replace the text from a up to b."""
    def f(s):
        i = s.index(a)
        j = s.index(b, i)
        return s[:i] + new + s[j:]
    return f


def every(old, new):
    def f(s):
        assert old in s, old
        return s.replace(old, new)
    return f


LOOPQ = "                let mut id: Option<Value> = None;"
ENDQ = "                fn de<'a, T: Deserialize"
MATCHQ = "                Ok(match method.as_str() {"
READ = """                while let Some(key) = map.next_key()? {
                    match key {
                        Field::ID => {
                            if id.is_some() {
                                return Err(DeError::duplicate_field("id"));
                            }
                            id = Some(map.next_value()?);
                        }
                        Field::Params => {
                            if params.is_some() {
                                return Err(DeError::duplicate_field("params"));
                            }
                            params = Some(map.next_value()?);
                        }
                        Field::Method => {
                            if method.is_some() {
                                return Err(DeError::duplicate_field("method"));
                            }
                            method = Some(map.next_value()?);
                        }
"""
DERIVE_Q = """
        #[derive(Deserialize)]
        struct Raw { id: RequestId, method: String, #[serde(default)] params: Value }
        fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> {
            T::deserialize(p).map_err(DeError::custom)
        }
        let Raw { id, method, params } = Raw::deserialize(deserializer)?;
"""


def derive_q(s):
    i = s.index("        const FIELDS:")
    j = s.index(MATCHQ)
    k = s.index("            }\n        }\n\n        deserializer.deserialize_struct(\"Request\"")
    e = s.index("\n", s.index("deserializer.deserialize_struct(\"Request\""))
    return s[:i] + DERIVE_Q + s[j:k] + s[e + 1:]


MUTS = [
    # decoding bugs
    ("dup-id", ["C05"], [(Q, 'if id.is_some() {', 'if false {')], ALL),
    ("dup-params-n", ["C05"], [(N, 'if params.is_some() {', 'if false {')], ALL),
    ("dup-method-first-wins", ["C05"], [(Q, 'return Err(DeError::duplicate_field("method"));', 'map.next_value::<IgnoredAny>()?; continue;')], ALL),
    ("unread-unknown", ["C05"], [(Q, "map.next_value::<IgnoredAny>()?;", "")], ALL),
    ("unknown-string-only", ["C05"], [(Q, "map.next_value::<IgnoredAny>()?;", 'return Err(DeError::custom("unexpected member"));')], ALL),
    ("unread-unknown-when-method", ["C05"], [(N, "map.next_value::<IgnoredAny>()?;", "if method.is_none() { map.next_value::<IgnoredAny>()?; }")], ALL),
    ("params-required", ["C05"], [(Q, "let params = params.unwrap_or(serde_json::Value::Null);", 'let params = params.ok_or_else(|| DeError::missing_field("params"))?;')], ALL),
    ("params-default-object", ["C05"], [(Q, "let params = params.unwrap_or(serde_json::Value::Null);", 'let params = params.unwrap_or(serde_json::Value::Bool(false));')], ALL),
    ("id-optional", ["C05"], [(Q, 'id.ok_or_else(|| DeError::missing_field("id"))?', "id.unwrap_or(Value::from(0))")], ALL),
    ("id-fallback", ["C05"], [(Q, 'let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;', 'let id = de::<RequestId, V::Error>(id.ok_or_else(|| DeError::missing_field("id"))?).unwrap_or_else(|_| 0.into());')], ALL),
    ("id-string-always", ["C05"], [(Q, 'let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;', 'let id: RequestId = id.ok_or_else(|| DeError::missing_field("id"))?.to_string().into();')], ALL),
    ("method-swap", ["C03", "C05"], [(Q, '"buildTarget/run" => Request::BuildTargetRun(id, de(params)?),', '"buildTarget/runs" => Request::BuildTargetRun(id, de(params)?),')], ALL),
    ("method-swap2", ["C03", "C05"], [(N, '"build/taskFinish" => TaskFinish(', '"build/taskEnd" => TaskFinish(')], ALL),
    ("shutdown-reload", ["C03", "C05"], [(Q, '"workspace/reload" => Request::WorkspaceReload(id)', '"workspace/reload" => Request::WorkspaceBuildTargets(id)')], ALL),
    ("prefix-shutdown", ["C03", "C05"], [(Q, '"build/shutdown" => Request::Shutdown(id)', 'm if m.starts_with("build/shutdown") => Request::Shutdown(id)')], ALL),
    ("case-insens", ["C03", "C05"], [(N, "match method.as_str() {", "match method.to_lowercase().as_str() {")], ALL),
    ("custom-params-null", ["C05"], [(Q, "Box::leak(method.into_boxed_str()), params)", "Box::leak(method.into_boxed_str()), Value::Null)")], ALL),
    ("custom-method-trim", ["C03", "C05"], [(N, "Box::leak(method.into_boxed_str()), params)", "Box::leak(method.trim().to_string().into_boxed_str()), params)")], ALL),
    ("bad-params-custom", ["C05"], [(Q, '"buildTarget/run" => Request::BuildTargetRun(id, de(params)?),', '"buildTarget/run" => match de::<_, V::Error>(params.clone()) { Ok(p) => Request::BuildTargetRun(id, p), Err(_) => Request::Custom(id, "buildTarget/run", params) },')], ALL),
    ("bad-params-default", ["C05"], [(Q, '"debugSession/start" => Request::DebugSessionStart(id, de(params)?),', '"debugSession/start" => Request::DebugSessionStart(id, de::<_, V::Error>(params).unwrap_or_default()),')], ALL),
    ("early-stop", ["C05"], [(N, "while let Some(key) = map.next_key()? {\n", "while let Some(key) = map.next_key()? {\n                    if params.is_some() && method.is_some() { break; }\n")], ALL),
    ("swallow-key-error", ["C05"], [(N, "while let Some(key) = map.next_key()? {", "while let Ok(Some(key)) = map.next_key() {")], ALL),
    ("swallow-value-error", ["C05"], [(Q, "params = Some(map.next_value()?);", "params = map.next_value().ok();")], ALL),
    ("field-name", ["C05"], [(Q, '"params" => Ok(Field::Params)', '"param" => Ok(Field::Params)')], ALL),
    ("unknown-field-err", ["C05"], [(N, "_ => Ok(Field::Other),", '_ => Err(E::custom("unknown field")),')], ALL),
    ("shutdown-needs-null", ["C05"], [(Q, '"build/shutdown" => Request::Shutdown(id)', '"build/shutdown" if params.is_null() => Request::Shutdown(id)')], ALL),
    ("exit-rejects-params", ["C05"], [(N, '"build/exit" => Exit,', '"build/exit" if !params.is_null() => return Err(DeError::custom("no params")),\n                    "build/exit" => Exit,')], ALL),
    # encoding bugs
    ("ser-id-missing", ["C04"], [(Q, '                obj.serialize_field("id", id)?;\n                obj.serialize_field("method", method)?;\n                if', '                obj.serialize_field("method", method)?;\n                let _ = id;\n                if')], ALL),
    ("ser-id-string", ["C04"], [(Q, '            DebugSessionStart(id, value) => {\n                obj.serialize_field("id", id)?;', '            DebugSessionStart(id, value) => {\n                obj.serialize_field("id", &id.to_string())?;')], ALL),
    ("ser-len0", ["C04"], [(Q, 's.serialize_struct("Request", 2)', 's.serialize_struct("Request", 0)')], ALL),
    ("ser-param-name", ["C04"], [(N, 'TaskProgress(m) => obj.serialize_field("params", m)?', 'TaskProgress(m) => obj.serialize_field("param", m)?')], ALL),
    ("ser-param-swallow", ["C04"], [(N, 'TaskProgress(m) => obj.serialize_field("params", m)?', 'TaskProgress(m) => { let _ = obj.serialize_field("params", m); }')], ALL),
    ("ser-no-params", ["C04"], [(N, 'TaskProgress(m) => obj.serialize_field("params", m)?', 'TaskProgress(_) => {}')], ALL),
    ("ser-no-end", ["C04"], [(Q, "        obj.end()\n", "        let r = obj.end(); drop(r); Err(serde::ser::Error::custom(\"x\"))\n")], ALL),
    ("ser-custom-null-object", ["C04"], [(Q, "if !value.is_null() {", "if value.is_object() {")], ALL),
    ("ser-custom-always", ["C04"], [(Q, "if !value.is_null() {", "if true {")], ALL),
    ("ser-twice", ["C04"], [(N, 'Custom(_, m) => obj.serialize_field("params", m)?,', 'Custom(_, m) => { obj.serialize_field("params", m)?; if m.is_array() { obj.serialize_field("params", m)? } }')], ALL),
    ("ser-method", ["C03", "C04"], [(N, 'BuildTargetDidChange(_) => "buildTarget/didChange"', 'BuildTargetDidChange(_) => "buildTarget/didchange"')], ALL),
    ("resp-null-id", ["C04"], [(R, "    pub id: RequestId,", '    #[serde(rename = "ID")]\n    pub id: RequestId,')], ALL),
    ("resp-result-null", ["C04"], [(R, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub result', "    pub result")], ALL),
    ("resp-error-never", ["C04"], [(R, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub error', "    #[serde(skip)]\n    pub error")], ALL),
    ("resp-data-null", ["C04"], [(R, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub data', '    pub data')], ALL),
    ("resp-skip-if-err", ["C04"], [(R, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub data', '    #[serde(skip_serializing_if = "empty")]\n    pub data'), (R, "impl Response {", "fn empty(v: &Option<serde_json::Value>) -> bool { v.as_ref().map_or(true, |v| v.is_null()) }\nimpl Response {")], ALL),
    # refactorings
    ("R-derive-raw", [], [(Q, derive_q, None)], ALL),
    ("R-shared-value", [], [(N, cut("                while let Some(key) = map.next_key()? {", "                let method = method.ok_or", """                while let Some(key) = map.next_key::<String>()? {
                    let v: Value = map.next_value()?;
                    match key.as_str() {
                        "params" => if params.replace(v).is_some() { return Err(DeError::duplicate_field("params")); },
                        "method" => {
                            let s: String = serde_json::from_value(v).map_err(DeError::custom)?;
                            if method.replace(s).is_some() { return Err(DeError::duplicate_field("method")); }
                        }
                        _ => {}
                    }
                }
"""), None), (N, cut("        enum Field {", "        struct NotificationVisitor;", ""), None)], ALL),
    ("R-next-entry", [], [(N, cut("                while let Some(key) = map.next_key()? {", "                let method = method.ok_or", """                while let Some((key, v)) = map.next_entry::<String, Value>()? {
                    if key == "params" {
                        if params.is_some() { return Err(DeError::duplicate_field("params")); }
                        params = Some(v);
                    } else if key == "method" {
                        if method.is_some() { return Err(DeError::duplicate_field("method")); }
                        method = Some(String::deserialize(v).map_err(DeError::custom)?);
                    }
                }
"""), None), (N, cut("        enum Field {", "        struct NotificationVisitor;", ""), None)], ALL),
    ("R-unwrap-default", [], [(Q, "params.unwrap_or(serde_json::Value::Null)", "params.unwrap_or_default()")], ALL),
    ("R-match-missing", [], [(Q, 'let method = method.ok_or_else(|| DeError::missing_field("method"))?;', 'let method = match method { Some(m) => m, None => return Err(DeError::missing_field("method")) };')], ALL),
    ("R-helper-dup", [], [(Q, every("if id.is_some() {\n                                return Err(DeError::duplicate_field(\"id\"));\n                            }", "once(&id, \"id\")?;"), None), (Q, "                let mut id: Option<Value> = None;", "                fn once<T, E: DeError>(o: &Option<T>, n: &'static str) -> Result<(), E> { match o { Some(_) => Err(E::duplicate_field(n)), None => Ok(()) } }\n                let mut id: Option<Value> = None;")], ALL),
    ("R-loop-match", [], [(N, "while let Some(key) = map.next_key()? {", "loop {\n                    let key = match map.next_key()? { Some(k) => k, None => break };")], ALL),
    ("R-method-helper", [], [(Q, '"build/shutdown" => Request::Shutdown(id),', 'SHUTDOWN => Request::Shutdown(id),'), (Q, "impl From<Request> for Message {", 'const SHUTDOWN: &str = "build/shutdown";\nimpl From<Request> for Message {'), (Q, 'Shutdown(_) => "build/shutdown"', 'Shutdown(_) => SHUTDOWN')], ALL),
    ("R-visit-fn", [], [(Q, MATCHQ, "                build(id, method, params)\n            }\n        }\n        fn build<E: DeError>(id: RequestId, method: String, params: Value) -> Result<Request, E> {\n            {\n                fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> { T::deserialize(p).map_err(DeError::custom) }\n" + MATCHQ)], ALL),
    ("R-ifelse-custom", [], [(Q, "if !value.is_null() {\n                    obj.serialize_field(\"params\", value)?;\n                }", "match value { Value::Null => (), v => obj.serialize_field(\"params\", v)? }")], ALL),
    ("R-map-ser", [], [(N, 's.serialize_struct("Notification", 2)?;', "s.serialize_map(None)?;"), (N, every("obj.serialize_field(", "obj.serialize_entry("), None), (N, "ser::SerializeStruct", "ser::SerializeMap")], ALL),
    ("R-len-exact", [], [(Q, 's.serialize_struct("Request", 2)', 's.serialize_struct("Request", if self.params().map_or(true, |p| p.is_null()) { 2 } else { 3 })')], ALL),
    ("R-common-head", [], [(Q, "        let mut obj = s.serialize_struct(\"Request\", 2)?;\n", "        let mut obj = s.serialize_struct(\"Request\", 2)?;\n        obj.serialize_field(\"id\", self.id())?;\n        obj.serialize_field(\"method\", method)?;\n"), (Q, every('                obj.serialize_field("id", id)?;\n                obj.serialize_field("method", method)?;\n', "                let _ = id;\n"), None)], ALL),
    ("R-noise", [], [(Q, "                Ok(match method.as_str() {", "                tracing::trace!(\"got {}\", method);\n                Ok(match method.as_str() {")], ALL),
    ("R-let-params", [], [(N, "BuildTargetDidChange(m) => obj.serialize_field(\"params\", m)?,", "BuildTargetDidChange(params) => {\n                let p = params;\n                obj.serialize_field(\"params\", p)?;\n            }")], ALL),
]
