"""Mutants for C20 C21 C22 C24 C25 C27 C28."""
T, Sv = "bsp-types/src/", "bsp-server/src/"
V = ["C20", "C21", "C22", "C24", "C25", "C27", "C28"]


def m(name, expect, *edits):
    MUTS.append((name, expect, list(edits), V))


MUTS = []
# C20 bugs
m("getter-wrong-field", ["C20"], (T + "initialize_params.rs", lambda s: s.replace("&self.bsp_version", "&self.version") if "&self.bsp_version" in s else s.replace("self.bsp_version.as_ref()", "self.version.as_ref()"), None))
m("setter-wrong-field", ["C20"], (T + "bt_compile.rs", "self.data_kind = data_kind", "self.data_kind = None; let _ = data_kind"))
m("setter-clobbers-other", ["C20"], (T + "bt_run.rs", lambda s: s.replace("self.data_kind = data_kind;", "self.data_kind = data_kind;\n        self.data = None;", 1), None))
m("new-swapped", ["C20"], (T + "bt_capabilities.rs", lambda s: s.replace("            can_test,\n            can_run,", "            can_test: can_run,\n            can_run: can_test,", 1), None))
m("is-empty-inverted", ["C20"], (T + "bt_clean_cache.rs", "self.targets.is_empty()", "!self.targets.is_empty()"))
m("warn-as-error", ["C20"], (T + "log_message.rs", "Self::new(MessageType::Warning, msg", "Self::new(MessageType::Error, msg"))
m("show-drops-origin", ["C20"], (T + "show_message.rs", "orid.map(Into::into)", "orid.map(Into::into).filter(|_: &String| task_none)"), (T + "show_message.rs", "        Self {\n            typ,", "        let task_none = task.is_none();\n        Self {\n            typ,"))
m("add-parent-front", ["C20"], (T + "task/id.rs", "self.parents.push(value)", "self.parents.insert(0, value)"))
m("add-parent-replaces", ["C20"], (T + "task/id.rs", "self.parents.push(value)", "self.parents = vec![value]"))
m("is-ok-cancelled", ["C20"], (T + "task/status.rs", "matches!(self, Self::Ok)", "!matches!(self, Self::Error)"))
m("finish-new-error", ["C20"], (T + "task/finish.rs", lambda s: s.replace("..Self::default()", "status: TaskStatus::Cancelled,\n            ..Self::default()", 1), None))
m("params-wrong", ["C20"], (Sv + "request.rs", "Shutdown(_) | WorkspaceBuildTargets(_) | WorkspaceReload(_) => return Ok(Value::Null),", "Shutdown(_) | WorkspaceBuildTargets(_) | WorkspaceReload(_) => return Ok(Value::Bool(true)),"))
m("params-custom-method", ["C20"], (Sv + "request.rs", "Custom(_, _, ref params) => serde_json::to_value(params),", "Custom(_, ref params, _) => serde_json::to_value(params),"))
m("task-from-str-parents", ["C20"], (T + "task/id.rs", "            id: id.into(),\n            parents: Default::default(),", "            id: id.into(),\n            parents: vec![id.into()],"))
# C20 refactorings
m("ref-setter-replace", [], (T + "bt_compile.rs", "self.data_kind = data_kind", "let _ = std::mem::replace(&mut self.data_kind, data_kind)"))
m("ref-getter-match", [], (T + "task/status.rs", "matches!(self, Self::Ok)", "match self { Self::Ok => true, _ => false }"))
m("ref-is-empty-len", [], (T + "bt_clean_cache.rs", "self.targets.is_empty()", "self.targets.len() == 0"))
m("ref-new-local", [], (T + "bt_capabilities.rs", lambda s: s.replace("        Self {\n            can_compile,", "        let can_test_flag = can_test;\n        let can_test = can_test_flag;\n        Self {\n            can_compile,", 1), None))
m("ref-params-if", [], (Sv + "request.rs", "        Ok(value?)\n", "        match value {\n            Ok(v) => Ok(v),\n            Err(e) => Err(e.into()),\n        }\n"))
m("ref-log-helper", [], (T + "log_message.rs", "            task: task.map(Into::into),", "            task,"))
m("ref-log-match", [], (T + "show_message.rs", "orid.map(Into::into)", "match orid { Some(x) => Some(x.into()), None => None }"))
# C21
m("conv-swapped-kind", ["C21"], (Sv + "request.rs", "convertible!(BuildTargetCompile);", "impl From<(RequestId, BuildTargetCompile)> for Request { fn from(v: (RequestId, BuildTargetCompile)) -> Self { Self::BuildTargetRun(v.0, BuildTargetRun::new_simple(v.1.target().clone())) } }\nimpl From<(RequestId, BuildTargetCompile)> for Message { fn from(v: (RequestId, BuildTargetCompile)) -> Self { Self::Request(v.into()) } }"))
m("conv-result-error", ["C21"], (Sv + "response.rs", "                Message::Response(Response::ok(v.0, v.1))\n            }\n        }\n    };", "                let mut r = Response::ok(v.0, v.1);\n                if matches!(r.result, Some(serde_json::Value::Null)) { r.result = None; }\n                Message::Response(r)\n            }\n        }\n    };"))
m("conv-text-swapped", ["C21"], (Sv + "notification.rs", '"build/exit" => Self::Exit,\n            "build/initialized" => Self::Initialized,\n            _ => panic', '"build/exit" => Self::Initialized,\n            "build/initialized" => Self::Exit,\n            _ => panic'))
m("conv-custom-as-exit", ["C21"], (Sv + "notification.rs", "        Self::Custom(v.0, v.1)\n    }\n}\n\nimpl From<&str>", "        if v.0 == \"build/exit\" { return Self::Exit; }\n        Self::Custom(v.0, v.1)\n    }\n}\n\nimpl From<&str>"))
m("conv-null-params", ["C21"], (Sv + "request.rs", "        Self::Custom(v.0.into(), v.1, v.2)", "        Self::Custom(v.0.into(), v.1, Value::Null)"))
m("ref-conv-helper", [], (Sv + "response.rs", "                Message::Response(Response::ok(v.0, v.1))\n            }\n        }\n    };", "                let (id, value) = v;\n                Response::ok(id, value).into()\n            }\n        }\n    };"))
m("ref-conv-via", [], (Sv + "notification.rs", "        Self::Notification(Notification::Custom(v.0, v.1))", "        let (method, params) = v;\n        Notification::from((method, params)).into()"))
# C22
m("default-cap-true", ["C22"], (T + "bt_capabilities.rs", "#[derive(Debug, Default,", "#[derive(Debug,"), (T + "bt_capabilities.rs", "impl BuildTargetCapabilities {", "impl Default for BuildTargetCapabilities { fn default() -> Self { Self { can_compile: true, can_test: false, can_run: false, can_debug: false } } }\nimpl BuildTargetCapabilities {"))
m("default-kind", ["C22"], (T + "task/kind.rs", "        Self::None\n", "        Self::CompileTask\n"))
m("default-status", ["C22"], (T + "task/status.rs", "fn default() -> Self {\n        Self::Ok", "fn default() -> Self {\n        Self::Cancelled"))
m("ref-default-manual", [], (T + "bt_capabilities.rs", "#[derive(Debug, Default,", "#[derive(Debug,"), (T + "bt_capabilities.rs", "impl BuildTargetCapabilities {", "impl Default for BuildTargetCapabilities { fn default() -> Self { Self::new(false, false, false, false) } }\nimpl BuildTargetCapabilities {"))
# C24
ID = Sv + "request/id.rs"
m("id-numeric-text", ["C24"], (ID, "#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]\npub struct RequestId(IdRepr);", "#[derive(Debug, Serialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]\npub struct RequestId(IdRepr);\nimpl<'de> Deserialize<'de> for RequestId { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let r = IdRepr::deserialize(d)?; Ok(match r { IdRepr::String(s) => match s.parse::<i32>() { Ok(n) => RequestId(IdRepr::I32(n)), Err(_) => RequestId(IdRepr::String(s)) }, r => RequestId(r) }) } }"))
m("id-eq-mixed", ["C24"], (ID, "#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]", "impl PartialEq for IdRepr { fn eq(&self, o: &Self) -> bool { match (self, o) { (IdRepr::I32(a), IdRepr::I32(b)) => a == b, (IdRepr::String(a), IdRepr::String(b)) => a.len() == b.len(), _ => false } } }\n#[derive(Debug, Serialize, Deserialize, Clone, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]"))
m("id-eq-cross", ["C24"], (ID, "#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]", "impl PartialEq for IdRepr { fn eq(&self, o: &Self) -> bool { match (self, o) { (IdRepr::I32(a), IdRepr::I32(b)) => a == b, (IdRepr::String(a), IdRepr::String(b)) => a == b, (IdRepr::I32(a), IdRepr::String(b)) | (IdRepr::String(b), IdRepr::I32(a)) => a.to_string() == *b } } }\n#[derive(Debug, Serialize, Deserialize, Clone, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]"))
m("id-from-string-parse", ["C24"], (ID, "        RequestId(IdRepr::String(id))", "        match id.parse() { Ok(n) => RequestId(IdRepr::I32(n)), Err(_) => RequestId(IdRepr::String(id)) }"))
m("id-bool-variant", ["C24"], (ID, "    I32(i32),\n", "    I32(i32),\n    Bool(bool),\n"), (ID, "            IdRepr::I32(it) => fmt::Display::fmt(it, f),", "            IdRepr::I32(it) => fmt::Display::fmt(it, f),\n            IdRepr::Bool(it) => fmt::Display::fmt(it, f),"))
m("id-u16", ["C24"], (ID, "impl From<i32> for RequestId {\n    fn from(id: i32) -> RequestId {\n        RequestId(IdRepr::I32(id))", "impl From<i32> for RequestId {\n    fn from(id: i32) -> RequestId {\n        RequestId(IdRepr::I32(id.abs()))"))
m("id-ser-display", ["C24"], (ID, "#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]\npub struct RequestId(IdRepr);", "#[derive(Debug, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(transparent)]\npub struct RequestId(IdRepr);\nimpl Serialize for RequestId { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }"))
VIS = """#[derive(Debug, Serialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[serde(untagged)]
enum IdRepr { I32(i32), String(String) }
impl<'de> Deserialize<'de> for IdRepr { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
  struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = IdRepr; fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("id") }
    fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<IdRepr, E> { i32::try_from(v).map(IdRepr::I32).map_err(E::custom) }
    fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<IdRepr, E> { %s }
    fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<IdRepr, E> { Ok(IdRepr::String(v.to_string())) } }
  d.deserialize_any(V) } }
"""


def repr_with(body):
    def f(s):
        i = s.index("#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]")
        j = s.index("impl From<i32>")
        return s[:i] + VIS % body + s[j:]
    return f


m("ref-id-visitor", [], (ID, repr_with("i32::try_from(v).map(IdRepr::I32).map_err(E::custom)"), None))
m("id-visitor-trunc", ["C24"], (ID, repr_with("Ok(IdRepr::I32(v as i32))"), None))
m("ref-id-variant-order", [], (ID, "    I32(i32),\n    String(String),\n}", "    String(String),\n    I32(i32),\n}"))
# C25
SRV = T + "server.rs"
m("handler-panics", ["C25"], (SRV, 'Err(anyhow!("method not found"))', "unimplemented!()"))
m("handler-prints", ["C25"], (SRV, 'Err(anyhow!("method not found"))', '{ println!("nope"); Err(anyhow!("method not found")) }'))
m("handler-indexes", ["C25"], (SRV, "Ok(BuildTargetSourcesResult::default())", "{ let _ = &params.targets()[0]; Ok(BuildTargetSourcesResult::default()) }"))
m("handler-fake", ["C25"], (SRV, lambda s: s.replace("fn build_shutdown(&self) -> Result<Option<Value>> {\n        Ok(None)", "fn build_shutdown(&self) -> Result<Option<Value>> {\n        Ok(Some(Value::Bool(true)))"), None))
m("ref-handler-bail", [], (SRV, 'Err(anyhow!("method not found"))', 'anyhow::bail!("not implemented")'))
# C27
m("eq-forgets", ["C27"], (T + "bt_clean_cache.rs", lambda s: s.replace("PartialEq, Eq", "Eq", 2).replace("impl BuildTargetCleanCacheResult {", "impl PartialEq for BuildTargetCleanCacheResult { fn eq(&self, o: &Self) -> bool { self.cleaned == o.cleaned } }\nimpl PartialEq for BuildTargetCleanCache { fn eq(&self, o: &Self) -> bool { self.targets == o.targets } }\nimpl BuildTargetCleanCacheResult {"), None))
m("ref-eq-manual", [], (T + "bt_clean_cache.rs", lambda s: s.replace("PartialEq, Eq", "Eq", 2).replace("impl BuildTargetCleanCacheResult {", "impl PartialEq for BuildTargetCleanCacheResult { fn eq(&self, o: &Self) -> bool { o.cleaned == self.cleaned && self.message == o.message } }\nimpl PartialEq for BuildTargetCleanCache { fn eq(&self, o: &Self) -> bool { self.targets == o.targets } }\nimpl BuildTargetCleanCacheResult {"), None))
m("clone-drops", ["C27"], (T + "task/id.rs", "#[derive(Default, Debug, Serialize, Deserialize, Clone)]", "#[derive(Default, Debug, Serialize, Deserialize)]"), (T + "task/id.rs", "impl TaskId {", "impl Clone for TaskId { fn clone(&self) -> Self { Self { id: self.id.clone(), parents: vec![] } } }\nimpl TaskId {"))
# C28
IP = T + "initialize_params.rs"
m("root-path-raw", ["C28"], (IP, lambda s: s[:s.index("pub fn root_path")] + "pub fn root_path(&self) -> std::path::PathBuf { self.root_uri.path().into() }\n    fn _x(&self) { let _ = (|| " + "())();\n    }\n" + s[s.index("\n", s.index("    }\n", s.index("pub fn root_path"))) + 1:], None))
