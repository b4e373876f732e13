T = "bsp-types/src/"
ALL = ["C17", "C18", "C19", "C26"]
CC = '#[serde(rename_all = "camelCase")]\n'
SKIP = '    #[serde(skip_serializing_if = "Option::is_none")]\n'


def drop(text, n=1):
    def f(s):
        assert text in s
        return s.replace(text, "", n)
    return f


MUTS = [
    ("no-camel-caps", ["C17"], [(T + "bt_capabilities.rs", CC, "")], ALL),
    ("rename-typ", ["C17"], [(T + "show_message.rs", '    #[serde(rename = "type")]\n', "")], ALL),
    ("rename-field", ["C17"], [(T + "bt_sources.rs", "    generated: bool,\n}\n\nimpl Sources", '    #[serde(rename = "isGenerated")]\n    generated: bool,\n}\n\nimpl Sources')], ALL),
    ("rename-ser-only", ["C17"], [(T + "bt_resources.rs", "    resources: Vec", '    #[serde(rename(serialize = "uris"))]\n    resources: Vec')], ALL),
    ("rename-de-only", ["C17"], [(T + "task/id.rs", "    id: String,\n\n", '    #[serde(rename(deserialize = "ident"))]\n    id: String,\n\n')], ALL),
    ("swap-provider", ["C17"], [(T + "server_capabilities.rs", SKIP + "    test_provider:", '    #[serde(rename = "runProvider", skip_serializing_if = "Option::is_none")]\n    test_provider:'), (T + "server_capabilities.rs", SKIP + "    run_provider:", '    #[serde(rename = "testProvider", skip_serializing_if = "Option::is_none")]\n    run_provider:'), ], ALL),
    ("rename-status", ["C17"], [(T + "bt_run.rs", "    status_code: usize,", "    #[serde(rename = \"status\")]\n    status_code: usize,")], ALL),
    ("deny-unknown", ["C17"], [(T + "bt_did_change.rs", "#[derive(Debug, Serialize, Deserialize, Clone)]\npub struct BuildTargetEvent", "#[derive(Debug, Serialize, Deserialize, Clone)]\n#[serde(deny_unknown_fields)]\npub struct BuildTargetEvent")], ALL),
    ("skip-data", ["C17", "C18"], [(T + "bt_did_change.rs", SKIP + "    pub data", "    #[serde(skip)]\n    pub data")], ALL),
    ("skip-ser", ["C17", "C18"], [(T + "task/finish.rs", "    pub status: TaskStatus,", "    #[serde(skip_serializing)]\n    pub status: TaskStatus,")], ALL),
    ("skip-de", ["C17"], [(T + "task/finish.rs", "    pub status: TaskStatus,", "    #[serde(skip_deserializing)]\n    pub status: TaskStatus,")], ALL),
    ("null-origin", ["C18"], [(T + "publish_diagnostics.rs", SKIP, "")], ALL),
    ("null-display", ["C18"], [(T + "workspace_build_targets.rs", SKIP, "")], ALL),
    ("skip-wrong-cond", ["C18"], [(T + "task/start.rs", '#[serde(skip_serializing_if = "String::is_empty")]\n    pub message', '#[serde(skip_serializing_if = "short")]\n    pub message'), (T + "task/start.rs", "impl TaskStart {", "fn short(s: &String) -> bool { s.len() < 2 }\nimpl TaskStart {")], ALL),
    ("skip-default-status", ["C18"], [(T + "task/finish.rs", "    pub status: TaskStatus,", '    #[serde(skip_serializing_if = "TaskStatus::is_ok")]\n    pub status: TaskStatus,')], ALL),
    ("is-none-inverted", ["C18"], [(T + "task/kind.rs", "matches!(self, Self::None)", "!matches!(self, Self::None)")], ALL),
    ("is-none-custom", ["C18"], [(T + "task/kind.rs", "matches!(self, Self::None)", "matches!(self, Self::None | Self::Custom(_))")], ALL),
    ("skip-zero", ["C18"], [(T + "task/progress.rs", SKIP + "    pub progress", '    #[serde(skip_serializing_if = "zero")]\n    pub progress'), (T + "task/progress.rs", "#[derive(Default", "fn zero(v: &Option<u64>) -> bool { v.unwrap_or(0) == 0 }\n#[derive(Default")], ALL),
    ("caps-required", ["C17", "C18"], [(T + "initialize_params.rs", "    #[serde(default)]\n    capabilities", "    capabilities")], ALL),
    ("version-required", ["C17", "C18"], [(T + "initialize_params.rs", '    #[serde(skip_serializing_if = "String::is_empty", default)]\n    version', '    #[serde(skip_serializing_if = "String::is_empty")]\n    version')], ALL),
    ("container-default", ["C17", "C18"], [(T + "task/progress.rs", '#[serde(rename_all = "camelCase", default)]', '#[serde(rename_all = "camelCase")]')], ALL),
    ("default-some", ["C18"], [(T + "bt_did_change.rs", SKIP + "    pub kind", '    #[serde(skip_serializing_if = "Option::is_none", default = "made")]\n    pub kind'), (T + "bt_did_change.rs", "impl BuildTargetEvent {", "fn made() -> Option<BuildTargetEventKind> { Some(BuildTargetEventKind::Created) }\nimpl BuildTargetEvent {")], ALL),
    ("kind-default-custom", ["C18"], [(T + "task/kind.rs", "    fn default() -> Self {\n        Self::None", "    fn default() -> Self {\n        Self::CompileTask")], ALL),
    ("required-defaulted", ["C17"], [(T + "bt_sources.rs", "    kind: SourceKind,\n", "    #[serde(default)]\n    kind: SourceKind,\n")], ALL),
    ("codes-swap", ["C19"], [(T + "task/status.rs", "Error = 2", "Error = 3"), (T + "task/status.rs", "Cancelled = 3", "Cancelled = 2")], ALL),
    ("codes-zero", ["C19"], [(T + "bt_did_change.rs", "Created = 1", "Created = 0")], ALL),
    ("tag-ser", ["C19"], [(T + "bt_tag.rs", 'Self::NoIDE => "no-ide"', 'Self::NoIDE => "noIde"')], ALL),
    ("tag-de", ["C19"], [(T + "bt_tag.rs", '"no-ide" => Self::NoIDE', '"no_ide" => Self::NoIDE')], ALL),
    ("tag-custom-lower", ["C19"], [(T + "bt_tag.rs", "_ => Self::Custom(tag),", "_ => Self::Custom(tag.to_lowercase()),")], ALL),
    ("tag-custom-err", ["C19"], [(T + "bt_tag.rs", "_ => Self::Custom(tag),", "_ => return Err(serde::de::Error::custom(\"unknown\")),")], ALL),
    ("tag-custom-fallback", ["C19"], [(T + "bt_tag.rs", "_ => Self::Custom(tag),", "_ => Self::NoIDE,")], ALL),
    ("tag-fuzzy", ["C19"], [(T + "bt_tag.rs", '"test" => Self::Test,', 't if t.starts_with("test") => Self::Test,')], ALL),
    ("kind-swap", ["C19"], [(T + "task/kind.rs", '"test-report" => Self::TestReport', '"test-report" => Self::TestStart')], ALL),
    ("kind-none-str", ["C18", "C19"], [(T + "task/kind.rs", "TaskDataKind::None => return ser.serialize_none(),", 'TaskDataKind::None => "none",')], ALL),
    ("u32-time", ["C26"], [(T + "task/start.rs", "Option<u64>", "Option<u32>")], ALL),
    ("u32-progress", ["C26"], [(T + "task/progress.rs", "pub progress: Option<u64>", "pub progress: Option<u32>")], ALL),
    ("ser-with-trunc", ["C17", "C26"], [(T + "task/finish.rs", SKIP + "    pub event_time", '    #[serde(skip_serializing_if = "Option::is_none", serialize_with = "secs")]\n    pub event_time'), (T + "task/finish.rs", "impl TaskFinish {", "fn secs<S: serde::Serializer>(v: &Option<u64>, s: S) -> Result<S::Ok, S::Error> { v.map(|v| v as u32).serialize(s) }\nimpl TaskFinish {")], ALL),
    ("de-with-trunc", ["C17", "C26"], [(T + "task/finish.rs", SKIP + "    pub event_time", '    #[serde(skip_serializing_if = "Option::is_none", deserialize_with = "secs")]\n    pub event_time'), (T + "task/finish.rs", "impl TaskFinish {", "fn secs<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> { Ok(Option::<u32>::deserialize(d)?.map(u64::from)) }\nimpl TaskFinish {")], ALL),
    ("code-i16", ["C26"], [("bsp-server/src/response.rs", "pub code: i32,", "pub code: i16,"), ("bsp-server/src/response.rs", "            code,\n", "            code: code as i16,\n")], ["C26"]),
    # refactorings
    ("R-explicit-renames", [], [(T + "bt_capabilities.rs", CC, ""), (T + "bt_capabilities.rs", "    can_compile: bool,\n\n    /// This target can be tested", '    #[serde(rename = "canCompile")]\n    can_compile: bool,\n\n    /// This target can be tested'), (T + "bt_capabilities.rs", "    can_test: bool,\n\n    /// This", '    #[serde(rename = "canTest")]\n    can_test: bool,\n\n    /// This'), (T + "bt_capabilities.rs", "    can_run: bool,\n\n    // This", '    #[serde(rename = "canRun")]\n    can_run: bool,\n\n    // This'), (T + "bt_capabilities.rs", "    can_debug: bool,\n}", '    #[serde(rename = "canDebug")]\n    can_debug: bool,\n}')], ALL),
    ("R-skip-closure-fn", [], [(T + "bt_did_change.rs", SKIP + "    pub kind", '    #[serde(skip_serializing_if = "unset", default)]\n    pub kind'), (T + "bt_did_change.rs", "impl BuildTargetEvent {", "fn unset<T>(v: &Option<T>) -> bool { match v { None => true, Some(_) => false } }\nimpl BuildTargetEvent {")], ALL),
    ("R-field-order", [], [(T + "bt_identifier.rs", "    uri: Url,\n}\n\nimpl", "    uri: Url,\n}\n\nimpl"), (T + "show_message.rs", "    /// The actual message.\n    pub message: String,\n\n", ""), (T + "show_message.rs", "    pub origin_id: Option<String>,\n}", "    pub origin_id: Option<String>,\n\n    /// The actual message.\n    pub message: String,\n}")], ALL),
    ("R-tag-table", [], [(T + "bt_tag.rs", "        Ok(match tag.as_str() {", "        let name: &str = &tag;\n        Ok(match name {")], ALL),
    ("R-kind-early", [], [(T + "task/kind.rs", "        let s = match self {", "        if self.is_none() {\n            return ser.serialize_none();\n        }\n        let s = match self {"), (T + "task/kind.rs", "TaskDataKind::None => return ser.serialize_none(),", "TaskDataKind::None => unreachable!(),")], ALL),
    ("R-kind-as-str", [], [(T + "task/kind.rs", "        ser.serialize_str(s)", "        s.serialize(ser)")], ALL),
    ("R-tag-ifelse", [], [(T + "bt_tag.rs", '            "library" => Self::Libary,\n            "application" => Self::Application,', '            t if t == "library" => Self::Libary,\n            t if "application" == t => Self::Application,')], ALL),
    ("R-u64-alias", [], [(T + "task/start.rs", "Option<u64>", "Option<Millis>"), (T + "task/start.rs", "impl TaskStart {", "type Millis = u64;\nimpl TaskStart {")], ALL),
    ("R-private-rename", [], [(T + "bt_clean_cache.rs", lambda s: s.replace("    cleaned: bool,\n}\n\nimpl", '    #[serde(rename = "cleaned")]\n    done: bool,\n}\n\nimpl').replace("Self { message, cleaned }", "Self { message, done: cleaned }").replace("            cleaned,\n", "            done: cleaned,\n").replace("self.cleaned", "self.done"), None)], ALL),
    ("R-manual-ser", [], [(T + "bt_identifier.rs", "#[derive(Debug, Serialize, Deserialize,", "impl Serialize for BuildTargetIdentifier {\n    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {\n        use serde::ser::SerializeMap;\n        let mut m = s.serialize_map(Some(1))?;\n        m.serialize_entry(\"uri\", &self.uri)?;\n        m.end()\n    }\n}\n#[derive(Debug, Deserialize,")], ALL),
]
