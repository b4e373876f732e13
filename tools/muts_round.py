"""C30: encoder and decoder against each other."""
T='bsp-types/src/'; RSP='bsp-server/src/response.rs'
MUTS = []
def B(name, exp, *edits, also=()): MUTS.append((name, exp.split(), list(edits), exp.split() + list(also)))
def Q(name, checks, *edits): MUTS.append(("q-" + name, [], list(edits), checks.split()))
B('version-nodefault', 'C30', (T+'initialize_params.rs', '#[serde(skip_serializing_if = "String::is_empty", default)]', '#[serde(skip_serializing_if = "String::is_empty")]'))
B('generated-false', 'C30', (T+'bt_sources.rs', '    generated: bool,', '    #[serde(skip_serializing_if = "std::ops::Not::not")]\n    generated: bool,'))
B('reset-true', 'C30', (T+'publish_diagnostics.rs', '    reset: bool,', '    #[serde(skip_serializing_if = "std::clone::Clone::clone", default)]\n    reset: bool,'))
Q('reset-false', 'C30', (T+'publish_diagnostics.rs', '    reset: bool,', '    #[serde(skip_serializing_if = "std::ops::Not::not", default)]\n    reset: bool,'))
B('origin-rename-ser', 'C30', (T+'bt_test.rs', '    #[serde(skip_serializing_if = "Option::is_none")]', '    #[serde(skip_serializing_if = "Option::is_none", rename(serialize = "originID"))]'))
B('data-skip', 'C30', (T+'initialize_params.rs', '#[serde(skip_serializing_if = "Option::is_none", default)]', '#[serde(skip)]'))
B('data-skip-ser', 'C30', (T+'initialize_params.rs', '#[serde(skip_serializing_if = "Option::is_none", default)]', '#[serde(skip_serializing, default)]'))
B('deny-unknown', 'C30', (T+'bt_run.rs', lambda s: s.replace('#[serde(rename_all = "camelCase")]', '#[serde(rename_all = "camelCase", deny_unknown_fields)]', 1).replace('    data: Option<Value>', '    #[serde(skip_deserializing)]\n    data: Option<Value>', 1), None))
B('caps-default', 'C30', (T+'initialize_params.rs', '    #[serde(default)]\n', '    #[serde(skip_deserializing)]\n'))
B('task-status-default', 'C30', (T+'task.rs', lambda s: s, None)) if False else None
B('parents-default', 'C30', (T+'task/id.rs', lambda s: s.replace('Vec::is_empty")]', 'Vec::is_empty", skip_deserializing)]'), None))
Q('alias', 'C30', (T+'bt_sources.rs', '    generated: bool,', '    #[serde(alias = "isGenerated")]\n    generated: bool,'))
Q('rename-both', 'C30', (T+'bt_sources.rs', '    generated: bool,', '    #[serde(rename = "isGenerated")]\n    generated: bool,'))
Q('default-extra', 'C30', (T+'bt_sources.rs', '    generated: bool,', '    #[serde(default)]\n    generated: bool,'))
B('resp-result', 'C30', (RSP, 'skip_serializing_if = "Option::is_none"', 'skip_serializing_if = "Option::is_some"'))
