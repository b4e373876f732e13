M = "bsp-server/src/message.rs"
Q = "bsp-server/src/request.rs"
N = "bsp-server/src/notification.rs"
R = "bsp-server/src/response.rs"
A = ["C06"]
D = "#[derive(Serialize, Deserialize, Debug, Clone)]\n#[serde(untagged)]"
HAND = """impl<'de> Deserialize<'de> for Message {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let v = serde_json::Value::deserialize(d)?;
        %s
    }
}
"""


def hand(body):
    return [(M, D, "#[derive(Serialize, Debug, Clone)]\n#[serde(untagged)]"), (M, "#[derive(Serialize)]\nstruct JsonRpc", HAND % body + "#[derive(Serialize)]\nstruct JsonRpc")]


MUTS = [
    ("notif-first", A, [(M, "    Request(Request),\n    Response(Response),\n    Notification(Notification),", "    Notification(Notification),\n    Request(Request),\n    Response(Response),")], A),
    ("resp-first", A, [(M, "    Request(Request),\n    Response(Response),\n    Notification(Notification),", "    Response(Response),\n    Request(Request),\n    Notification(Notification),")], A),
    ("resp-deny-unknown", A, [(R, "#[derive(Debug, Serialize, Deserialize, Clone)]\npub struct Response {", "#[derive(Debug, Serialize, Deserialize, Clone)]\n#[serde(deny_unknown_fields)]\npub struct Response {")], A),
    ("req-id-optional", A, [(Q, 'let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;', 'let id = id.map(de::<RequestId, _>).transpose()?.unwrap_or_else(|| 0.into());')], A),
    ("req-id-or-default", A, [(Q, 'let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;', 'let id = de::<RequestId, V::Error>(id.ok_or_else(|| DeError::missing_field("id"))?).unwrap_or_else(|_| 0.into());')], A),
    ("req-method-default", A, [(Q, 'let method = method.ok_or_else(|| DeError::missing_field("method"))?;', 'let method = method.unwrap_or_default();')], A),
    ("notif-method-default", A, [(N, 'let method = method.ok_or_else(|| DeError::missing_field("method"))?;', 'let method = method.unwrap_or_default();')], A),
    ("notif-other-refused", A, [(N, "                        Field::Other => {\n                            map.next_value::<IgnoredAny>()?;\n", "                        Field::Other => {\n                            return Err(DeError::custom(\"unknown member\"));\n")], A),
    ("notif-rejects-id", [], [(N, "            Params,\n            Other,", "            Params,\n            Id,\n            Other,"), (N, '"params" => Ok(Field::Params),', '"params" => Ok(Field::Params),\n                            "id" => Ok(Field::Id),'), (N, "                        Field::Other => {", "                        Field::Id => return Err(DeError::custom(\"a request\")),\n                        Field::Other => {")], A),
    ("notif-rejects-id-late", [], [(N, "            Params,\n            Other,", "            Params,\n            Id,\n            Other,"), (N, '"params" => Ok(Field::Params),', '"params" => Ok(Field::Params),\n                            "id" => Ok(Field::Id),'), (N, "                        Field::Other => {", "                        Field::Id => { has_id = true; map.next_value::<IgnoredAny>()?; }\n                        Field::Other => {"), (N, "                let mut params: Option<serde_json::Value> = None;", "                let mut has_id = false;\n                let mut params: Option<serde_json::Value> = None;"), (N, 'let params = params.unwrap_or(serde_json::Value::Null);', 'let params = params.unwrap_or(serde_json::Value::Null);\n                if has_id { return Err(DeError::custom("a request")); }')], A),
    ("req-rejects-result", A, [(Q, "            Params,\n            Other,", "            Params,\n            Result,\n            Other,"), (Q, '"params" => Ok(Field::Params),', '"params" => Ok(Field::Params),\n                            "jsonrpc" => Ok(Field::Result),'), (Q, "                        Field::Other => {", "                        Field::Result => return Err(DeError::custom(\"x\")),\n                        Field::Other => {")], A),
    ("params-lossy", A, [(Q, '"debugSession/start" => Request::DebugSessionStart(id, de(params)?),', '"debugSession/start" => Request::DebugSessionStart(id, de::<_, V::Error>(params).unwrap_or_default()),')], A),
    ("hand-good", [], hand("""match (v.get("id").is_some(), v.get("method").is_some()) {
            (true, true) => Request::deserialize(v).map(Message::Request).map_err(D::Error::custom),
            (false, true) => Notification::deserialize(v).map(Message::Notification).map_err(D::Error::custom),
            (true, false) => Response::deserialize(v).map(Message::Response).map_err(D::Error::custom),
            (false, false) => Err(D::Error::custom("no message")),
        }"""), A),
    ("hand-bad", A, hand("""match (v.get("id").is_some(), v.get("method").is_some()) {
            (true, true) => Request::deserialize(v).map(Message::Request).map_err(D::Error::custom),
            (true, false) => Response::deserialize(v).map(Message::Response).map_err(D::Error::custom),
            (_, _) => Err(D::Error::custom("no message")),
        }"""), A),
    ("hand-result-first", A, hand("""if v.get("result").is_some() { return Response::deserialize(v).map(Message::Response).map_err(D::Error::custom); }
        if let Ok(r) = Request::deserialize(&v) { return Ok(Message::Request(r)); }
        Notification::deserialize(v).map(Message::Notification).map_err(D::Error::custom)"""), A),
    ("hand-seq", [], hand("""if let Ok(r) = Request::deserialize(&v) { return Ok(Message::Request(r)); }
        if let Ok(r) = Response::deserialize(&v) { return Ok(Message::Response(r)); }
        Notification::deserialize(&v).map(Message::Notification).map_err(D::Error::custom)"""), A),
]
