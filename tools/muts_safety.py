"""Mutants for C15 C16."""
T, Sv = "bsp-types/src/", "bsp-server/src/"
V = ["C15", "C16"]
M, TR, L, RQ, NO = Sv + "message.rs", Sv + "transporter.rs", Sv + "lib.rs", Sv + "request.rs", Sv + "notification.rs"


def m(name, expect, *edits):
    MUTS.append((name, expect, list(edits), V))


MUTS = []
# C15 bugs
m("slice-without-check", ["C15"], (M, '''        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
''', ""))
m("check-lf-only", ["C15"], (M, 'if !buf.ends_with("\\r\\n") {', 'if !buf.ends_with(\'\\n\') {'))
m("cut-text-mid-char", ["C15"], (M, '        let mut parts = buf.splitn(2, ": ");', '        if buf.len() > 64 { tracing::trace!("{}", &buf[..64]); }\n        let mut parts = buf.splitn(2, ": ");'))
m("header-value-unwrap", ["C15"], (M, '.ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?', '.unwrap()'))
m("parse-unwrap", ["C15"], (M, "header_value.parse::<usize>().map_err(invalid_data)?", "header_value.parse::<usize>().unwrap()"))
m("utf8-unwrap", ["C15"], (M, "String::from_utf8(buf).map_err(invalid_data)?", "String::from_utf8(buf).unwrap()"))
m("size-unwrap", ["C15"], (M, 'size.ok_or_else(|| invalid_data!("no Content-Length"))?', 'size.expect("no Content-Length")'))
m("prealloc", ["C15"], (M, "    buf.clear();\n    inp.take", "    buf.clear();\n    buf.reserve(size);\n    inp.take"))
m("prealloc-resize", ["C15"], (M, "    inp.take(size as u64).read_to_end(&mut buf)?;", "    buf.resize(size, 0);\n    inp.read_exact(&mut buf)?;"))
m("size-plus", ["C15"], (M, "inp.take(size as u64)", "inp.take((size + 2) as u64)"))
m("size-minus", ["C15"], (M, "inp.take(size as u64)", "inp.take((size - 1) as u64)"))
m("chunked-div", ["C15"], (M, "    buf.clear();\n    inp.take", "    buf.clear();\n    let _pct = 100 / size;\n    inp.take"))
m("send-unwrap", ["C15"], (TR, "reader_sender.send(msg).map_err(disconnected)?;", "reader_sender.send(msg).unwrap();"))
m("write-unwrap", ["C15"], (M, "w.flush()?;", "w.flush().unwrap();"))
m("init-send-unwrap", ["C15"], (L, '''                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;''', '''                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .unwrap();'''))
m("init-todo", ["C15"], (L, 'tracing::warn!("not initialized, dropping {:?}", notification);', 'if let Notification::Custom(_, p) = &notification { assert!(!p.is_null()); }'))
m("shutdown-unreachable", ["C15"], (L, '''                    let msg = format!("unexpected error during shutdown: {}", e);
                    return Err(ProtocolError(msg));''', '''                    unreachable!("unexpected error during shutdown: {}", e);'''))
m("method-index", ["C15"], (RQ, "_ => Request::Custom(id, Box::leak(method.into_boxed_str()), params),", '''_ => {
                        let _prefix = &method[..1];
                        Request::Custom(id, Box::leak(method.into_boxed_str()), params)
                    }'''))
m("params-value-index", ["C15"], (NO, '                let params = params.unwrap_or(serde_json::Value::Null);', '                let params = params.unwrap_or(serde_json::Value::Null);\n                let _n = params.as_array().map(|a| a[0].is_null());'))
m("id-unwrap", ["C15"], (RQ, 'let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;', 'let id = de::<RequestId, V::Error>(id.ok_or_else(|| DeError::missing_field("id"))?).unwrap();'))
m("tag-unreachable", ["C15"], (T + "bt_tag.rs", '"manual" => Self::Manual,\n            _ =>', '"manual" => Self::Manual,\n            "" => unreachable!(),\n            _ =>'))
m("size-total", ["C15"], (TR, "            let mut stdin = stdin.lock();\n", "            let mut stdin = stdin.lock();\n            let mut count: u16 = 0;\n"), (TR, "                reader_sender.send(msg).map_err(disconnected)?;\n\n", "                reader_sender.send(msg).map_err(disconnected)?;\n                count += 1;\n                tracing::trace!(\"{}\", count);\n"))
m("u32-narrow-count", ["C15"], (TR, "            let mut stdin = stdin.lock();\n", "            let mut stdin = stdin.lock();\n            let mut count = 0u8;\n"), (TR, "                reader_sender.send(msg).map_err(disconnected)?;\n\n", "                reader_sender.send(msg).map_err(disconnected)?;\n                count += 1;\n                tracing::trace!(\"{}\", count);\n"))
m("recursive-skip", ["C15"], (M, "        let msg = serde_json::from_str(&text)?;", "        let msg = match serde_json::from_str(&text) { Ok(m) => m, Err(_) => return Self::read(r) };"))
m("exit-process", ["C15"], (TR, "                if is_exit {\n                    break;\n                }", "                if is_exit {\n                    std::process::exit(0);\n                }"))
m("display-panic", ["C15"], (Sv + "request/id.rs", "IdRepr::String(it) => fmt::Debug::fmt(it, f),", "IdRepr::String(it) => f.write_str(&it[..8]),"))
m("abs-panic", ["C15"], (Sv + "request/id.rs", "IdRepr::I32(it) => fmt::Display::fmt(it, f),", "IdRepr::I32(it) => fmt::Display::fmt(&(-*it), f),"))
m("total-peer", ["C15"], (M, "    let mut size = None;\n", "    let mut size = None;\n    let mut total = 0usize;\n"), (M, "size = Some(header_value.parse::<usize>().map_err(invalid_data)?);", "size = Some(header_value.parse::<usize>().map_err(invalid_data)?);\n            total += size.unwrap_or(0);\n            tracing::trace!(\"{}\", total);"))
# C15 refactorings
m("ref-strip-suffix", [], (M, '''        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];''', '''        let buf = match buf.strip_suffix("\\r\\n") {
            Some(line) => line,
            None => return Err(invalid_data!("malformed header: {:?}", buf)),
        };'''))
m("ref-truncate", [], (M, "        let buf = &buf[..buf.len() - 2];\n", "        let end = buf.len() - 2;\n        buf.truncate(end);\n"))
m("ref-split-at", [], (M, "        let buf = &buf[..buf.len() - 2];\n", "        let (buf, _) = buf.split_at(buf.len() - 2);\n"))
m("ref-find", [], (M, '''        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;''', '''        let at = buf.find(": ").ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        let header_name = &buf[..at];
        let header_value = &buf[at + 2..];'''))
m("ref-split-once", [], (M, '''        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;''', '''        let (header_name, header_value) = buf
            .split_once(": ")
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;'''))
m("ref-prealloc-capped", [], (M, "    buf.clear();\n    inp.take", "    buf.clear();\n    buf.reserve(size.min(4096));\n    inp.take"))
m("ref-prealloc-capped2", [], (M, "    buf.clear();\n    inp.take", "    buf.clear();\n    if size < 4096 {\n        buf.reserve(size);\n    }\n    inp.take"))
m("ref-count-usize", [], (TR, "            let mut stdin = stdin.lock();\n", "            let mut stdin = stdin.lock();\n            let mut count = 0usize;\n"), (TR, "                reader_sender.send(msg).map_err(disconnected)?;\n\n", "                reader_sender.send(msg).map_err(disconnected)?;\n                count += 1;\n                tracing::trace!(\"{}\", count);\n"))
m("ref-bytes-strip", [], (M, "        let buf = &buf[..buf.len() - 2];\n", "        if buf.len() < 2 {\n            return Err(invalid_data!(\"short\"));\n        }\n        let buf = &buf[..buf.len() - 2];\n"))
m("ref-shortfall", [], (M, "    if buf.len() < size {\n", "    if buf.len() < size {\n        tracing::debug!(\"{} bytes missing\", size - buf.len());\n"))
m("ref-value-index", [], (NO, '                let params = params.unwrap_or(serde_json::Value::Null);', '                let params = params.unwrap_or(serde_json::Value::Null);\n                let _n = params["task"].is_null();'))
m("ref-first-get", [], (NO, '                let params = params.unwrap_or(serde_json::Value::Null);', '                let params = params.unwrap_or(serde_json::Value::Null);\n                let _n = params.as_array().map_or(false, |a| !a.is_empty() && a[0].is_null());'))
# C16 bugs
m("leak-id", ["C16"], (RQ, 'let params = params.unwrap_or(serde_json::Value::Null);', 'let params = params.unwrap_or(serde_json::Value::Null);\n                let _x: &\'static str = Box::leak(id.to_string().into_boxed_str());'))
m("leak-method-always", ["C16"], (RQ, "Ok(match method.as_str() {", "let name: &'static str = Box::leak(method.into_boxed_str());\n                Ok(match name {"), (RQ, "Box::leak(method.into_boxed_str()), params", "name, params"))
m("leak-on-error", ["C16"], (NO, "let params = params.unwrap_or(serde_json::Value::Null);", "let params = params.unwrap_or(serde_json::Value::Null);\n                let name: &'static str = Box::leak(method.into_boxed_str());"), (NO, "Ok(match method.as_str() {", "Ok(match name {"), (NO, "Custom(Box::leak(method.into_boxed_str()), params)", "Custom(name, params)"))
m("forget-text", ["C16"], (M, "        Ok(Some(msg))", "        std::mem::forget(text);\n        Ok(Some(msg))"))
m("history", ["C16"], (TR, "                let mut buf_read = io::BufReader::new(stream);\n", "                let mut buf_read = io::BufReader::new(stream);\n                let mut history = Vec::new();\n"), (TR, "                    reader_sender.send(msg).map_err(disconnected)?;\n                    if is_exit", "                    history.push(format!(\"{:?}\", msg));\n                    reader_sender.send(msg).map_err(disconnected)?;\n                    if is_exit"))
m("history-writer", ["C16"], (TR, "            let mut stdout = stdout.lock();\n            writer_receiver\n                .into_iter()\n                .try_for_each(|it| it.write(&mut stdout))?;", "            let mut stdout = stdout.lock();\n            let mut sent = Vec::new();\n            writer_receiver.into_iter().try_for_each(|it| {\n                sent.push(it.clone());\n                it.write(&mut stdout)\n            })?;"))
m("static-log", ["C16"], (M, "fn invalid_data(error", "static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n\nfn invalid_data(error"), (M, "        let msg = serde_json::from_str(&text)?;", "        let msg = serde_json::from_str(&text)?;\n        SEEN.lock().unwrap().push(text);"))
m("static-map", ["C16"], (RQ, "                Ok(match method.as_str() {", "                thread_local! { static SEEN: std::cell::RefCell<std::collections::HashSet<String>> = Default::default(); }\n                SEEN.with(|s| s.borrow_mut().insert(method.clone()));\n                Ok(match method.as_str() {"))
m("init-dropped", ["C16"], (L, "        loop {\n            match self.receiver.recv() {\n                Ok(Message::Request(Request::Init", "        let mut dropped = Vec::new();\n        loop {\n            match self.receiver.recv() {\n                Ok(Message::Request(Request::Init"), (L, 'tracing::warn!("not initialized, dropping {:?}", notification);', "dropped.push(notification);"))
m("leak-tag", ["C16"], (T + "bt_tag.rs", "Self::Custom(tag) => tag,", "Self::Custom(tag) => Box::leak(tag.clone().into_boxed_str()),"))
m("leak-tag-decoder", ["C16"], (T + "bt_tag.rs", "_ => Self::Custom(tag),", "_ => Self::Custom(tag.clone().leak().to_string()),"))
m("leak-thread-handle", ["C16"], (M, "    buf.clear();\n    inp.take", "    let mut buf = std::mem::ManuallyDrop::new(buf);\n    buf.clear();\n    inp.take"), (M, "String::from_utf8(buf)", "String::from_utf8(buf.to_vec())"))
m("arc-raw", ["C16"], (TR, "                let is_exit = match &msg {", "                let _keep = std::sync::Arc::into_raw(std::sync::Arc::new(msg.clone()));\n                let is_exit = match &msg {"))
# C16 refactorings
m("ref-string-leak", [], (RQ, "Box::leak(method.into_boxed_str())", "method.leak()"))
m("ref-leak-helper", [], (RQ, "Box::leak(method.into_boxed_str())", "intern(method)"), (RQ, "impl<'de> Deserialize<'de> for Request {", "fn intern(s: String) -> &'static str {\n    Box::leak(s.into_boxed_str())\n}\n\nimpl<'de> Deserialize<'de> for Request {"))
m("ref-headers-vec", [], (M, "    let mut buf = String::new();\n\n    loop {", "    let mut buf = String::new();\n    let mut headers: Vec<String> = Vec::new();\n\n    loop {"), (M, "        if header_name == ", "        headers.push(header_name.to_string());\n        if header_name == "))
m("ref-reused-buffer", [], (TR, "                let mut buf_read = io::BufReader::new(stream);\n", "                let mut buf_read = io::BufReader::new(stream);\n                let mut last: Vec<String> = Vec::new();\n"), (TR, "                    reader_sender.send(msg).map_err(disconnected)?;\n                    if is_exit", "                    last.clear();\n                    last.push(format!(\"{:?}\", msg));\n                    reader_sender.send(msg).map_err(disconnected)?;\n                    if is_exit"))
m("ref-local-vec", [], (L, "            match self.receiver.recv() {\n                Ok(Message::Request(Request::Init", "            let mut names = Vec::new();\n            names.push(1);\n            match self.receiver.recv() {\n                Ok(Message::Request(Request::Init"))
m("ref-static-const", [], (M, "fn invalid_data(error", "static NAMES: [&str; 1] = [\"Content-Length\"];\n\nfn invalid_data(error"), (M, 'header_name == "Content-Length"', 'NAMES[0] == header_name'))
m("ref-total-len", [], (M, "    let mut size = None;\n", "    let mut size = None;\n    let mut total = 0usize;\n"), (M, "        let buf = &buf[..buf.len() - 2];\n", "        total += buf.len();\n        tracing::trace!(\"{}\", total);\n        let buf = &buf[..buf.len() - 2];\n"))
m("ref-chars-count", [], (M, "        if buf.is_empty() {", "        tracing::trace!(\"{}\", buf.chars().count() + 1);\n        if buf.is_empty() {"))
m("ref-exact-loop", [], (M, "    inp.take(size as u64).read_to_end(&mut buf)?;\n    if buf.len() < size {", "    let mut body = inp.take(size as u64);\n    body.read_to_end(&mut buf)?;\n    let got = buf.len();\n    if got != size {"))
m("ref-parse-match", [], (M, "size = Some(header_value.parse::<usize>().map_err(invalid_data)?);", "size = match header_value.parse::<usize>() {\n                Ok(n) => Some(n),\n                Err(e) => return Err(invalid_data(e)),\n            };"))
