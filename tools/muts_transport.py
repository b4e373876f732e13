M = "bsp-server/src/message.rs"
T = "bsp-server/src/transporter.rs"
ALL = ["C01", "C02", "C10", "C11", "C12", "C13", "C14"]
W = """        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
        w.flush()?;
        Ok(())"""
SOCKW = """                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())"""
STDR = """            while let Some(msg) = Message::read(&mut stdin)? {
                let is_exit = match &msg {
                    Message::Notification(Notification::Exit) => true,
                    _ => false,
                };

                reader_sender.send(msg).map_err(disconnected)?;

                if is_exit {
                    break;
                }
            }
            Ok(())"""
SOCKR = """                while let Some(msg) = Message::read(&mut buf_read)? {
                    let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }
                }
                Ok(())"""
HDR = """        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts
            .next()
            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
        if header_name == "Content-Length" {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
"""
BODY = """    buf.clear();
    inp.take(size as u64).read_to_end(&mut buf)?;
    if buf.len() < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
"""
LOOP = """        buf.clear();
        if inp.read_line(&mut buf)? == 0 {
            return Ok(None);
        }
        if !buf.ends_with("\\r\\n") {
            return Err(invalid_data!("malformed header: {:?}", buf));
        }
        let buf = &buf[..buf.len() - 2];
        if buf.is_empty() {
            break;
        }
"""
MUTS = [
    ("noop", [], [(M, W, W)], ALL),
    # --- bugs
    ("chars-len", ["C01"], [(M, "msg.len())?;", "msg.chars().count())?;")], ALL),
    ("len+1", ["C01"], [(M, "msg.len())?;", "msg.len() + 1)?;")], ALL),
    ("no-flush", ["C01", "C11"], [(M, "        w.flush()?;\n", "")], ALL),
    ("flush-ignored", ["C01", "C11"], [(M, "        w.flush()?;\n", "        let _ = w.flush();\n")], ALL),
    ("lf-only", ["C01"], [(M, '{}\\r\\n\\r\\n', '{}\\n\\n')], ALL),
    ("write-not-all", ["C01"], [(M, "w.write_all(msg.as_bytes())?;", "w.write(msg.as_bytes())?;")], ALL),
    ("trailing-newline", ["C01"], [(M, "w.write_all(msg.as_bytes())?;", "w.write_all(msg.as_bytes())?; w.write_all(b\"\\n\")?;")], ALL),
    ("jsonrpc-1.0", ["C01"], [(M, 'jsonrpc: "2.0",', 'jsonrpc: "1.0",')], ALL),
    ("jsonrpc-rename", ["C01"], [(M, "    jsonrpc: &'static str,", "    #[serde(rename = \"jsonRpc\")]\n    jsonrpc: &'static str,")], ALL),
    ("no-flatten", ["C01"], [(M, "    #[serde(flatten)]\n", "")], ALL),
    ("pretty-after-len", ["C01"], [(M, "w.write_all(msg.as_bytes())?;", "w.write_all(msg.trim_end().as_bytes())?;")], ALL),
    ("writer-ignores-error", ["C11"], [(T, SOCKW, "                writer_receiver.into_iter().for_each(|it| { let _ = it.write(&mut stream); });\n                Ok(())")], ALL),
    ("writer-stops-on-response", ["C11"], [(T, SOCKW, "                for it in writer_receiver { let stop = matches!(&it, Message::Notification(Notification::Exit)); it.write(&mut stream)?; if stop { break; } }\n                Ok(())")], ALL),
    ("writer-skips", ["C11", "C01"], [(T, SOCKW, "                for it in writer_receiver { if let Message::Response(r) = &it { if r.error.is_some() && r.result.is_some() { continue; } } it.write(&mut stream)?; }\n                Ok(())")], ALL),
    ("writer-timeout", ["C11"], [(T, SOCKW, "                while let Ok(it) = writer_receiver.recv_timeout(std::time::Duration::from_secs(60)) { it.write(&mut stream)?; }\n                Ok(())")], ALL),
    ("reader-keeps-after-exit", ["C10"], [(T, "                    if is_exit {\n                        break;\n                    }\n                }\n                Ok", "                    if is_exit {\n                    }\n                }\n                Ok")], ALL),
    ("reader-stop-before-send", ["C10"], [(T, STDR, STDR.replace("reader_sender.send(msg).map_err(disconnected)?;", "").replace("break;", "break;\n } else {\nreader_sender.send(msg).map_err(disconnected)?;"))], ALL),
    ("reader-try-send", ["C10"], [(T, "reader_sender.send(msg).map_err(disconnected)?;", "let _ = reader_sender.try_send(msg);")], ALL),
    ("reader-ignore-send", ["C10"], [(T, "reader_sender.send(msg).map_err(disconnected)?;", "let _ = reader_sender.send(msg);")], ALL),
    ("reader-exit-initialized", ["C10"], [(T, "Message::Notification(Notification::Exit) => true,", "Message::Notification(Notification::Exit | Notification::Initialized) => true,")], ALL),
    ("reader-skip-bad-json", ["C02"], [(T, SOCKR, SOCKR.replace("while let Some(msg) = Message::read(&mut buf_read)? {", "loop { let msg = match Message::read(&mut buf_read) { Ok(Some(m)) => m, Ok(None) => break, Err(_) => continue };"))], ALL),
    ("reader-new-buf", ["C02"], [(T, SOCKR, SOCKR.replace("Message::read(&mut buf_read)?", "Message::read(&mut io::BufReader::new(&stream))?")), (T, "                let mut buf_read = io::BufReader::new(stream);\n", "")], ALL),
    ("hdr-no-clear", ["C02"], [(M, "        buf.clear();\n        if inp", "        if inp")], ALL),
    ("hdr-case", ["C02"], [(M, 'header_name == "Content-Length"', 'header_name == "Content-length"')], ALL),
    ("hdr-parse-default", ["C02"], [(M, "header_value.parse::<usize>().map_err(invalid_data)?", "header_value.parse::<usize>().unwrap_or(0)")], ALL),
    ("hdr-u16", ["C02"], [(M, "header_value.parse::<usize>().map_err(invalid_data)?", "header_value.parse::<u16>().map_err(invalid_data)? as usize")], ALL),
    ("hdr-first-wins", ["C02"], [(M, 'if header_name == "Content-Length" {', 'if header_name == "Content-Length" && size.is_none() {')], ALL),
    ("hdr-colon", ["C02"], [(M, 'splitn(2, ": ")', 'splitn(2, ":")')], ALL),
    ("hdr-ignore-malformed", ["C02"], [(M, HDR, 'let mut parts = buf.splitn(2, ": ");\n let header_name = parts.next().unwrap();\n let header_value = match parts.next() { Some(v) => v, None => continue };\n if header_name == "Content-Length" { size = Some(header_value.parse::<usize>().map_err(invalid_data)?); }\n')], ALL),
    ("hdr-lf-ok", ["C02"], [(M, '!buf.ends_with("\\r\\n")', '!buf.ends_with("\\n")')], ALL),
    ("size-default", ["C02"], [(M, 'size.ok_or_else(|| invalid_data!("no Content-Length"))?', 'size.unwrap_or(0)')], ALL),
    ("body-short-ok", ["C02"], [(M, "    if buf.len() < size {\n        return Err(io::ErrorKind::UnexpectedEof.into());\n    }\n", "")], ALL),
    ("body-short-none", ["C02"], [(M, "return Err(io::ErrorKind::UnexpectedEof.into());", "return Ok(None);")], ALL),
    ("body-no-clear", ["C02"], [(M, "    buf.clear();\n    inp.take", "    inp.take")], ALL),
    ("body-lossy", ["C02"], [(M, "Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))", "Ok(Some(String::from_utf8_lossy(&buf).into_owned()))")], ALL),
    ("body-size+1", ["C02"], [(M, "inp.take(size as u64)", "inp.take(size as u64 + 1)")], ALL),
    ("body-u32", ["C02"], [(M, "inp.take(size as u64)", "inp.take(size as u32 as u64)")], ALL),
    ("read-eof-loop", ["C02", "C10"], [(M, "            return Ok(None);\n        }\n        if !buf", "            continue;\n        }\n        if !buf")], ALL),
    ("json-error-none", ["C02"], [(M, "let msg = serde_json::from_str(&text)?;", "let msg = match serde_json::from_str(&text) { Ok(m) => m, Err(_) => return Ok(None) };")], ALL),
    ("stdout-stdin-swap", ["C12"], [(T, "let threads = IoThreads { reader, writer };", "let threads = IoThreads { reader: writer, writer: reader };")], ALL),
    ("extra-sender", ["C12"], [(T, "            let writer = thread::spawn(move || {\n                writer_receiver", "            let keep = writer_sender.clone();\n            let writer = thread::spawn(move || {\n                let _k = keep;\n                writer_receiver")], ALL),
    # --- refactorings
    ("r-one-buffer", [], [(M, W, '        let mut frame = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());\n        frame.push_str(&msg);\n        w.write_all(frame.as_bytes())?;\n        w.flush()')], ALL),
    ("r-format-all", [], [(M, W, '        let len = msg.len();\n        write!(w, "Content-Length: {len}\\r\\n\\r\\n{msg}")?;\n        w.flush()')], ALL),
    ("r-three-writes", [], [(M, W, '        w.write_all(b"Content-Length: ")?;\n        w.write_all(msg.len().to_string().as_bytes())?;\n        w.write_all(b"\\r\\n\\r\\n")?;\n        w.write_all(msg.as_bytes())?;\n        w.flush()')], ALL),
    ("r-to-vec", [], [(M, W, '        let n = body.len();\n        let mut frame: Vec<u8> = Vec::with_capacity(n + 32);\n        frame.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", n).as_bytes());\n        frame.extend_from_slice(&body);\n        w.write_all(&frame)?;\n        w.flush()'), (M, "let msg = serde_json::to_string(&JsonRpc::from(self))?;", "let body = serde_json::to_vec(&JsonRpc::from(self))?;")], ALL),
    ("r-writer-helper", [], [(M, W, '        write_frame(w, &msg)'), (M, "fn invalid_data(", 'fn write_frame(w: &mut dyn io::Write, body: &str) -> io::Result<()> {\n    let header = format!("Content-Length: {}\\r\\n\\r\\n", body.len());\n    w.write_all(header.as_bytes())?;\n    w.write_all(body.as_bytes())?;\n    w.flush()\n}\n\nfn invalid_data(')], ALL),
    ("r-writer-for", [], [(T, SOCKW, "                for it in writer_receiver {\n                    it.write(&mut stream)?;\n                }\n                Ok(())")], ALL),
    ("r-writer-while", [], [(T, SOCKW, "                while let Ok(it) = writer_receiver.recv() {\n                    it.write(&mut stream)?;\n                }\n                Ok(())")], ALL),
    ("r-writer-match", [], [(T, SOCKW, "                for it in writer_receiver.iter() {\n                    if let Err(e) = it.write(&mut stream) { return Err(e); }\n                }\n                Ok(())")], ALL),
    ("r-writer-direct", [], [(T, SOCKW, "                writer_receiver.into_iter().try_for_each(|it| it.write(&mut stream))")], ALL),
    ("r-writer-bufw", [], [(T, SOCKW, "                let mut out = io::BufWriter::new(stream);\n                for it in writer_receiver {\n                    it.write(&mut out)?;\n                }\n                Ok(())"), (T, "let mut stream = stream.try_clone()?;", "let stream = stream.try_clone()?;")], ALL),
    ("r-fn-writer", [], [(T, "            let writer = thread::spawn(move || {\n                writer_receiver\n                    .into_iter()\n                    .try_for_each(|it| it.write(&mut stream))?;\n                Ok(())\n            });", "            let writer = thread::spawn(move || pump(writer_receiver, &mut stream));"),
                         (T, "/// The error a reader", "fn pump(rx: Receiver<Message>, out: &mut dyn io::Write) -> io::Result<()> {\n    rx.into_iter().try_for_each(|m| m.write(out))\n}\n\n/// The error a reader")], ALL),
    ("r-reader-loop", [], [(T, SOCKR, "                loop {\n                    match Message::read(&mut buf_read)? {\n                        None => return Ok(()),\n                        Some(msg) => {\n                            let exit = matches!(msg, Message::Notification(Notification::Exit));\n                            if let Err(e) = reader_sender.send(msg) { return Err(disconnected(e)); }\n                            if exit { return Ok(()); }\n                        }\n                    }\n                }")], ALL),
    ("r-reader-helper", [], [(T, SOCKR, "                read_loop(&mut buf_read, reader_sender)"), (T, STDR, "            read_loop(&mut stdin, reader_sender)"),
                             (T, "/// The error a reader", "fn read_loop(r: &mut dyn io::BufRead, tx: Sender<Message>) -> io::Result<()> {\n    while let Some(msg) = Message::read(r)? {\n        let exit = is_exit(&msg);\n        tx.send(msg).map_err(disconnected)?;\n        if exit {\n            break;\n        }\n    }\n    Ok(())\n}\n\nfn is_exit(m: &Message) -> bool {\n    if let Message::Notification(n) = m { matches!(n, Notification::Exit) } else { false }\n}\n\n/// The error a reader")], ALL),
    ("r-exit-by-method", [], [(T, "let is_exit = matches!(&msg, Message::Notification(Notification::Exit));", "let is_exit = match &msg { Message::Notification(n) => n.method() == \"build/exit\", _ => false };")], ["C02"]),
    ("r-split-once", [], [(M, HDR, '        let (header_name, header_value) = buf\n            .split_once(": ")\n            .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;\n        if header_name == "Content-Length" {\n            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);\n        }\n')], ALL),
    ("r-hdr-match", [], [(M, HDR, '        match buf.split_once(": ") {\n            None => return Err(invalid_data!("malformed header: {:?}", buf)),\n            Some(("Content-Length", v)) => { let n: usize = v.parse().map_err(invalid_data)?; size = Some(n); }\n            Some(_) => {}\n        }\n')], ALL),
    ("r-strip-suffix", [], [(M, LOOP, '        buf.clear();\n        let n = inp.read_line(&mut buf)?;\n        if n == 0 {\n            return Ok(None);\n        }\n        let buf = match buf.strip_suffix("\\r\\n") { Some(b) => b, None => return Err(invalid_data!("malformed header: {:?}", buf)) };\n        if buf == "" {\n            break;\n        }\n')], ALL),
    ("r-hdr-helper", [], [(M, HDR, '        if let Some(n) = content_length(buf)? {\n            size = Some(n);\n        }\n'), (M, "fn read_msg_text", 'fn content_length(line: &str) -> io::Result<Option<usize>> {\n    let mut parts = line.splitn(2, ": ");\n    let name = parts.next().unwrap();\n    let value = parts.next().ok_or_else(|| invalid_data!("malformed header: {:?}", line))?;\n    if name != "Content-Length" {\n        return Ok(None);\n    }\n    Ok(Some(value.parse::<usize>().map_err(invalid_data)?))\n}\n\nfn read_msg_text')], ALL),
    ("r-body-exact", [], [(M, BODY, "    buf.resize(size, 0);\n    inp.read_exact(&mut buf)?;\n")], ALL),
    ("r-body-vec", [], [(M, BODY, "    let mut body = vec![0u8; size];\n    inp.read_exact(&mut body)?;\n    let buf = body;\n"), (M, "    let mut buf = buf.into_bytes();\n", "")], ALL),
    ("r-body-count", [], [(M, BODY, "    buf.clear();\n    let got = inp.take(size as u64).read_to_end(&mut buf)?;\n    if got != size {\n        return Err(io::ErrorKind::UnexpectedEof.into());\n    }\n")], ALL),
    ("r-body-fresh", [], [(M, BODY, "    let mut body = Vec::new();\n    inp.take(size as u64).read_to_end(&mut body)?;\n    if body.len() != size {\n        return Err(io::ErrorKind::UnexpectedEof.into());\n    }\n    let buf = body;\n"), (M, "    let mut buf = buf.into_bytes();\n", "")], ALL),
    ("r-from-slice", [], [(M, "    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))", "    Ok(Some(buf))"), (M, "io::Result<Option<String>>", "io::Result<Option<Vec<u8>>>"), (M, "serde_json::from_str(&text)?", "serde_json::from_slice(&text)?")], ALL),
    ("r-buf-inside", [], [(M, "        buf.clear();\n        if inp.read_line(&mut buf)? == 0", "        let mut buf = String::new();\n        if inp.read_line(&mut buf)? == 0"), (M, "    let mut buf = String::new();\n\n    loop", "    loop"), (M, "    let mut buf = buf.into_bytes();\n", "    let mut buf: Vec<u8> = Vec::new();\n")], ALL),
    ("r-transpose", [], [(M, "        let text = match read_msg_text(r)? {\n            Some(text) => text,\n            None => return Ok(None),\n        };\n        let msg = serde_json::from_str(&text)?;", "        let text = if let Some(text) = read_msg_text(r)? { text } else { return Ok(None) };\n        let msg: Message = serde_json::from_str(&text).map_err(io::Error::from)?;")], ALL),
    ("r-thread-builder", [], [(T, "let writer = thread::spawn(move || {\n                writer_receiver", "let writer = thread::Builder::new().name(\"w\".into()).spawn(move || {\n                writer_receiver"), (T, ".try_for_each(|it| it.write(&mut stream))?;\n                Ok(())\n            });", ".try_for_each(|it| it.write(&mut stream))?;\n                Ok(())\n            })?;")], ALL),
]
