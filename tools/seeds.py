"""The planted changes: each written from the text of a property and the code, see seed.py."""
PRE = r'''#![allow(dead_code, unused_imports, unused_macros)]
use bsp_server::*;
use bsp_types::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::{Duration, Instant};

macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { eprintln!($($t)*); std::process::exit(1); } } }

/// A connection of the library and the raw stream of its peer.
fn pair() -> (Connection, IoThreads, TcpStream) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let t = std::thread::spawn(move || l.accept().unwrap().0);
    let (c, io) = Connection::connect(a).unwrap();
    let peer = t.join().unwrap();
    peer.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    (c, io, peer)
}
fn frame(s: &str) -> Vec<u8> { format!("Content-Length: {}\r\n\r\n{}", s.len(), s).into_bytes() }
fn recv(c: &Connection) -> Option<Message> { c.receiver.recv_timeout(Duration::from_secs(5)).ok() }
/// One frame as (declared length, JSON), read strictly.
fn read_frame(r: &mut impl BufRead) -> Result<Value, String> {
    let mut h = String::new();
    r.read_line(&mut h).map_err(|e| e.to_string())?;
    let n: usize = h.strip_prefix("Content-Length: ").and_then(|x| x.strip_suffix("\r\n")).ok_or(format!("header {h:?}"))?
        .parse().map_err(|_| format!("header {h:?}"))?;
    let mut b = [0; 2];
    r.read_exact(&mut b).map_err(|e| e.to_string())?;
    if &b != b"\r\n" { return Err(format!("no blank line: {b:?}")); }
    let mut b = vec![0; n];
    r.read_exact(&mut b).map_err(|e| e.to_string())?;
    serde_json::from_slice(&b).map_err(|e| e.to_string())
}
fn js<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap() }
fn init_params() -> Value {
    json!({"displayName":"c","version":"1","bspVersion":"2","rootUri":"file:///tmp/x","capabilities":{"languageIds":[]}})
}
fn init_req(id: i32) -> Message {
    serde_json::from_value(json!({"jsonrpc":"2.0","id":id,"method":"build/initialize","params":init_params()})).unwrap()
}
fn target(s: &str) -> BuildTargetIdentifier { serde_json::from_value(json!({"uri": s})).unwrap() }
'''
SEEDS = []
def S(id, property, edits, needs, breaks, main, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                      demo=PRE + "\nfn main() {\n" + main.strip("\n") + "\n}\n" + kw.pop("extra", ""), **kw))
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'; LIB='bsp-server/src/lib.rs'
REQ='bsp-server/src/request.rs'; NOT='bsp-server/src/notification.rs'; RSP='bsp-server/src/response.rs'
IDF='bsp-server/src/request/id.rs'; IO='bsp-server/src/io_thread.rs'; T='bsp-types/src/'

S('c01-length-in-chars', 'C01',
  [(MSG, 'Content-Length: {}\\r\\n\\r\\n", msg.len())?', 'Content-Length: {}\\r\\n\\r\\n", msg.chars().count())?')],
  'an outgoing message containing a character that is not ASCII',
  'The declared length counts characters, so the frame is cut short for the peer and the next one is misread.',
  r'''
    let (c, _io, peer) = pair();
    let mut r = BufReader::new(peer);
    for text in ["plain", "größe ✓ — 構築", "plain again"] {
        c.send(Response::ok(1.into(), text)).unwrap();
        match read_frame(&mut r) {
            Ok(v) => ensure!(v["result"] == text && v["jsonrpc"] == "2.0", "wrong frame {v}"),
            Err(e) => ensure!(false, "broken frame: {e}"),
        }
    }''')

S('c01-notifications-not-flushed', 'C01',
  [(MSG, '        let msg = serde_json::to_string(&JsonRpc::from(self))?;', '        let wait_for_more = matches!(&self, Message::Notification(_));\n        let msg = serde_json::to_string(&JsonRpc::from(self))?;'),
   (MSG, '        w.flush()?;\n', '        // notifications need no answer: let them leave with the next message\n        if !wait_for_more {\n            w.flush()?;\n        }\n')],
  'stdio transport (buffered output) and a notification as the last message for a while',
  'Notifications stay in the standard output buffer until some other message is sent.',
  r'''
    if std::env::args().nth(1).as_deref() == Some("child") {
        let (c, _io) = Connection::stdio();
        c.send(TaskProgress::default()).unwrap();
        let _ = c.receiver.recv_timeout(Duration::from_secs(20));
        std::process::exit(0);
    }
    use std::process::*;
    let mut ch = Command::new(std::env::current_exe().unwrap()).arg("child").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    let out = ch.stdout.take().unwrap();
    let (s, r) = crossbeam_channel::unbounded();
    std::thread::spawn(move || { let _ = s.send(read_frame(&mut BufReader::new(out))); });
    let got = r.recv_timeout(Duration::from_secs(8));
    let _ = ch.kill(); let _ = ch.wait();
    match got {
        Ok(Ok(v)) => ensure!(v["method"] == "build/taskProgress", "{v}"),
        x => ensure!(false, "the notification never left the process: {x:?}"),
    }''')

S('c02-first-length-wins', 'C02',
  [(MSG, '        if header_name == "Content-Length" {', '        if header_name == "Content-Length" && size.is_none() {')],
  'a header block that repeats Content-Length with another value',
  'The first Content-Length is used instead of the last, so the body is cut at the wrong place.',
  r'''
    let (c, _io, mut peer) = pair();
    let body = r#"{"jsonrpc":"2.0","method":"a/b","params":1}"#;
    let text = format!("Content-Length: 5\r\nContent-Type: x\r\nContent-Length: {}\r\n\r\n{}", body.len(), body);
    peer.write_all(text.as_bytes()).unwrap();
    match recv(&c) {
        Some(Message::Notification(n)) => ensure!(n.method() == "a/b", "{n:?}"),
        x => ensure!(false, "not read: {x:?}"),
    }''')

S('c02-blank-line-trimmed', 'C02',
  [(MSG, '        if buf.is_empty() {\n            break;', '        if buf.trim().is_empty() {\n            break;')],
  'a header line consisting of white space only',
  'A malformed header line of blanks is taken for the end of the header instead of being refused.',
  r'''
    let (c, io, mut peer) = pair();
    let body = r#"{"jsonrpc":"2.0","method":"a/b","params":1}"#;
    peer.write_all(format!("Content-Length: {}\r\n \t\r\n", body.len()).as_bytes()).unwrap();
    peer.write_all(body.as_bytes()).unwrap();
    let got = recv(&c);
    ensure!(got.is_none(), "read {got:?} out of a malformed header");
    ensure!(io.reader.join().unwrap().is_err(), "no error");''')

S('c02-lossy-utf8', 'C02',
  [(MSG, '    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))', '    Ok(Some(match String::from_utf8(buf) {\n        Ok(text) => text,\n        Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),\n    }))')],
  'a body that is not valid UTF-8 inside a JSON string',
  'Invalid UTF-8 is replaced silently: the message delivered is not the one received.',
  r'''
    let (c, io, mut peer) = pair();
    let mut body = br#"{"jsonrpc":"2.0","method":"a/b","params":"x"#.to_vec();
    body.extend([0xff, 0xfe]);
    body.extend(br#""}"#);
    peer.write_all(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes()).unwrap();
    peer.write_all(&body).unwrap();
    let got = recv(&c);
    ensure!(got.is_none(), "read {got:?}");
    ensure!(io.reader.join().unwrap().is_err(), "no error");''')

S('c03-trailing-slash-recognised', 'C03',
  [(REQ, '                Ok(match method.as_str() {', '                Ok(match method.trim_end_matches(\'/\') {')],
  'a request whose method is a protocol name with a slash appended',
  'A method that is none of the protocol\'s is read as that protocol request instead of a custom one.',
  r'''
    let m: Request = serde_json::from_value(json!({"id":1,"method":"build/shutdown/","params":{"a":1}})).unwrap();
    ensure!(m.method() == "build/shutdown/" && matches!(m, Request::Custom(..)), "read as {m:?}");
    let m: Request = serde_json::from_value(json!({"id":1,"method":"build/shutdown"})).unwrap();
    ensure!(matches!(m, Request::Shutdown(_)), "{m:?}");''')

S('c04-null-result-dropped', 'C04',
  [(RSP, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub result: Option<serde_json::Value>,', '    #[serde(skip_serializing_if = "is_unset")]\n    pub result: Option<serde_json::Value>,'),
   (RSP, 'impl Response {\n    pub fn ok', '/// Nothing worth sending.\nfn is_unset(value: &Option<serde_json::Value>) -> bool {\n    value.as_ref().map_or(true, serde_json::Value::is_null)\n}\n\nimpl Response {\n    pub fn ok')],
  'a success response whose result is null (the answer to shutdown)',
  'A null result is left out, so the response has neither result nor error on the wire.',
  r'''
    let v = js(&Message::from(Response::ok(4.into(), ())));
    ensure!(v == json!({"id":4,"result":null}), "{v}");
    let v = js(&Response::ok("x".to_string().into(), 7));
    ensure!(v == json!({"id":"x","result":7}), "{v}");''')

S('c05-repeated-params-last-wins', 'C05',
  [(NOT, '                            if params.is_some() {', '                            if params.is_some() && method.is_none() {')],
  'a notification whose params member is repeated, both after the method',
  'A repeated member is accepted and the last one silently wins, depending on the order of members.',
  r'''
    for text in [r#"{"method":"a","params":1,"params":2}"#, r#"{"params":1,"params":2,"method":"a"}"#, r#"{"params":1,"method":"a","params":2}"#] {
        let r = serde_json::from_str::<Notification>(text);
        ensure!(r.is_err(), "{text} read as {r:?}");
    }
    ensure!(serde_json::from_str::<Notification>(r#"{"params":1,"method":"a"}"#).is_ok(), "order");''')

S('c06-request-id-alias', 'C06',
  [(REQ, '                            "id" => Ok(Field::ID),', '                            "id" | "originId" => Ok(Field::ID),')],
  'a notification carrying an unknown top-level member named originId',
  'A notification with an unrelated member is taken for a request.',
  r'''
    let m: Message = serde_json::from_value(json!({"jsonrpc":"2.0","method":"build/initialized","originId":"7"})).unwrap();
    ensure!(matches!(m, Message::Notification(Notification::Initialized)), "{m:?}");
    let m: Message = serde_json::from_value(json!({"jsonrpc":"2.0","method":"build/shutdown","id":7,"originId":"8"})).unwrap();
    ensure!(matches!(&m, Message::Request(r) if *r.id() == 7.into()), "{m:?}");''')

S('c07-early-shutdown-answered-ok', 'C07',
  [(LIB, '''                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())''',
   '''                    let resp = match &req {
                        Request::Shutdown(id) => Response::ok(id.clone(), ()),
                        req => Response::server_not_initialized(req.id().clone(), msg),
                    };
                    self.sender
                        .send(resp.into())''')],
  'a shutdown request before initialize',
  'That request is answered with success instead of ServerNotInitialized.',
  r'''
    let (server, client) = Connection::memory();
    client.send(Request::WorkspaceReload(1.into())).unwrap();
    client.send(Request::Shutdown(2.into())).unwrap();
    client.send(init_req(3)).unwrap();
    client.send(Notification::Initialized).unwrap();
    ensure!(server.initialize(|_| json!({"r":1})).is_ok(), "handshake failed");
    let got: Vec<Value> = client.receiver.try_iter().map(|m| js(&m)).collect();
    ensure!(got.len() == 3 && got[0]["error"]["code"] == -32002 && got[1]["error"]["code"] == -32002 && got[1]["id"] == 2 && got[2] == json!({"id":3,"result":{"r":1}}), "{got:?}");''')

S('c07-any-notification-completes', 'C07',
  [(LIB, '            Ok(Message::Notification(Notification::Initialized)) => (),', '            Ok(Message::Notification(notification)) => {\n                tracing::info!("initialized by {:?}", notification)\n            }')],
  'the peer sends another notification (exit) after the initialize response',
  'The handshake succeeds although the peer never sent initialized.',
  r'''
    for n in [Notification::Exit, Notification::Custom("$/x", json!(1))] {
        let (server, client) = Connection::memory();
        client.send(init_req(3)).unwrap();
        client.send(n.clone()).unwrap();
        ensure!(server.initialize(|_| 1).is_err(), "completed by {n:?}");
    }
    let (server, client) = Connection::memory();
    client.send(init_req(3)).unwrap();
    client.send(Notification::Initialized).unwrap();
    ensure!(server.initialize(|_| 1).is_ok(), "handshake failed");''')

S('c08-shutdown-answer-not-waited-for', 'C08',
  [(LIB, '            let _ = self.sender.send(resp.into());', '            let _ = self.sender.try_send(resp.into());')],
  'the writer being busy (its rendezvous channel not ready) at the moment of shutdown',
  'The response to shutdown is silently dropped when the writer is not waiting at that very moment.',
  r'''
    let (s1, r1) = crossbeam_channel::bounded(0);
    let (s2, r2) = crossbeam_channel::unbounded();
    let server = Connection { sender: s1, receiver: r2 };
    s2.send(Notification::Exit.into()).unwrap();
    let writer = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(400));
        r1.recv_timeout(Duration::from_secs(2)).ok().map(|m: Message| js(&m))
    });
    let r = server.handle_shutdown(&Request::Shutdown(9.into()));
    let got = writer.join().unwrap();
    ensure!(got == Some(json!({"id":9,"result":null})), "answer: {got:?}");
    ensure!(matches!(r, Ok(true)), "{r:?}");''')

S('c08-messages-skipped-until-exit', 'C08',
  [(LIB, '            match &self.receiver.recv_timeout(Duration::from_secs(30)) {\n                Ok(Message::Notification(Notification::Exit)) => (),', '            // the client may still be reporting on what it was doing\n            let mut next = self.receiver.recv_timeout(Duration::from_secs(30));\n            while let Ok(Message::Notification(Notification::Custom(..))) = next {\n                next = self.receiver.recv_timeout(Duration::from_secs(30));\n            }\n            match &next {\n                Ok(Message::Notification(Notification::Exit)) => (),')],
  'a custom notification between shutdown and exit',
  'Shutdown completes although the next message was not exit, and can wait 30 seconds again and again.',
  r'''
    let (server, client) = Connection::memory();
    client.send(Notification::Custom("$/late", json!(1))).unwrap();
    client.send(Notification::Exit).unwrap();
    let r = server.handle_shutdown(&Request::Shutdown(9.into()));
    ensure!(r.is_err(), "{r:?}");
    let (server, client) = Connection::memory();
    client.send(Notification::Exit).unwrap();
    ensure!(matches!(server.handle_shutdown(&Request::Shutdown(9.into())), Ok(true)), "exit");''')

S('c09-cancel-code', 'C09',
  [(RSP, 'ErrorCode::RequestCanceled as i32 as i32, message)', 'ErrorCode::ServerCancelled as i32 as i32, message)')],
  'a response built with request_canceled',
  'Request cancellation is reported with the code of a cancellation by the server.',
  r'''
    for (r, code) in [(Response::request_canceled(1.into(), "m".into()), -32800), (Response::server_canceled(1.into(), "m".into()), -32802),
                      (Response::content_modified(1.into(), "m".into()), -32801), (Response::internal_error(1.into(), "m".into()), -32603)] {
        let v = js(&r);
        ensure!(v == json!({"id":1,"error":{"code":code,"message":"m"}}), "{v}");
    }''')

S('c09-null-success-becomes-empty', 'C09',
  [(RSP, '            result: Some(serde_json::to_value(result).unwrap()),', '            result: serde_json::from_value(serde_json::to_value(result).unwrap()).unwrap(),')],
  'a success response built from a value whose JSON is null',
  'Reading the value back as an option turns null into no result at all.',
  r'''
    let r = Response::ok(1.into(), Option::<i32>::None);
    ensure!(r.result == Some(Value::Null) && r.error.is_none(), "{r:?}");
    let r = Response::ok(1.into(), json!([1, null]));
    ensure!(r.result == Some(json!([1, null])), "{r:?}");''')

S('c10-custom-exit-ends-reader', 'C10',
  [(TR, 'let is_exit = matches!(&msg, Message::Notification(Notification::Exit));', 'let is_exit = matches!(&msg, Message::Notification(n) if n.method().ends_with("exit"));')],
  'TCP transport and a custom notification whose method ends in exit, with more messages after it',
  'The reader ends early and every later message of the peer is lost.',
  r'''
    let (c, _io, mut peer) = pair();
    for m in ["task/onexit", "task/next"] {
        peer.write_all(&frame(&json!({"jsonrpc":"2.0","method":m,"params":1}).to_string())).unwrap();
    }
    for m in ["task/onexit", "task/next"] {
        match recv(&c) {
            Some(Message::Notification(n)) => ensure!(n.method() == m, "{n:?}"),
            x => ensure!(false, "{m} lost: {x:?}"),
        }
    }''')

S('c11-writer-stops-at-exit', 'C11',
  [(TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;''', '''                writer_receiver
                    .iter()
                    .take_while(|it| !matches!(it, Message::Notification(Notification::Exit)))
                    .try_for_each(|it| it.write(&mut stream))?;''')],
  'the TCP side that sends the exit notification (a client)',
  'The exit notification is taken from the application but never written.',
  r'''
    let (c, _io, peer) = pair();
    c.send(Request::Shutdown(1.into())).unwrap();
    c.send(Notification::Exit).unwrap();
    let mut r = BufReader::new(peer);
    let a = read_frame(&mut r);
    let b = read_frame(&mut r);
    ensure!(matches!(&a, Ok(v) if v["method"] == "build/shutdown"), "{a:?}");
    ensure!(matches!(&b, Ok(v) if v["method"] == "build/exit"), "{b:?}");''')

S('c11-write-timeout', 'C11',
  [(LIB, '        let (stream, _) = listener.accept()?;', '        let (stream, _peer) = listener.accept()?;\n        stream.set_write_timeout(Some(Duration::from_millis(500)))?;')],
  'listening side, and a peer that stops reading for more than half a second while a large message is written',
  'The write fails half way: a frame is cut short and no later message is written.',
  r'''
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    drop(l);
    let t = std::thread::spawn(move || Connection::listen(a).unwrap());
    let mut peer = None;
    for _ in 0..100 {
        match TcpStream::connect(a) { Ok(s) => { peer = Some(s); break } Err(_) => std::thread::sleep(Duration::from_millis(50)) }
    }
    let peer = peer.expect("no connection");
    peer.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let (c, _io) = t.join().unwrap();
    let big = "x".repeat(64 << 20);
    c.send(Response::ok(1.into(), big)).unwrap();
    std::thread::sleep(Duration::from_millis(2500));
    let mut r = BufReader::new(peer);
    let v = read_frame(&mut r);
    ensure!(matches!(&v, Ok(v) if v["id"] == 1), "cut short: {:?}", v.err());''')

S('c12-rendezvous-memory', 'C12',
  [(LIB, '        let ((s1, r1), (s2, r2)) = (unbounded(), unbounded());', '        let ((s1, r1), (s2, r2)) = (bounded(1024), unbounded());'),
   (LIB, 'use crossbeam_channel::{unbounded,', 'use crossbeam_channel::{bounded, unbounded,')],
  'more than 1024 messages sent by one side of the in-memory pair before the other takes any',
  'The in-memory pair blocks its sender.',
  r'''
    let (a, b) = Connection::memory();
    for (x, y, what) in [(&a, &b, "first"), (&b, &a, "second")] {
        for i in 0..5000 { ensure!(x.try_send(Response::ok(i.into(), i)).is_ok(), "{what} side blocks at {i}"); }
        let got = y.receiver.try_iter().count();
        ensure!(got == 5000, "{what}: {got}");
    }''')

S('c13-eof-forgiven', 'C13',
  [(IO, '            Ok(r) => r?,\n', '            // the peer hanging up is no failure of ours\n            Ok(r) => match r {\n                Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => (),\n                r => r?,\n            },\n')],
  'the peer closing the connection in the middle of a frame',
  'Joining reports success although the reader failed.',
  r'''
    let (c, io, mut peer) = pair();
    peer.write_all(b"Content-Length: 100\r\n\r\n{\"json").unwrap();
    drop(peer);
    while c.receiver.recv().is_ok() {}
    drop(c);
    let r = io.join();
    ensure!(r.is_err(), "{r:?}");''')

S('c14-handshake-failure-printed', 'C14',
  [(LIB, '''                    let msg = format!("expected initialize request, got error: {}", e);
                    tracing::error!("{}", msg);''', '''                    let msg = format!("expected initialize request, got error: {}", e);
                    println!("{}", msg);''')],
  'stdio transport, and the peer closing its end before initialize',
  'The failure text is printed on standard output, which carries the protocol.',
  r'''
    if std::env::args().nth(1).as_deref() == Some("child") {
        let (c, io) = Connection::stdio();
        let r = c.initialize(|_| 1);
        drop(c);
        let _ = io.join();
        std::process::exit(r.is_ok() as i32);
    }
    use std::process::*;
    let out = Command::new(std::env::current_exe().unwrap()).arg("child").stdin(Stdio::null()).output().unwrap();
    ensure!(out.stdout.is_empty(), "standard output: {:?}", String::from_utf8_lossy(&out.stdout));''')

S('c15-bare-newline', 'C15',
  [(MSG, '        if !buf.ends_with("\\r\\n") {', '        if !buf.ends_with(\'\\n\') {')],
  'a header line that is a bare line feed',
  'Cutting two bytes off a line of one byte panics the reader.',
  r'''
    let (_c, io, mut peer) = pair();
    peer.write_all(b"\n").unwrap();
    drop(peer);
    let r = io.reader.join();
    ensure!(matches!(r, Ok(Err(_))), "panicked: {}", r.is_err());''')

S('c15-log-preview', 'C15',
  [(MSG, '        let msg = serde_json::from_str(&text)?;', '        let preview = &text[..text.len().min(64)];\n        tracing::debug!("Reading {}", preview);\n        let msg = serde_json::from_str(&text)?;')],
  'a message with a multi-byte character across byte 64',
  'Slicing the text for a log line at a fixed byte panics inside a character.',
  r'''
    let (c, io, mut peer) = pair();
    for k in 0..4 {
        let body = format!(r#"{{"jsonrpc":"2.0","method":"a/b","params":"{}{}"}}"#, "x".repeat(k), "構".repeat(60));
        if peer.write_all(&frame(&body)).is_err() { break; }
        if recv(&c).is_none() { ensure!(false, "lost; panicked: {}", io.reader.join().is_err()); }
    }''')

S('c16-body-kept-alive', 'C16',
  [(MSG, '        let msg = serde_json::from_str(&text)?;', '        // one text, shared by everything decoded from it\n        let text: &\'static str = Box::leak(text.into_boxed_str());\n        let msg = serde_json::from_str(text)?;')],
  'a long-lived connection (growth with every message read)',
  'The text of every incoming message stays in memory for ever.',
  r'''
    fn rss() -> usize {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap();
        s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
    }
    let (c, _io, mut peer) = pair();
    let body = json!({"jsonrpc":"2.0","id":1,"result":"x".repeat(1 << 20)}).to_string();
    let f = frame(&body);
    let mut base = 0;
    for i in 0..220 {
        let f = f.clone();
        let t = { let mut p = peer.try_clone().unwrap(); std::thread::spawn(move || p.write_all(&f).unwrap()) };
        ensure!(recv(&c).is_some(), "lost");
        t.join().unwrap();
        if i == 20 { base = rss(); }
    }
    let _ = peer.flush();
    let grown = rss().saturating_sub(base);
    ensure!(grown < 60 << 20, "grown by {} MB over 200 messages of 1 MB", grown >> 20);''')

S('c17-base-directory-name', 'C17',
  [(T+'workspace_build_targets.rs', '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub base_directory: Option<String>,', '    #[serde(skip_serializing_if = "Option::is_none", rename = "baseDir")]\n    pub base_directory: Option<String>,')],
  'a build target with a base directory, seen by another implementation (a round trip hides it)',
  'The member is sent and expected under a name the protocol does not have.',
  r'''
    let text = json!({"id":{"uri":"a:b"},"baseDirectory":"file:///x","tags":["library"],"capabilities":{"canCompile":true,"canTest":false,"canRun":false,"canDebug":false},"languageIds":["rust"],"dependencies":[]});
    let t: BuildTarget = serde_json::from_value(text.clone()).unwrap();
    ensure!(t.base_directory.as_deref() == Some("file:///x"), "{t:?}");
    let v = js(&t);
    ensure!(v["baseDirectory"] == "file:///x", "{v}");''')

S('c18-false-capability-omitted', 'C18',
  [(T+'server_capabilities.rs', '    #[serde(skip_serializing_if = "Option::is_none")]\n    can_reload: Option<bool>,', '    #[serde(skip_serializing_if = "unsupported")]\n    can_reload: Option<bool>,'),
   (T+'server_capabilities.rs', 'impl ServerCapabilities {\n', '/// Nothing to announce.\nfn unsupported(flag: &Option<bool>) -> bool {\n    !flag.unwrap_or(false)\n}\n\nimpl ServerCapabilities {\n')],
  'a capability explicitly set to false',
  'A set member is left out of the message.',
  r'''
    let mut c = ServerCapabilities::default();
    ensure!(js(&c) == json!({}), "{}", js(&c));
    c.set_can_reload(Some(true));
    ensure!(js(&c) == json!({"canReload":true}), "{}", js(&c));
    c.set_can_reload(Some(false));
    ensure!(js(&c) == json!({"canReload":false}), "{}", js(&c));''')

S('c18-finish-status-omitted', 'C18',
  [(T+'task/finish.rs', '    /** Task completion status. */\n    pub status: TaskStatus,', '    /** Task completion status. */\n    #[serde(skip_serializing_if = "TaskStatus::is_ok")]\n    pub status: TaskStatus,')],
  'a task that finishes successfully',
  'The required status of a finished task is not sent when it is ok.',
  r'''
    let mut f = TaskFinish::new("t".into());
    let v = js(&f);
    ensure!(v["status"] == 1, "{v}");
    f.status = serde_json::from_value(json!(2)).unwrap();
    ensure!(js(&f)["status"] == 2, "{}", js(&f));''')

S('c19-unknown-severity-accepted', 'C19',
  [(T+'message_type.rs', '    Log = 4,', '    #[serde(other)]\n    Log = 4,')],
  'a message type outside 1 to 4',
  'Unknown numbers are read as log messages instead of being refused.',
  r'''
    for n in [0, 5, 100] {
        let r = serde_json::from_value::<MessageType>(json!(n));
        ensure!(r.is_err(), "{n} read as {r:?}");
    }
    for n in 1..5 { ensure!(js(&serde_json::from_value::<MessageType>(json!(n)).unwrap()) == json!(n), "{n}"); }''')

S('c19-custom-kind-folded', 'C19',
  [(T+'task/kind.rs', '            x => Self::Custom(x.to_owned()),', '            x => Self::Custom(x.to_lowercase()),')],
  'a custom task data kind with a capital letter',
  'The custom kind is not read and written back unchanged.',
  r'''
    for k in ["scala-test-Suite", "x", "compile-task"] {
        let v: TaskDataKind = serde_json::from_value(json!(k)).unwrap();
        ensure!(js(&v) == json!(k), "{k} came back as {}", js(&v));
    }''')

S('c20-setter-ignores-none', 'C20',
  [(T+'bt_run.rs', '    pub fn set_arguments(&mut self, arguments: Option<String>) {\n        self.arguments = arguments;', '    pub fn set_arguments(&mut self, arguments: Option<String>) {\n        self.arguments = arguments.or(self.arguments.take());')],
  'a member that is set first and cleared later',
  'Clearing the arguments has no effect.',
  r'''
    let mut r = BuildTargetRun::new_simple(target("a:b"));
    r.set_arguments(Some("x".into()));
    ensure!(r.arguments().map(|x| x.as_str()) == Some("x"), "{r:?}");
    r.set_arguments(None);
    ensure!(r.arguments().is_none(), "{r:?}");''')

S('c20-empty-by-capacity', 'C20',
  [(T+'bt_clean_cache.rs', '    pub fn is_empty(&self) -> bool {\n        self.targets.is_empty()', '    pub fn is_empty(&self) -> bool {\n        self.targets.capacity() == 0')],
  'a list of targets that held some and was emptied',
  'is_empty says no for an empty list that still has room reserved.',
  r'''
    let mut c: BuildTargetCleanCache = serde_json::from_value(json!({"targets":[{"uri":"a:b"}]})).unwrap();
    ensure!(!c.is_empty(), "one");
    c.targets_mut().clear();
    ensure!(c.is_empty(), "emptied");''')

S('c21-text-result-as-error', 'C21',
  [(RSP, 'impl From<(RequestId, String)> for Message {\n    fn from(v: (RequestId, String)) -> Message {\n        Message::Response(Response::ok(v.0, v.1))', 'impl From<(RequestId, String)> for Message {\n    fn from(v: (RequestId, String)) -> Message {\n        // an id with nothing but a text is how handlers report trouble\n        Message::Response(Response::internal_error(v.0, v.1))')],
  'a result that is a plain text',
  'The text becomes an error response instead of a success response.',
  r'''
    let v = js(&Message::from((RequestId::from(3), "done".to_string())));
    ensure!(v == json!({"id":3,"result":"done"}), "{v}");
    let v = js(&Message::from((RequestId::from(3), json!({"a":1}))));
    ensure!(v == json!({"id":3,"result":{"a":1}}), "{v}");''')

S('c22-targets-compile-by-default', 'C22',
  [(T+'bt_capabilities.rs', '#[derive(Debug, Default, Serialize, Deserialize)]', '#[derive(Debug, Serialize, Deserialize)]'),
   (T+'bt_capabilities.rs', 'impl BuildTargetCapabilities {\n', 'impl Default for BuildTargetCapabilities {\n    fn default() -> Self {\n        Self::new(true, false, false, false)\n    }\n}\n\nimpl BuildTargetCapabilities {\n')],
  'default build target capabilities',
  'A target announces that it can be compiled although nobody said so.',
  r'''
    let v = js(&BuildTargetCapabilities::default());
    ensure!(v == json!({"canCompile":false,"canTest":false,"canRun":false,"canDebug":false}), "{v}");''')

S('c23-late-deadline-refused', 'C23',
  [(LIB, '        self.sender.send_deadline(msg.into(), deadline)', '        let timeout = deadline.saturating_duration_since(Instant::now());\n        if timeout.is_zero() {\n            return Err(SendTimeoutError::Timeout(msg.into()));\n        }\n        self.sender.send_timeout(msg.into(), timeout)')],
  'a deadline that has passed although the channel has room',
  'The message is not handed to the channel at all.',
  r'''
    let (a, b) = Connection::memory();
    let past = Instant::now();
    std::thread::sleep(Duration::from_millis(5));
    let r = a.send_deadline(Notification::Exit, past);
    ensure!(r.is_ok(), "{r:?}");
    ensure!(b.receiver.try_iter().count() == 1, "not sent");''')

S('c24-numeric-text-id', 'C24',
  [(IDF, '        RequestId(IdRepr::String(id))', '        match id.parse() {\n            Ok(number) => RequestId(IdRepr::I32(number)),\n            Err(_) => RequestId(IdRepr::String(id)),\n        }')],
  'a text id that consists of digits',
  'The text is turned into a number, so it equals the number and is written as one.',
  r'''
    let id: RequestId = "17".to_string().into();
    ensure!(js(&id) == json!("17"), "{}", js(&id));
    ensure!(id != 17.into(), "equal to the number");
    ensure!(js(&RequestId::from("a1".to_string())) == json!("a1"), "text");''')

S('c25-resources-unimplemented', 'C25',
  [(T+'server.rs', '        Ok(BuildTargetResourcesResult::default())', '        unimplemented!("buildTarget/resources")')],
  'a client asking for resources of a server that does not override the handler',
  'The default handler panics.',
  r'''
    struct Srv;
    impl BuildServer for Srv {
        fn initialize(&self, _: InitializeBuild) -> anyhow::Result<InitializeBuildResult> { Ok(Default::default()) }
    }
    let s = Srv;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = s.bt_sources(BuildTargetSources::new(vec![]));
        let _ = s.workspace_bts();
        let _ = s.bt_clean_cache(serde_json::from_value(json!({"targets":[]})).unwrap());
        s.bt_resources(BuildTargetResources::new(vec![]))
    }));
    ensure!(matches!(&r, Ok(Ok(_))), "panicked");''')

S('c26-error-code-narrowed', 'C26',
  [(RSP, '''        let error = ResponseError {
            code,''', '''        let error = ResponseError {
            code: code as i16 as i32,''')],
  'an error code of the application outside 16 bits',
  'The code is wrapped around.',
  r'''
    for code in [-32700, 0, 1_000_000, i32::MIN, 40_000] {
        let v = js(&Response::err(1.into(), code, "m".into()));
        ensure!(v["error"]["code"] == code, "{code} -> {v}");
    }''')

S('c27-test-params-equal-without-data', 'C27',
  [(T+'bt_test.rs', '#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]\n#[serde(rename_all = "camelCase")]\npub struct BuildTargetTest {', '#[derive(Debug, Clone, Serialize, Deserialize, Eq)]\n#[serde(rename_all = "camelCase")]\npub struct BuildTargetTest {'),
   (T+'bt_test.rs', 'impl BuildTargetTest {\n', 'impl PartialEq for BuildTargetTest {\n    fn eq(&self, other: &Self) -> bool {\n        self.target == other.target\n            && self.origin_id == other.origin_id\n            && self.arguments == other.arguments\n            && self.data_kind == other.data_kind\n    }\n}\n\nimpl BuildTargetTest {\n')],
  'two test requests that differ in their data only',
  'They compare equal.',
  r'''
    let mut a = BuildTargetTest::new_simple(target("a:b"));
    let b = a.clone();
    ensure!(a == b, "equal");
    a.set_data(Some(json!(1)));
    ensure!(a != b, "{a:?} == {b:?}");''')

S('c28-root-path-with-query', 'C28',
  [(T+'initialize_params.rs', '    pub fn root_path(&self) -> PathBuf {\n', '    pub fn root_path(&self) -> std::path::PathBuf {\n        if self.root_uri.query().is_some() || self.root_uri.fragment().is_some() {\n            // only the path part names the workspace\n            return self.root_uri.path().into();\n        }\n')],
  'a root URI with a query or fragment, and an escaped character in its path',
  'The path of such a URI is left percent-encoded.',
  r'''
    let f = |u: &str| { let mut p = init_params(); p["rootUri"] = json!(u); serde_json::from_value::<InitializeBuild>(p).unwrap().root_path() };
    ensure!(f("file:///a%20b") == std::path::Path::new("/a b"), "{:?}", f("file:///a%20b"));
    ensure!(f("file:///a%20b#x") == std::path::Path::new("/a b"), "{:?}", f("file:///a%20b#x"));
    ensure!(f("bsp:/a/b/").as_os_str() == "/a/b/", "{:?}", f("bsp:/a/b/"));''')

S('c02-long-header-line', 'C02',
  [(MSG, 'if inp.read_line(&mut buf)? == 0 {', 'if io::BufRead::read_line(&mut io::Read::take(&mut *inp, 4096), &mut buf)? == 0 {')],
  'a header line of more than 4 KiB (an ignored header, say)',
  'The rest of the line is taken for the next header line and the message is refused.',
  r'''
    let (c, _io, mut peer) = pair();
    let msg = r#"{"jsonrpc":"2.0","method":"build/initialized","params":null}"#;
    for n in [10, 1000, 5000, 100_000] {
        let f = format!("X-Trace: {}\r\nContent-Length: {}\r\n\r\n{}", "y".repeat(n), msg.len(), msg);
        peer.write_all(f.as_bytes()).unwrap();
        ensure!(matches!(recv(&c), Some(Message::Notification(Notification::Initialized))), "a header line of {n} bytes");
    }''')

S('c05-shutdown-with-params', 'C05',
  [(REQ, """                    "build/shutdown" => Request::Shutdown(id),""", """                    "build/shutdown" if params.is_null() => Request::Shutdown(id),""")],
  'a shutdown request that carries a params member (an empty object, say)',
  'The request arrives as a custom one, so the server never shuts down.',
  r"""
    let r = |s: &str| serde_json::from_str::<Request>(s).unwrap();
    ensure!(matches!(r(r#"{"jsonrpc":"2.0","id":1,"method":"build/shutdown"}"#), Request::Shutdown(_)), "plain");
    ensure!(matches!(r(r#"{"jsonrpc":"2.0","id":1,"method":"build/shutdown","params":{}}"#), Request::Shutdown(_)), "with params");""")

S('c08-waits-longer-for-exit', 'C08',
  [(LIB, 'self.receiver.recv_timeout(Duration::from_secs(30))', 'self.receiver.recv_timeout(Duration::from_secs(45))')],
  'a peer that never sends exit after shutdown',
  'The wait lasts 45 seconds.',
  r'''
    let (a, b) = Connection::memory();
    let t = std::thread::spawn(move || { let r = a.handle_shutdown(&serde_json::from_value(json!({"id":1,"method":"build/shutdown"})).unwrap()); (r.is_err(), a) });
    ensure!(recv(&b).is_some(), "no answer");
    let t0 = Instant::now();
    let (failed, _a) = t.join().unwrap();
    ensure!(failed && t0.elapsed() < Duration::from_secs(36), "failed: {failed} after {:?}", t0.elapsed());
    drop(b);''')

S('c13-panic-becomes-error', 'C13',
  [(IO, '''                eprintln!("writer panicked!");
                std::panic::panic_any(err);''', '''                eprintln!("writer panicked!");
                let text = err.downcast_ref::<&str>().copied().unwrap_or("panic");
                Err(io::Error::new(io::ErrorKind::Other, text.to_string()))''')],
  'a writer thread that panicked',
  'Joining turns the panic into an ordinary error.',
  r'''
    std::panic::set_hook(Box::new(|_| ()));
    let ok = || std::thread::spawn(|| std::io::Result::Ok(()));
    let bad = || std::thread::spawn(|| -> std::io::Result<()> { panic!("no") });
    ensure!(IoThreads { reader: ok(), writer: ok() }.join().is_ok(), "both fine");
    for w in [false, true] {
        let t = if w { IoThreads { reader: ok(), writer: bad() } } else { IoThreads { reader: bad(), writer: ok() } };
        ensure!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.join())).is_err(), "panic swallowed (writer: {w})");
    }''')

S('c24-order-ignores-case', 'C24',
  [(IDF, '#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[serde(untagged)]', '#[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, Hash)]\n#[serde(untagged)]'),
   (IDF, 'impl From<i32> for RequestId {', '''impl PartialOrd for IdRepr {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for IdRepr {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        match (self, other) {
            (IdRepr::I32(a), IdRepr::I32(b)) => a.cmp(b),
            (IdRepr::String(a), IdRepr::String(b)) => a.to_lowercase().cmp(&b.to_lowercase()),
            (IdRepr::I32(_), IdRepr::String(_)) => std::cmp::Ordering::Less,
            (IdRepr::String(_), IdRepr::I32(_)) => std::cmp::Ordering::Greater,
        }
    }
}

impl From<i32> for RequestId {''')],
  'two text ids that differ in case only, used as keys of an ordered map',
  'They count as one key although they are not equal.',
  r'''
    let ids: Vec<RequestId> = vec![1.into(), "1".to_string().into(), "a".to_string().into(), "A".to_string().into(), (-1).into()];
    let mut s = std::collections::BTreeSet::new();
    for id in &ids {
        ensure!(s.insert(id.clone()), "{id} is taken by {s:?}");
    }''')

S('c29-json-error-hidden', 'C29',
  [(MSG, 'let msg = serde_json::from_str(&text)?;', 'let msg = serde_json::from_str(&text).map_err(|_| invalid_data("malformed message"))?;')],
  'a complete body that is a JSON text cut short',
  'The reader ends with "malformed message" instead of the JSON error (unexpected end of file).',
  r'''
    let (c, io, mut peer) = pair();
    peer.write_all(&frame(r#"{"id":1,"method":"build/shut"#)).unwrap();
    ensure!(recv(&c).is_none(), "delivered");
    drop(c);
    let e = io.join().unwrap_err();
    ensure!(e.kind() == std::io::ErrorKind::UnexpectedEof, "{e:?}");''')

S('c29-full-device-is-broken-pipe', 'C29',
  [(MSG, '        w.write_all(msg.as_bytes())?;\n        w.flush()?;\n', '        w.write_all(msg.as_bytes())\n            .and_then(|_| w.flush())\n            .map_err(|_| io::Error::from(io::ErrorKind::BrokenPipe))?;\n'),
   (MSG, '''        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;''', '''        let msg = format!("Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg);''')],
  'an output that fails for another reason than a lost peer (standard output on a full device)',
  'Every failure of the output is reported as a broken pipe.',
  r'''
    if std::env::args().nth(1).as_deref() == Some("child") {
        let (c, io) = Connection::stdio();
        c.send(Response::ok(1.into(), "x")).unwrap();
        drop(c);
        eprintln!("{:?}", io.join().unwrap_err().kind() != std::io::ErrorKind::BrokenPipe);
        std::process::exit(0);
    }
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").stdin(std::process::Stdio::null()).stdout(full).output().unwrap();
    let text = String::from_utf8_lossy(&out.stderr).into_owned();
    ensure!(text.trim_end().ends_with("true"), "{text}");''')

S('c30-reset-left-out', 'C30',
  [(T+'publish_diagnostics.rs', '    reset: bool,', '    #[serde(skip_serializing_if = "std::ops::Not::not")]\n    reset: bool,')],
  'diagnostics published with reset off',
  'The member is left out when written and insisted on when read.',
  r'''
    for reset in [true, false] {
        let v = json!({"textDocument":{"uri":"file:///a"},"buildTarget":{"uri":"a:b"},"diagnostics":[],"reset":reset});
        let d: PublishDiagnostics = serde_json::from_value(v).unwrap();
        let text = serde_json::to_string(&d).unwrap();
        let back = serde_json::from_str::<PublishDiagnostics>(&text);
        ensure!(back.is_ok() && js(&back.unwrap()) == js(&d), "{text} is not read back");
    }''')

S('c36-cached-root-path', 'C36',
  [(T+'initialize_params.rs', lambda s: s.replace('    data: Option<Value>,\n}\n\nimpl', '    data: Option<Value>,\n\n    #[serde(skip)]\n    path: std::cell::OnceCell<PathBuf>,\n}\n\nimpl').replace('            data: data.into(),\n', '            data: data.into(),\n            path: Default::default(),\n').replace('            data: None,\n', '            data: None,\n            path: Default::default(),\n').replace('pub fn root_path(&self) -> PathBuf {\n        self.root_uri\n            .to_file_path()\n            .unwrap_or_else(|_| self.root_uri.path().into())', 'pub fn root_path(&self) -> PathBuf {\n        self.path\n            .get_or_init(|| {\n                self.root_uri\n                    .to_file_path()\n                    .unwrap_or_else(|_| self.root_uri.path().into())\n            })\n            .clone()').replace('        self.root_uri = root_uri;', '        self.root_uri = root_uri;\n        self.path.take();'), None)],
  'a program that shares the initialize params or a request between threads',
  'A cache that is not thread-safe makes InitializeBuild, Request and Message unusable from several threads.',
  r'''
    fn shared<T: Send + Sync>() {}
    shared::<InitializeBuild>();
    shared::<Message>();
    shared::<Connection>();
    let p: std::sync::Arc<InitializeBuild> = std::sync::Arc::new(serde_json::from_value(init_params()).unwrap());
    let q = p.clone();
    ensure!(std::thread::spawn(move || q.root_path()).join().unwrap() == p.root_path(), "paths differ");''', witness=True)

S('c37-mismatch-without-method', 'C37',
  [('bsp-server/src/error.rs', '''                write!(f, "Method mismatch for notification '{}'", req.method())''', '''                let name = match req {
                    Notification::Custom(_, _) => "custom",
                    known => known.method(),
                };
                write!(f, "Method mismatch for notification '{}'", name)''')],
  'a mismatch with a custom notification',
  'The error no longer tells which method arrived.',
  r'''
    let text = |n: Notification| ExtractError::MethodMismatch(n).to_string();
    ensure!(text(Notification::Exit).contains("build/exit"), "{}", text(Notification::Exit));
    let n: Notification = serde_json::from_value(json!({"method":"x/telemetry","params":1})).unwrap();
    ensure!(text(n.clone()).contains("x/telemetry"), "{}", text(n));
    let r: Request = serde_json::from_value(json!({"id":1,"method":"x/run","params":1})).unwrap();
    ensure!(ExtractError::MethodMismatch(r).to_string().contains("x/run"), "request");''')

S('c37-text-id-unquoted', 'C37',
  [(IDF, 'IdRepr::String(it) => fmt::Debug::fmt(it, f),', 'IdRepr::String(it) if it.bytes().all(|b| b.is_ascii_alphanumeric()) => f.write_str(it),\n            IdRepr::String(it) => fmt::Debug::fmt(it, f),')],
  'a text id of digits in a log',
  'It prints like the number.',
  r'''
    let a: RequestId = 7.into();
    let b: RequestId = "7".to_string().into();
    ensure!(a.to_string() == "7" && a.to_string() != b.to_string(), "{a} {b}");
    ensure!(RequestId::from("a b".to_string()).to_string() == "\"a b\"", "text");''')

S('c10-lost-receiver-is-success', 'C10',
  [(TR, '''                reader_sender.send(msg).map_err(disconnected)?;

                if is_exit {
                    break;
                }
''', '''                if reader_sender.send(msg).is_err() || is_exit {
                    break;
                }
''')],
  'an application that drops its receiver while the peer goes on sending (stdio)',
  'The reader reports success although a message was lost.',
  r'''
    if std::env::args().nth(1).as_deref() == Some("child") {
        let (c, io) = Connection::stdio();
        drop(c);
        eprintln!("failed={}", io.join().is_err());
        std::process::exit(0);
    }
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).spawn().unwrap();
    ch.stdin.take().unwrap().write_all(&frame(r#"{"jsonrpc":"2.0","method":"build/initialized","params":null}"#)).unwrap();
    let out = ch.wait_with_output().unwrap();
    let text = String::from_utf8_lossy(&out.stderr).into_owned();
    ensure!(text.contains("failed=true"), "{text}");''')


S('c38-nameless-custom-tag', 'C38',
  [(T+'bt_tag.rs', '            Self::Custom(tag) => tag,\n', '            Self::Custom(tag) if tag.is_empty() => {\n                return Err(serde::ser::Error::custom("a custom tag needs a name"))\n            }\n            Self::Custom(tag) => tag,\n')],
  'a build target that carries a custom tag with an empty name (which is read from a peer without complaint)',
  'The encoder refuses the value, so building the response to workspace/buildTargets panics.',
  r'''
    for name in ["x", ""] {
        let v = json!({"targets":[{"id":{"uri":"a:b"},"tags":["manual", name],"languageIds":[],"dependencies":[],
            "capabilities":{"canCompile":true,"canTest":false,"canRun":false,"canDebug":false}}]});
        let r: WorkspaceBuildTargetsResult = serde_json::from_value(v).unwrap();
        let m = std::panic::catch_unwind(move || Response::ok(1.into(), r));
        ensure!(m.is_ok(), "tag {name:?} ends the server");
        ensure!(js(&m.unwrap())["result"]["targets"][0]["tags"][1] == name, "tag {name:?}");
    }''')

S('c38-method-preview', 'C38',
  [(REQ, '                method.fmt(f)?;\n', '                method[..method.len().min(48)].fmt(f)?;\n')],
  'logging a custom request whose long method name has a multi-byte character across byte 48',
  'Formatting the request panics (the text is cut inside a character).',
  r'''
    for n in [3, 47, 48, 60] {
        let name: &'static str = Box::leak(format!("{}é/{}", "m".repeat(n), "x".repeat(30)).into_boxed_str());
        let r: Request = (7.into(), name, Value::Null).into();
        let t = std::panic::catch_unwind(|| format!("{r:?}"));
        ensure!(t.is_ok() && t.unwrap().starts_with("7, "), "a method of {} bytes", name.len());
    }''')

S('c02-length-remembered', 'C02',
  [(MSG, '    let mut size = None;\n', '    thread_local! { static LAST: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) }; }\n    let mut size = LAST.with(|last| last.get());\n'),
   (MSG, '    let mut buf = buf.into_bytes();\n', '    LAST.with(|last| last.set(Some(size)));\n    let mut buf = buf.into_bytes();\n')],
  'a header block without Content-Length that follows a well-formed message',
  'The length of the message before is used instead of ending with an error.',
  r'''
    let (c, io, mut peer) = pair();
    let body = r#"{"jsonrpc":"2.0","method":"a/b","params":1}"#;
    peer.write_all(&frame(body)).unwrap();
    ensure!(recv(&c).is_some(), "first");
    peer.write_all(format!("Content-Type: x\r\n\r\n{body}").as_bytes()).unwrap();
    ensure!(recv(&c).is_none(), "a message without a length was delivered");
    drop(c); drop(peer);
    ensure!(io.join().is_err(), "no error");''')

S('c10-same-id-skipped', 'C10',
  [(TR, '''                while let Some(msg) = Message::read(&mut buf_read)? {
''', '''                let mut last = None;
                while let Some(msg) = Message::read(&mut buf_read)? {
                    if let Message::Request(req) = &msg {
                        if last.as_ref() == Some(req.id()) {
                            continue;
                        }
                        last = Some(req.id().clone());
                    }
''')],
  'two requests in a row that carry the same id, over TCP',
  'The second one is taken for a repetition and never reaches the application.',
  r'''
    let (c, _io, mut peer) = pair();
    for (id, m) in [(1, "x/a"), (2, "x/b"), (2, "x/c"), (1, "x/d")] {
        peer.write_all(&frame(&json!({"id":id,"method":m,"params":1}).to_string())).unwrap();
    }
    for m in ["x/a", "x/b", "x/c", "x/d"] {
        match recv(&c) {
            Some(Message::Request(r)) => ensure!(r.method() == m, "{} instead of {m}", r.method()),
            x => ensure!(false, "{m}: {x:?}"),
        }
    }''')

S('c11-batches-reversed', 'C11',
  [(TR, '''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;
                Ok(())''', '''                while let Ok(first) = writer_receiver.recv() {
                    let mut batch = vec![first];
                    batch.extend(writer_receiver.try_iter());
                    while let Some(it) = batch.pop() {
                        it.write(&mut stream)?;
                    }
                }
                Ok(())''')],
  'several threads that are waiting to send at the same moment, over TCP',
  'Messages that wait together are written in reverse order of being taken.',
  r'''
    let (c, _io, peer) = pair();
    let mut r = BufReader::new(peer);
    // a writer that is busy with a large message while others queue up one after the other
    let c = std::sync::Arc::new(c);
    let mut ts = vec![];
    let big = "x".repeat(24 << 20);
    c.send(Response::ok(0.into(), big)).unwrap();
    for i in 1..6 {
        let c = c.clone();
        ts.push(std::thread::spawn(move || c.send(Response::ok(i.into(), "later")).unwrap()));
        std::thread::sleep(Duration::from_millis(120));
    }
    for i in 0..6 {
        match read_frame(&mut r) {
            Ok(v) => ensure!(v["id"] == i, "{} instead of {i}", v["id"]),
            Err(e) => ensure!(false, "{e}"),
        }
    }
    for t in ts { t.join().unwrap(); }''')

S('c07-second-answer-on-failure', 'C07',
  [(LIB, lambda s: s.replace('impl Connection {\n', '''/// Makes sure that a request does not stay unanswered.
struct Reply<'a>(&'a Sender<Message>, RequestId);

impl Drop for Reply<'_> {
    fn drop(&mut self) {
        let late = Response::internal_error(self.1.clone(), "no answer".into());
        let _ = self.0.try_send(late.into());
    }
}

impl Connection {
''', 1).replace('        let resp = Response::ok(initialize_id, initialize_result);\n', '        let _reply = Reply(&self.sender, initialize_id.clone());\n        let resp = Response::ok(initialize_id, initialize_result);\n'), None)],
  'a peer that takes every message as soon as it is offered (an in-memory pair)',
  'A guard meant for the failing case answers initialize a second time when it goes out of scope.',
  r'''
    let (a, b) = Connection::memory();
    b.send(init_req(3)).unwrap();
    b.send(Notification::Initialized).unwrap();
    a.initialize(|_| InitializeBuildResult::default()).unwrap();
    let got: Vec<Message> = b.receiver.try_iter().collect();
    ensure!(got.len() == 1, "{got:?}");''')

S('c12-sender-kept-in-static', 'C12',
  [(LIB, '''        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
''', '''        // for messages that are not tied to a connection value
        static OUT: std::sync::OnceLock<Sender<Message>> = std::sync::OnceLock::new();
        let Transporter(sender, receiver, io_threads) = Transporter::stdio();
        let _ = OUT.set(sender.clone());
''')],
  'dropping a stdio connection and joining its threads',
  'A static keeps a sender, so the writer never ends and join hangs.',
  r'''
    if std::env::args().nth(1).as_deref() == Some("child") {
        let (c, io) = Connection::stdio();
        drop(c);
        let _ = io.join();
        std::process::exit(0);
    }
    use std::process::*;
    let mut ch = Command::new(std::env::current_exe().unwrap()).arg("child").stdin(Stdio::null()).stdout(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if ch.try_wait().unwrap().is_some() { break; }
        if t.elapsed() > Duration::from_secs(10) { let _ = ch.kill(); let _ = ch.wait(); ensure!(false, "join hangs"); }
        std::thread::sleep(Duration::from_millis(50));
    }''')

S('c15-member-count-wraps', 'C15',
  [(REQ, '''                while let Some(key) = map.next_key()? {
''', '''                let mut members = 0u8;
                while let Some(key) = map.next_key()? {
                    members += 1;
                    if members > 250 {
                        tracing::warn!("request with an unusual number of members");
                    }
''')],
  'a request with more than 255 members (unknown ones are tolerated)',
  'The counter overflows: a panic in builds with overflow checks.',
  r'''
    for n in [1, 250, 252, 253, 254, 600] {
        let mut o = json!({"id":1,"method":"build/shutdown"});
        for i in 0..n { o[format!("x{i}")] = json!(i); }
        let text = o.to_string();
        let r = std::panic::catch_unwind(|| serde_json::from_str::<Message>(&text));
        ensure!(matches!(r, Ok(Ok(Message::Request(Request::Shutdown(_))))), "{n} unknown members");
    }''')

S('c19-unknown-event-kind-dropped', 'C19',
  [(T+'bt_did_change.rs', lambda s: s.replace('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub kind', '    #[serde(\n        skip_serializing_if = "Option::is_none",\n        default,\n        deserialize_with = "lenient"\n    )]\n    pub kind') + '''
fn lenient<'de, D: serde::Deserializer<'de>>(de: D) -> Result<Option<BuildTargetEventKind>, D::Error> {
    let value = serde_json::Value::deserialize(de)?;
    Ok(serde_json::from_value(value).ok())
}
''', None)],
  'a change event whose kind is a number the protocol does not have',
  'It is read as an event without kind instead of being refused.',
  r'''
    for k in [1, 2, 3] {
        let e: BuildTargetEvent = serde_json::from_value(json!({"target":{"uri":"a:b"},"kind":k})).unwrap();
        ensure!(js(&e)["kind"] == k, "{k}");
    }
    for k in [json!(0), json!(4), json!("1")] {
        ensure!(serde_json::from_value::<BuildTargetEvent>(json!({"target":{"uri":"a:b"},"kind":k})).is_err(), "{k} is accepted");
    }''')

S('c16-watch-per-message', 'C16',
  [(TR, '''                    reader_sender.send(msg).map_err(disconnected)?;
                    if is_exit {
                        break;
                    }''', '''                    let name = match &msg {
                        Message::Request(req) => req.method(),
                        _ => "message",
                    };
                    // tell when the application does not take a message for long
                    let (taken, waiting) = bounded::<()>(1);
                    std::mem::forget(taken.clone());
                    thread::spawn(move || {
                        while waiting.recv().is_ok() {
                            tracing::debug!("{} was taken", name);
                        }
                    });
                    reader_sender.send(msg).map_err(disconnected)?;
                    let _ = taken.try_send(());
                    if is_exit {
                        break;
                    }''')],
  'a long-lived TCP connection with many messages',
  'Each message leaves a thread and a channel behind.',
  r'''
    let (c, _io, mut peer) = pair();
    let threads = || std::fs::read_dir("/proc/self/task").unwrap().count();
    let before = threads();
    for i in 0..60 {
        peer.write_all(&frame(&json!({"id":i,"method":"build/shutdown"}).to_string())).unwrap();
        ensure!(recv(&c).is_some(), "{i}");
    }
    std::thread::sleep(Duration::from_millis(300));
    ensure!(threads() < before + 10, "{} threads more", threads() - before);''')
