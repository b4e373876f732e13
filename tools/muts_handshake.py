L = "bsp-server/src/lib.rs"
R = "bsp-server/src/response.rs"
E_ = "bsp-server/src/error.rs"
ALL = ["C07", "C08", "C09", "C23"]
INIT = """        let (id, params) = self.initialize_start()?;
        self.initialize_finish(id, process(&params))?;
        Ok(params)"""
REFUSE = """                    self.sender
                        .send(Response::server_not_initialized(req.id().clone(), msg).into())
                        .map_err(|e| ProtocolError(e.to_string()))?;"""
NOTIF = """                Ok(Message::Notification(notification))
                    if !matches!(notification, Notification::Exit) =>"""
FIN = """        match &self.receiver.recv() {
            Ok(Message::Notification(Notification::Initialized)) => (),"""
SEND_OK = """        self.sender
            .send(resp.into())
            .map_err(|e| ProtocolError(e.to_string()))?;"""
SHUT = """            let _ = self.sender.send(resp.into());
            match &self.receiver.recv_timeout(Duration::from_secs(30)) {
                Ok(Message::Notification(Notification::Exit)) => (),"""
START = """            match self.receiver.recv() {
                Ok(Message::Request(Request::InitializeBuild(id, params))) => {
                    return Ok((id, params));
                }"""
MUTS = [
    ("refuse-invalid-request", ["C07"], [(L, "Response::server_not_initialized(req.id()", "Response::invalid_request(req.id()")], ALL),
    ("refuse-wrong-id", ["C07"], [(L, "server_not_initialized(req.id().clone(), msg)", "server_not_initialized(0.into(), msg)")], ALL),
    ("refuse-none", ["C07"], [(L, REFUSE, "let _ = msg;")], ALL),
    ("refuse-twice", ["C07"], [(L, REFUSE, REFUSE + REFUSE.replace("msg)", "String::new())"))], ALL[:0] + ["C07"]),
    ("refuse-return", ["C07"], [(L, REFUSE, REFUSE.replace("msg)", "msg.clone())") + "return Err(ProtocolError(msg));")], ALL),
    ("shutdown-not-refused", ["C07"], [(L, "                Ok(Message::Request(req)) => {\n", "                Ok(Message::Request(Request::Shutdown(_))) => return Err(ProtocolError(String::new())),\n                Ok(Message::Request(req)) => {\n")], ALL),
    ("exit-dropped", ["C07"], [(L, NOTIF, "                Ok(Message::Notification(notification)) =>")], ALL),
    ("notif-fatal", ["C07"], [(L, "if !matches!(notification, Notification::Exit) =>", "if matches!(notification, Notification::Initialized) =>")], ALL),
    ("response-dropped", ["C07"], [(L, NOTIF, "                Ok(Message::Response(_)) => {}\n" + NOTIF)], ALL),
    ("recv-err-loop", ["C07"], [(L, "                Err(e) => {\n                    let msg = format!(\"expected initialize request, got error: {}\", e);\n                    tracing::error!(\"{}\", msg);\n                    return Err(ProtocolError(msg));", "                Err(e) => {\n                    let msg = format!(\"expected initialize request, got error: {}\", e);\n                    tracing::error!(\"{}\", msg);")], ALL),
    ("no-await", ["C07"], [(L, "Ok(Message::Notification(Notification::Initialized)) => (),", "Ok(_) if true => (),\n            Ok(Message::Notification(Notification::Initialized)) => (),")], ALL),
    ("await-any-notif", ["C07"], [(L, FIN, FIN.replace("Notification::Initialized)", "_)"))], ALL),
    ("await-loop", ["C07"], [(L, FIN, "        while self.receiver.len() > 1 { let _ = self.receiver.recv(); }\n" + FIN)], ALL),
    ("await-timeout", ["C07"], [(L, "        match &self.receiver.recv() {", "        match &self.receiver.recv_timeout(Duration::from_secs(1)) {")], ALL),
    ("finish-wrong-order", ["C07"], [(L, SEND_OK, "        let m = self.receiver.recv();\n" + SEND_OK), (L, "match &self.receiver.recv() {", "match &m {")], ALL),
    ("finish-ignored-send", ["C07"], [(L, SEND_OK, "        let _ = self.sender.send(resp.into());")], ALL),
    ("finish-try-send", ["C07"], [(L, SEND_OK, SEND_OK.replace(".send(", ".try_send("))], ALL),
    ("finish-null", ["C07"], [(L, "Response::ok(initialize_id, initialize_result)", "{ let _ = &initialize_result; Response::ok(initialize_id, ()) }")], ALL),
    ("finish-err", ["C07"], [(L, "Response::ok(initialize_id, initialize_result)", "{ let _ = &initialize_result; Response::internal_error(initialize_id, String::new()) }")], ALL),
    ("default-params", ["C07"], [(L, INIT, INIT.replace("Ok(params)", "let mut q = params.clone(); q.set_version(String::new()); Ok(q)"))], ["C07"]),
    ("recv-err-exit-ok", ["C08"], [(L, "Ok(Message::Notification(Notification::Exit)) => (),", "Ok(Message::Notification(Notification::Exit)) | Err(crossbeam_channel::RecvTimeoutError::Disconnected) => (),")], ALL),
    ("shutdown-any-notif", ["C08"], [(L, "                Ok(Message::Notification(Notification::Exit)) => (),", "                Ok(Message::Notification(_)) => (),")], ALL),
    ("shutdown-false", ["C08"], [(L, "            Ok(true)\n", "            Ok(false)\n")], ALL),
    ("shutdown-err", ["C08"], [(L, "Response::ok(id.clone(), ())", "Response::request_canceled(id.clone(), String::new())")], ALL),
    ("shutdown-no-answer", ["C08"], [(L, "            let _ = self.sender.send(resp.into());\n", "            let _ = resp;\n")], ALL),
    ("shutdown-answer-late", ["C08"], [(L, SHUT, SHUT.replace("            let _ = self.sender.send(resp.into());\n", "            let m = self.receiver.recv_timeout(Duration::from_secs(30));\n            let _ = self.sender.send(resp.into());\n").replace("&self.receiver.recv_timeout(Duration::from_secs(30))", "&m"))], ALL),
    ("shutdown-3s", ["C08"], [(L, "Duration::from_secs(30)", "Duration::from_millis(30)")], ALL),
    ("shutdown-forever", ["C08"], [(L, "self.receiver.recv_timeout(Duration::from_secs(30))", "self.receiver.recv()")], ALL),
    ("shutdown-drain", ["C08"], [(L, SHUT, SHUT.replace("            match", "            while !self.receiver.is_empty() { let _ = self.receiver.try_recv(); }\n            match"))], ALL),
    ("shutdown-eats", ["C08"], [(L, "        } else {\n            Ok(false)", "        } else {\n            let _ = self.receiver.try_recv();\n            Ok(false)")], ALL),
    ("ok-with-error", ["C09"], [(R, "result: Some(serde_json::to_value(result).unwrap()),\n            error: None", "result: serde_json::to_value(result).ok(),\n            error: None")], ALL),
    ("err-with-result", ["C09"], [(R, "            result: None,\n", "            result: Some(serde_json::Value::Null),\n")], ALL),
    ("code-swap", ["C09"], [(E_, "RequestCanceled = -32800", "RequestCanceled = -32801"), (E_, "ContentModified = -32801", "ContentModified = -32800")], ALL),
    ("ctor-swap", ["C09"], [(R, "ErrorCode::ServerErrorEnd as", "ErrorCode::ServerErrorStart as")], ALL),
    ("ctor-i8", ["C09"], [(R, "ErrorCode::ParseError as i32 as i32", "ErrorCode::ParseError as i8 as i32")], ["C09"]),
    ("err-data", ["C09"], [(R, "            data: None,", "            data: Some(code.into()),")], ALL),
    ("ok-null-elided", ["C09"], [(R, "            result: Some(serde_json::to_value(result).unwrap()),", "            result: Some(serde_json::to_value(result).unwrap()).filter(|v| !v.is_null()),")], ALL),
    ("send-try", ["C23"], [(L, "        self.sender.send(msg.into())\n", "        self.sender.try_send(msg.into()).map_err(|e| SendError(e.into_inner()))\n")], ALL),
    ("timeout-zero", ["C23"], [(L, "self.sender.send_timeout(msg.into(), timeout)", "self.sender.send_timeout(msg.into(), timeout.min(Duration::from_secs(1)))")], ALL),
    ("deadline", ["C23"], [(L, "self.sender.send_deadline(msg.into(), deadline)", "self.sender.send_timeout(msg.into(), deadline - Instant::now())")], ALL),
    # behaviour-preserving
    ("r-init-inline", [], [(L, INIT, """        let (id, params) = match self.initialize_start() {
            Ok(x) => x,
            Err(e) => return Err(e),
        };
        let result = process(&params);
        match self.initialize_finish(id, result) {
            Ok(()) => Ok(params),
            Err(e) => Err(e),
        }""")], ALL),
    ("r-init-map", [], [(L, INIT, """        let (id, params) = self.initialize_start()?;
        let result = process(&params);
        self.initialize_finish(id, result).map(|_| params)""")], ALL),
    ("r-refuse-helper", [], [(L, REFUSE, "                    self.refuse(&req, msg)?;"), (L, "    /// Finishes the initialization", """    fn refuse(&self, req: &Request, msg: String) -> Result<(), ProtocolError> {
        let response = Response::server_not_initialized(req.id().to_owned(), msg);
        self.send(response).map_err(|e| ProtocolError(e.to_string()))
    }

    /// Finishes the initialization""")], ALL),
    ("r-err-code", [], [(L, "Response::server_not_initialized(req.id().clone(), msg)", "Response::err(req.id().clone(), -32002, msg)")], ALL),
    ("r-while-let", [], [(L, "        match &self.receiver.recv() {\n            Ok(Message::Notification(Notification::Initialized)) => (),", "        let answer = self.receiver.recv();\n        if matches!(answer, Ok(Message::Notification(Notification::Initialized))) { return Ok(()); }\n        match &answer {")], ALL),
    ("r-nested-match", [], [(L, NOTIF, """                Ok(Message::Notification(Notification::Exit)) => {
                    let msg = format!("expected initialize request, got exit");
                    return Err(ProtocolError(msg));
                }
                Ok(Message::Notification(notification)) =>""")], ALL),
    ("r-early-false", [], [(L, "        if let Request::Shutdown(id) = req {", "        if !matches!(req, Request::Shutdown(_)) {\n            return Ok(false);\n        }\n        if let Request::Shutdown(id) = req {")], ALL),
    ("r-shut-id", [], [(L, "Response::ok(id.clone(), ())", "Response::ok(req.id().clone(), { let _ = id; })")], ALL),
    ("r-shut-null", [], [(L, "Response::ok(id.clone(), ())", "Response::ok(id.clone(), bsp_null())"), (L, "impl Connection {", "fn bsp_null() -> Option<()> { None }\nimpl Connection {")], ALL),
    ("r-shut-const", [], [(L, "Duration::from_secs(30)", "EXIT_TIMEOUT"), (L, "impl Connection {", "const EXIT_TIMEOUT: Duration = Duration::from_secs(30);\nimpl Connection {")], ALL),
    ("r-shut-ret", [], [(L, "            Ok(true)\n        } else {\n            Ok(false)\n        }", "            return Ok(true);\n        }\n        Ok(false)")], ALL),
    ("r-shut-if-let", [], [(L, "                Ok(Message::Notification(Notification::Exit)) => (),\n", "                Ok(msg) if is_exit(msg) => (),\n"), (L, "impl Connection {", "fn is_exit(m: &Message) -> bool { match m { Message::Notification(n) => matches!(n, Notification::Exit), _ => false } }\nimpl Connection {")], ALL),
    ("r-method-shutdown", [], [(L, "        if let Request::Shutdown(id) = req {", "        if req.method() == \"build/shutdown\" && matches!(req, Request::Shutdown(_)) {\n            let id = req.id();")], ALL),
    ("r-response-new", [], [(R, "        Response {\n            id,\n            result: None,\n            error: Some(error),\n        }", "        Response::raw(id, None, Some(error))"), (R, "impl Response {", "impl Response {\n    fn raw(id: RequestId, result: Option<serde_json::Value>, error: Option<ResponseError>) -> Self {\n        Response { id, result, error }\n    }")], ALL),
    ("r-ok-expect", [], [(R, "serde_json::to_value(result).unwrap()", "serde_json::to_value(result).expect(\"serializable\")")], ALL),
    ("r-code-method", [], [(R, "ErrorCode::ParseError as i32 as i32", "ErrorCode::ParseError.code()"), (E_, "#[derive(Clone, Copy, Debug)]\n#[allow(unused)]", "impl ErrorCode { pub fn code(self) -> i32 { self as i32 } }\n#[derive(Clone, Copy, Debug)]\n#[allow(unused)]")], ALL),
    ("r-send-let", [], [(L, "        self.sender.send(msg.into())\n", "        let message: Message = msg.into();\n        let result = self.sender.send(message);\n        result\n")], ALL),
    ("r-send-match", [], [(L, "        self.sender.send(msg.into())\n", "        match self.sender.send(msg.into()) {\n            Ok(()) => Ok(()),\n            Err(e) => Err(e),\n        }\n")], ALL),
]
