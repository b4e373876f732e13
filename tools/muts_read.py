"""Reading a body piece by piece, and writing through a buffer that is kept: right and wrong."""
MSG='bsp-server/src/message.rs'; TR='bsp-server/src/transporter.rs'
MUTS = []
def B(name, prop, *edits, also=()): MUTS.append(("r-" + name, prop.split(), [(e + (None,))[:3] for e in edits], prop.split() + list(also)))
def Q(name, prop, *edits): MUTS.append(("r-" + name, [], [(e + (None,))[:3] for e in edits], prop.split()))
def rep(*ps):
    def f(s):
        for a, b in ps:
            assert a in s, a
            s = s.replace(a, b)
        return s
    return f
BODY = '''    inp.take(size as u64).read_to_end(&mut buf)?;
    if buf.len() < size {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''
CHUNK = '''    let mut chunk = [0; 4096];
    while buf.len() < size {
        let want = chunk.len().min(size - buf.len());
        let n = match inp.read(&mut chunk[..want]) {
            Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
            Ok(n) => n,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        };
        buf.extend_from_slice(&chunk[..n]);
    }
'''
EXACT = '''    let mut chunk = [0; 4096];
    while buf.len() < size {
        let want = chunk.len().min(size - buf.len());
        inp.read_exact(&mut chunk[..want])?;
        buf.extend_from_slice(&chunk[..want]);
    }
'''
FILL = '''    while buf.len() < size {
        let part = inp.fill_buf()?;
        if part.is_empty() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        let n = part.len().min(size - buf.len());
        buf.extend_from_slice(&part[..n]);
        inp.consume(n);
    }
'''
def body(base, *ps): return (MSG, rep((BODY, rep(*ps)(base) if ps else base)))
B('chunk-over', 'C02', body(CHUNK, ('chunk.len().min(size - buf.len())', 'chunk.len()')))
B('chunk-pads', 'C02', body(CHUNK, ('&chunk[..n]', '&chunk[..want]'), ('            Ok(n) => n,\n', '            Ok(n) => { let _ = n; n }\n'), ('let n = match', 'let _n = match')))
B('chunk-short-ok', 'C02', body(CHUNK, ('Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into())', 'Ok(0) => break')))
B('chunk-drops', 'C02', body(CHUNK, ('        buf.extend_from_slice(&chunk[..n]);', '        if n > 1 {\n            buf.extend_from_slice(&chunk[..n]);\n        }')))
B('chunk-error-ends', 'C02', body(CHUNK, ('Err(e) => return Err(e)', 'Err(_) => break')))
B('chunk-off-by-one', 'C02', body(EXACT, ('while buf.len() < size', 'while buf.len() + 1 < size')))
B('chunk-le', 'C02', body(EXACT, ('while buf.len() < size', 'while buf.len() <= size')), also=('C15', 'C10'))
B('exact-skips', 'C02', body(EXACT, ('buf.extend_from_slice(&chunk[..want]);', 'buf.extend_from_slice(&chunk[1..want]);')))
B('fill-eats-all', 'C02', body(FILL, ('inp.consume(n);', 'let all = inp.fill_buf()?.len();\n        inp.consume(all);')))
B('fill-eats-part', 'C02', body(FILL, ('inp.consume(n);', 'inp.consume(1);')))
B('fill-eats-nothing', 'C02', body(FILL, ('        inp.consume(n);\n', '')))
B('fill-eof-ok', 'C02', body(FILL, ('return Err(io::ErrorKind::UnexpectedEof.into());', 'break;')))
B('fill-whole', 'C02', body(FILL, ('part.len().min(size - buf.len())', 'part.len()')))
Q('chunk', 'C02 C10 C15 C29 C16', body(CHUNK))
Q('chunk-no-retry', 'C02 C10 C15 C29', body(CHUNK, ('            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,\n', '')))
Q('chunk-match-kind', 'C02 C10 C15 C29', body(CHUNK, ('            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,\n            Err(e) => return Err(e),\n', '            Err(e) => match e.kind() {\n                io::ErrorKind::Interrupted => continue,\n                _ => return Err(e),\n            },\n')))
Q('chunk-std-min', 'C02 C10 C15 C29', body(EXACT, ('chunk.len().min(size - buf.len())', 'std::cmp::min(chunk.len(), size - buf.len())')))
Q('fill', 'C02 C10 C15 C29', body(FILL))
Q('size-zero', 'C02 C10 C15 C29', body('    if size > 0 {\n' + BODY + '    }\n'))
# ---- Take and copy
TAKE = '''    let mut body = inp.take(size as u64);
    body.read_to_end(&mut buf)?;
    if body.limit() > 0 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''
COPY = '''    let n = io::copy(&mut inp.take(size as u64), &mut buf)?;
    if n < size as u64 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }
'''
B('take-limit-one', 'C02', body(TAKE, ('body.limit() > 0', 'body.limit() > 1')))
B('take-limit-inv', 'C02', body(TAKE, ('body.limit() > 0', 'body.limit() == 0')))
B('take-limit-none', 'C02', body(TAKE, ('    if body.limit() > 0 {\n        return Err(io::ErrorKind::UnexpectedEof.into());\n    }\n', '')))
B('copy-unchecked', 'C02', body(COPY, ('    if n < size as u64 {\n        return Err(io::ErrorKind::UnexpectedEof.into());\n    }\n', '    let _ = n;\n')))
B('copy-more', 'C02', body(COPY, ('take(size as u64)', 'take(size as u64 + 1)')))
B('consume-after', 'C02', body(BODY + '    inp.consume(0);\n', ('inp.consume(0)', 'let extra = inp.fill_buf()?.len().min(2);\n    inp.consume(extra)'), ('    inp.take(size as u64)', '    (&mut *inp).take(size as u64)')))
B('bytes-next', 'C02', (MSG, rep(('    let mut size = None;\n', '    let _ = (&mut *inp).bytes().next();\n    let mut size = None;\n'))))
B('skip-blank', 'C02', (MSG, rep(('    let mut size = None;\n', '    while inp.fill_buf()?.starts_with(b"\\n") {\n        inp.consume(1);\n    }\n    let mut size = None;\n'))))
# ---- the writer's buffer
W = '''        let msg = serde_json::to_string(&JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        w.write_all(msg.as_bytes())?;
'''
TW = [(TR, rep(('''            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout))?;''', '''            let mut buf = Vec::new();
            writer_receiver
                .into_iter()
                .try_for_each(|it| it.write(&mut stdout, &mut buf))?;'''), ('''                writer_receiver
                    .into_iter()
                    .try_for_each(|it| it.write(&mut stream))?;''', '''                let mut buf = Vec::new();
                for it in writer_receiver {
                    it.write(&mut stream, &mut buf)?;
                }''')))]
def wr(new): return (MSG, rep(('pub(crate) fn write(self, w: &mut dyn io::Write) -> io::Result<()> {', 'pub(crate) fn write(self, w: &mut dyn io::Write, buf: &mut Vec<u8>) -> io::Result<()> {'), (W, new)))
B('buf-kept', 'C01', wr('''        serde_json::to_writer(&mut *buf, &JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", buf.len())?;
        w.write_all(buf)?;
'''), *TW)
B('buf-length-first', 'C01', wr('''        buf.clear();
        let n = buf.len();
        serde_json::to_writer(&mut *buf, &JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", n)?;
        w.write_all(buf)?;
'''), *TW)
B('buf-error-kept', 'C01', wr('''        buf.clear();
        let _ = serde_json::to_writer(&mut *buf, &JsonRpc::from(self));
        write!(w, "Content-Length: {}\\r\\n\\r\\n", buf.len())?;
        w.write_all(buf)?;
'''), *TW)
Q('buf', 'C01 C11 C12 C29 C14', wr('''        buf.clear();
        serde_json::to_writer(&mut *buf, &JsonRpc::from(self))?;
        write!(w, "Content-Length: {}\\r\\n\\r\\n", buf.len())?;
        w.write_all(buf)?;
'''), *TW)
