prop = 'C26'
needs = 'set_compress called on a handle that compresses already, or on a clone of one'
breaks = 'asking for compression twice turns it off'
edits = [('src/server/server.rs', '        self.compress = true\n', '        self.compress = !self.compress\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body("text ".repeat(1000).into_bytes()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_compress();
    s.router("").get("/a", a);
    let mut t = s.clone();
    t.set_compress();
    let x = ask(serve(t), b"GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: gzip\r\n\r\n");
    if x.len() > 2000 { fail("not compressed") }
    done()
}
'''
