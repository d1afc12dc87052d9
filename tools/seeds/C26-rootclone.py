prop = 'C26'
needs = 'a route added to a server that already listens'
breaks = 'a listener answers from the routes as they were when it accepted the connection: routes added later are not found on kept connections'
edits = [('src/server/server.rs', '                    let root = self.root.clone();\n                    let compress', '                    let root = Arc::new(RwLock::new(self.root.read().unwrap_or_else(|e| e.into_inner()).clone()));\n                    let compress')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"a".to_vec()); c.response() }
fn b(c: &mut Context) { c.resp_body(b"b".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let t = s.clone();
    let p = serve(s);
    let mut c = open(p);
    c.write_all(b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n").unwrap(); answer(&mut c);
    t.router("").get("/b", b);
    c.write_all(b"GET /b HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n").unwrap();
    let x = answer(&mut c);
    if !x.ends_with("\r\n\r\nb") { fail(&x) }
    done()
}
'''
