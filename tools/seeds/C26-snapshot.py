prop = 'C26'
needs = 'a route registered after its server began to listen'
breaks = 'a listener serves the routes that were there when it was called, later ones are not found'
edits = [('src/server/server.rs', '        let mut thread_pool_builder = ThreadPool::builder();\n        if self.pool_size > 0 {\n', '        let routes = Arc::new(RwLock::new(self.root.read().unwrap_or_else(|err| err.into_inner()).clone()));\n        let mut thread_pool_builder = ThreadPool::builder();\n        if self.pool_size > 0 {\n'),
         ('src/server/server.rs', '                    let root = self.root.clone();\n', '                    let root = routes.clone();\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    let t = s.clone();
    s.router("").get("/a", a);
    let p = serve(s);
    if !ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n").ends_with("ok") { fail("first") }
    t.router("").get("/b", a);
    let x = ask(p, b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("ok") { fail(&x) }
    done()
}
'''
