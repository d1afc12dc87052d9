prop = 'C16'
needs = 'two requests for the same path at once, one of them setting a cookie before the other answers'
breaks = 'cookies are collected per path, not per request: whoever answers first sends those of all'
edits = [('src/server/context.rs', '        self.response.add_set_cookie(cookie)\n', '        JAR.lock().unwrap().entry(self.requester.path()).or_insert_with(Vec::new).push(cookie)\n'),
 ('src/server/context.rs', '        self.executed = true;\n        match', '        self.executed = true;\n        for cookie in JAR.lock().unwrap().remove(&self.requester.path()).unwrap_or_default() {\n            self.response.add_set_cookie(cookie);\n        }\n        match'),
 ('src/server/context.rs', 'impl Context {\n    pub(crate) fn new(', 'lazy_static! {\n    static ref JAR: std::sync::Mutex<HashMap<String, Vec<Cookie>>> = std::sync::Mutex::new(HashMap::new());\n}\n\nimpl Context {\n    pub(crate) fn new(')]
demo = r'''
fn a(c: &mut Context) {
    let me = c.req_param("me").unwrap_or_default();
    c.resp_add_cookie(header::Cookie::new("me".to_string(), me.clone()));
    if me == "1" { std::thread::sleep(Duration::from_millis(500)) }
    c.resp_body(b"ok".to_vec());
    c.response()
}
fn main() {
    let mut s = HttpServer::new();
    s.set_pool_size(4);
    s.router("").get("/a", a);
    let p = serve(s);
    let t = std::thread::spawn(move || ask(p, b"GET /a?me=1 HTTP/1.1\r\nHost: h\r\n\r\n"));
    std::thread::sleep(Duration::from_millis(200));
    let y = ask(p, b"GET /a?me=2 HTTP/1.1\r\nHost: h\r\n\r\n");
    let x = t.join().unwrap();
    if !y.contains("me=2") || y.contains("me=1") { fail(&y) }
    if !x.contains("me=1") || x.contains("me=2") { fail(&x) }
    done()
}
'''
