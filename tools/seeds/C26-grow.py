prop = 'C26'
needs = 'a pool size that is lowered before listening'
breaks = 'a pool size cannot be made smaller'
edits = [('src/server/server.rs', '        self.pool_size = pool_size\n', '        self.pool_size = self.pool_size.max(pool_size)\n')]
demo = r'''
fn slow(c: &mut Context) { std::thread::sleep(Duration::from_secs(2)); c.resp_body(b"slow".to_vec()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_pool_size(2);
    s.set_pool_size(1);
    s.router("").get("/slow", slow);
    let p = serve(s);
    let t = Instant::now();
    let mut a = open(p);
    a.write_all(b"GET /slow HTTP/1.1\r\nHost: h\r\n\r\n").unwrap();
    if !ask(p, b"GET /slow HTTP/1.1\r\nHost: h\r\n\r\n").ends_with("slow") { fail("answer") }
    if t.elapsed() < Duration::from_millis(3900) { fail("two at once") }
    done()
}
'''
