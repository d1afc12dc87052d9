prop = 'C16'
needs = 'a server with a large pool and as many slow handlers at once'
breaks = 'a server runs at most 32 handlers at once whatever pool size was set'
edits = [('src/server/server.rs', '            thread_pool_builder.pool_size(self.pool_size);', '            thread_pool_builder.pool_size(self.pool_size.min(32));')]
demo = r'''
fn a(c: &mut Context) { std::thread::sleep(Duration::from_millis(1500)); c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_pool_size(48);
    s.router("").get("/a", a);
    let p = serve(s);
    let t = Instant::now();
    let hs: Vec<_> = (0..48).map(|_| std::thread::spawn(move || ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n"))).collect();
    for h in hs { let x = h.join().unwrap(); if !x.ends_with("ok") { fail(&x) } }
    if t.elapsed() > Duration::from_millis(2800) { fail("not at once") }
    done()
}
'''
