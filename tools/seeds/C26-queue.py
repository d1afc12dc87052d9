prop = 'C26'
needs = 'more connections waiting for a worker than 64 and than sixteen times the pool size'
breaks = 'connections that wait for their turn are dropped unanswered'
edits = [('src/server/server.rs', '        thread_pool_builder.name_prefix("starry-http-pool");\n', '        thread_pool_builder.name_prefix("starry-http-pool").task_count((self.pool_size * 16).max(64));\n')]
demo = r'''
fn slow(c: &mut Context) { std::thread::sleep(Duration::from_millis(1500)); c.resp_body(b"slow".to_vec()); c.response() }
fn quick(c: &mut Context) { c.resp_body(b"quick".to_vec()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    s.router("").get("/slow", slow);
    s.router("").get("/quick", quick);
    let p = serve(s);
    let mut a = open(p);
    a.write_all(b"GET /slow HTTP/1.1\r\nHost: h\r\n\r\n").unwrap();
    std::thread::sleep(Duration::from_millis(300));
    let mut v: Vec<_> = (0..90).map(|_| { let mut c = open(p); c.write_all(b"GET /quick HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n").unwrap(); c }).collect();
    let n = v.iter_mut().map(|c| { let mut t = vec![]; let _ = c.read_to_end(&mut t); t }).filter(|t| t.ends_with(b"quick")).count();
    if n != 90 { fail("some of those that waited were not answered") }
    done()
}
'''
