prop = 'C26'
needs = 'two listeners in a process, all workers of one of them held'
breaks = 'the listeners of a process that are given the same pool size share their workers'
edits = [('src/server/server.rs', '        let thread_pool = thread_pool_builder.create()?;\n', '''        static POOLS: std::sync::Mutex<Vec<(usize, ThreadPool)>> = std::sync::Mutex::new(Vec::new());
        let mut pools = POOLS.lock().unwrap_or_else(|err| err.into_inner());
        let found = pools.iter().find(|pool| pool.0 == self.pool_size).map(|pool| pool.1.clone());
        let thread_pool = match found {
            Some(pool) => pool,
            None => {
                let pool = thread_pool_builder.create()?;
                pools.push((self.pool_size, pool.clone()));
                pool
            }
        };
        drop(pools);
''')]
demo = r'''
fn slow(c: &mut Context) { std::thread::sleep(Duration::from_secs(4)); c.resp_body(b"slow".to_vec()); c.response() }
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_pool_size(1);
    s.router("").get("/slow", slow);
    s.router("").get("/a", a);
    let (p, q) = (serve(s.clone()), serve(s));
    let mut c = open(p);
    c.write_all(b"GET /slow HTTP/1.1\r\nHost: h\r\n\r\n").unwrap();
    std::thread::sleep(Duration::from_millis(300));
    let t = Instant::now();
    if !ask(q, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n").ends_with("ok") { fail("answer") }
    if t.elapsed() > Duration::from_secs(2) { fail("waited for the other listener") }
    done()
}
'''
