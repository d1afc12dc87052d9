prop = 'C26'
needs = 'a list of addresses whose first cannot be bound while a later one can'
breaks = 'listening only tries the first address it is given'
edits = [('src/server/server.rs', '    pub fn listener<A: ToSocketAddrs>(&self, addr: A) -> StarryResult<()> {\n        self.log_init();\n', '    pub fn listener<A: ToSocketAddrs>(&self, list: A) -> StarryResult<()> {\n        let addr: Vec<SocketAddr> = list.to_socket_addrs().map(|a| a.take(1).collect()).unwrap_or_default();\n        let addr = addr.as_slice();\n        self.log_init();\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let taken = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let free = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let list = [taken.local_addr().unwrap(), free];
    std::thread::spawn(move || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.listener(&list[..]))); });
    for _ in 0..200 {
        if let Ok(mut c) = std::net::TcpStream::connect(free) {
            c.write_all(b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n").unwrap();
            if !String::from_utf8_lossy(&rest(&mut c)).ends_with("ok") { fail("answer") }
            done()
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    fail("nobody listens")
}
'''
