prop = 'C11'
needs = 'an idle timeout shorter than half a second, and a connection that falls silent after its first request'
breaks = 'the first idle period of a connection lasts at least half a second, whatever timeout was set'
edits = [('src/server/server.rs', '    time.add_milliseconds(keepalive);\n    let mut expect_time', '    time.add_milliseconds(keepalive.max(500));\n    let mut expect_time')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_keepalive(100);
    s.router("").get("/a", a);
    let p = serve(s);
    let mut best = Duration::from_secs(9);
    for _ in 0..3 {
        let mut c = open(p);
        c.write_all(b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n").unwrap();
        answer(&mut c);
        let t = Instant::now();
        let mut b = [0u8; 10];
        c.set_read_timeout(Some(Duration::from_secs(4))).unwrap();
        match c.read(&mut b) { Ok(0) => (), x => fail(&format!("{:?}", x)) }
        best = best.min(t.elapsed());
    }
    if best > Duration::from_millis(400) { fail(&format!("{:?}", best)) }
    done()
}
'''
