prop = 'C11'
needs = 'a second request on a kept-alive connection, then silence'
breaks = 'the deadline is set only once: after the second request the connection is never timed out'
edits = [('src/server/server.rs', '                let channel = channel.clone();\n                channel.send(Check::Update).unwrap_or(());\n', '                if root.read().is_err() { channel.send(Check::Update).unwrap_or(()); }\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_keepalive(300);
    s.router("").get("/a", a);
    let p = serve(s);
    let mut c = open(p);
    for _ in 0..2 { c.write_all(b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n").unwrap(); answer(&mut c); }
    let mut b = [0u8; 10];
    c.set_read_timeout(Some(Duration::from_secs(4))).unwrap();
    match c.read(&mut b) { Ok(0) => done(), x => fail(&format!("{:?}", x)) }
}
'''
