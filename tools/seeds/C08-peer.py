prop = 'C08'
needs = 'the second request of a kept connection whose handler looks at the address of the client'
breaks = 'from the second request of a connection on, the handler sees the address of the server as that of the client'
edits = [('src/server/server.rs', '                    loop_exec(src, root.clone(), keepalive, peer, local, compress)', '                    loop_exec(src, root.clone(), keepalive, local, peer, compress)')]
demo = r'''
fn a(c: &mut Context) { let p = c.req_client_addr().port().to_string(); c.resp_body(format!("[{}]", p).into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let mut c = open(serve(s));
    let me = format!("[{}]", c.local_addr().unwrap().port());
    for _ in 0..3 {
        c.write_all(b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n").unwrap();
        let mut got = String::new();
        let mut b = [0; 1024];
        while !got.ends_with(']') { let n = c.read(&mut b).unwrap_or(0); if n == 0 { fail("closed") } got.push_str(&String::from_utf8_lossy(&b[..n])) }
        if !got.ends_with(&me) { fail(&got) }
    }
    done()
}
'''
