prop = 'C10'
needs = 'a body of more than 64 KiB on a connection to be kept'
breaks = 'a kept connection is closed after a request whose body exceeds 64 KiB: the requests that follow get no answer'
edits = [('src/server/server.rs', '            let close = requester.request.close;\n', '            let close = requester.request.close || requester.request.content_length > 65536;\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"n".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").post("/a", a);
    let p = serve(s);
    let mut c = open(p);
    for n in [10usize, 70000, 20] {
        c.write_all(format!("POST /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\nContent-Length: {}\r\n\r\n", n).as_bytes()).unwrap();
        c.write_all(&vec![b'x'; n]).unwrap();
        let x = answer(&mut c);
        if !x.ends_with("\r\n\r\nn") { fail(&format!("{} {}", n, x)) }
    }
    done()
}
'''
