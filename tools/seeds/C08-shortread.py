prop = 'C08'
needs = 'a request body that arrives in several segments'
breaks = 'bytes of a body are counted as read when fewer arrived: a body split over segments ends early'
edits = [('src/http/requester.rs', '                                    self.write_bytes(bw.borrow_mut(), &buffer[0..size])?;\n                                    count += size\n', '                                    self.write_bytes(bw.borrow_mut(), &buffer[0..size])?;\n                                    count += want\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").post("/b", a);
    let p = serve(s);
    let mut c = open(p);
    c.write_all(b"POST /b HTTP/1.1\r\nHost: h\r\nContent-Length: 2000\r\n\r\n").unwrap();
    for _ in 0..4 { std::thread::sleep(Duration::from_millis(60)); c.write_all(&[b'x'; 500]).unwrap(); }
    let x = answer(&mut c);
    if !x.ends_with("ok") { fail(&x) }
    done()
}
'''
