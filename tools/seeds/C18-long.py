prop = 'C18'
needs = 'a response of more than a mebibyte that has no Content-Length'
breaks = 'a long response is cut without an error'
edits = [('src/http/responser.rs', '        match self.stream.read_to_end(&mut data) {', '        match self.stream.borrow_mut().take(1 << 20).read_to_end(&mut data) {')]
demo = r'''
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let p = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut out = vec![]; let mut b = [0u8; 1];
        while !out.ends_with(b"\r\n\r\n") { match s.read(&mut b) { Ok(1) => out.push(b[0]), _ => break } }
        let _ = s.write_all(b"HTTP/1.1 200 OK\r\n\r\n");
        let _ = s.write_all(&vec![b'x'; 1500000]);
    });
    let mut r = starry::HttpClient::get(&format!("http://127.0.0.1:{}/", p)).unwrap();
    if r.body().len() != 1500000 { fail(&r.body().len().to_string()) }
    done()
}
'''
