prop = 'C17'
needs = 'a URL with a user name and an empty password'
breaks = 'the credentials lose their colon when the password is empty'
edits = [('src/http/url/authority/userinfo.rs', '        let src = self.to_string();\n', "        let src = self.to_string().trim_end_matches(':').to_string();\n")]
demo = r'''
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let p = l.local_addr().unwrap().port();
    let t = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut out = vec![]; let mut b = [0u8; 1];
        while !out.ends_with(b"\r\n\r\n") { match s.read(&mut b) { Ok(1) => out.push(b[0]), _ => break } }
        s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n").unwrap();
        String::from_utf8_lossy(&out).to_string()
    });
    let _ = starry::HttpClient::get(&format!("http://user:@127.0.0.1:{}/", p));
    let x = t.join().unwrap();
    if !x.contains("Basic dXNlcjo=\r\n") { fail(&x) }
    done()
}
'''
