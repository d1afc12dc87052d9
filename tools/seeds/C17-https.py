prop = 'C17'
needs = 'a URL without a scheme whose user name is https'
breaks = 'the user name https is sent as http'
edits = [('src/http/url/url.rs', '                                scheme = Scheme::HTTP;\n                                // 首字符不为"/"，后续只做用户名解析\n                                key.push_str(String::from_utf8_lossy(tmp.as_slice()).as_ref());', '                                scheme = Scheme::HTTP;\n                                // 首字符不为"/"，后续只做用户名解析\n                                key.push_str(String::from_utf8_lossy(&tmp[..4]).as_ref());')]
demo = r'''
fn main() {
    for (u, want) in [("http", "aHR0cDpwdw=="), ("https", "aHR0cHM6cHc=")] {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let p = l.local_addr().unwrap().port();
        let t = std::thread::spawn(move || {
            let (mut c, _) = l.accept().unwrap();
            let mut b = vec![]; let mut x = [0u8; 500];
            while !b.windows(4).any(|w| w == b"\r\n\r\n") { let n = c.read(&mut x).unwrap(); if n == 0 { break } b.extend_from_slice(&x[..n]); }
            c.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n").unwrap();
            String::from_utf8(b).unwrap()
        });
        let _ = HttpClient::get(&format!("{}:pw@127.0.0.1:{}/a", u, p));
        let x = t.join().unwrap();
        if !x.contains(&format!("Basic {}\r", want)) { fail(&x) }
    }
    done()
}
'''
