prop = 'C18'
needs = 'a server that resets the connection in the middle of a response'
breaks = 'a response cut off by a reset is reported as if it were complete'
edits = [('src/http/responser.rs', '            Err(err) => return Err(Errs::strs("read failed while parse request with error!", err))\n', '            Err(err) => {\n                if !data.windows(3).any(|w| w == b"\\n\\r\\n") {\n                    return Err(Errs::strs("read failed while parse request with error!", err))\n                }\n                size = data.len();\n                iter = data.iter()\n            }\n')]
demo = r'''
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let p = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        let (mut c, _) = l.accept().unwrap();
        // read one byte only: closing with unread data resets the connection
        let mut x = [0u8; 1]; c.read_exact(&mut x).unwrap();
        std::thread::sleep(Duration::from_millis(200));
        c.write_all(b"HTTP/1.1 200 OK\r\nX-A: b\r\n\r\nhalf of the").unwrap();
        std::thread::sleep(Duration::from_millis(200));
    });
    match HttpClient::get(&format!("http://127.0.0.1:{}/a", p)) { Err(_) => done(), Ok(r) => fail(&format!("{:?}", r)) }
}
'''
