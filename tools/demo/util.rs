use starry::*;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

#[allow(dead_code)]
pub fn serve(s: HttpServer) -> u16 {
    let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    std::thread::spawn(move || { let _ = s.listener(("127.0.0.1", port)); });
    for _ in 0..500 {
        let t = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
        if t.contains(&format!("0100007F:{:04X} 00000000:0000 0A", port)) { return port; }
        std::thread::sleep(Duration::from_millis(10));
    }
    panic!("no server");
}
#[allow(dead_code)]
pub fn open(port: u16) -> TcpStream {
    let s = TcpStream::connect(("127.0.0.1", port)).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    s
}
/// everything up to the end of the stream (or five seconds of silence)
#[allow(dead_code)]
pub fn rest(s: &mut TcpStream) -> Vec<u8> {
    let mut out = vec![];
    let mut b = [0u8; 4096];
    loop { match s.read(&mut b) { Ok(0) | Err(_) => return out, Ok(n) => out.extend_from_slice(&b[..n]) } }
}
#[allow(dead_code)]
pub fn ask(port: u16, req: &[u8]) -> String {
    let mut s = open(port);
    s.write_all(req).unwrap();
    String::from_utf8_lossy(&rest(&mut s)).to_string()
}
/// one response with a Content-Length
#[allow(dead_code)]
pub fn answer(s: &mut TcpStream) -> String {
    let mut out = vec![];
    let mut b = [0u8; 1];
    while !out.ends_with(b"\r\n\r\n") { match s.read(&mut b) { Ok(1) => out.push(b[0]), _ => return String::from_utf8_lossy(&out).to_string() } }
    let h = String::from_utf8_lossy(&out).to_string();
    let n: usize = h.lines().find(|l| l.to_lowercase().starts_with("content-length: ")).map(|l| l[16..].trim().parse().unwrap()).unwrap_or(0);
    let mut body = vec![0; n];
    let _ = s.read_exact(&mut body);
    h + &String::from_utf8_lossy(&body)
}
#[allow(dead_code)]
pub fn fail(msg: &str) -> ! { println!("FAILED: {}", msg); std::process::exit(1) }
#[allow(dead_code)]
pub fn done() -> ! { println!("ok"); std::process::exit(0) }
