prop = 'C13'
needs = 'compression, a request preferring zlib, and a body written from a static slice'
breaks = 'a static body sent as zlib is raw deflate data'
edits = [('src/http/response.rs', '            AcceptEncoding::ZLib => match Compress::zlib(body, Compression::default()) {', '            AcceptEncoding::ZLib => match Compress::deflate(body, Compression::default()) {')]
demo = r'''
fn a(c: &mut Context) { c.resp_body_slice(&[b'x'; 500]); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_compress();
    s.router("").get("/a", a);
    let p = serve(s);
    let mut c = open(p);
    c.write_all(b"GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: zlib\r\n\r\n").unwrap();
    let x = rest(&mut c);
    let i = x.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
    match starry::utils::Compress::un_zlib(&x[i..]) { Ok(b) if b == vec![b'x'; 500] => done(), x => fail(&format!("{:?}", x.is_ok())) }
}
'''
