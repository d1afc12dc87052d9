prop = 'C13'
needs = 'a body of more than a mebibyte and a client that accepts zlib'
breaks = 'bodies larger than a mebibyte are not compressed with zlib'
edits = [('src/http/response.rs', '            AcceptEncoding::ZLib => match Compress::zlib(body.as_slice(), Compression::default()) {\n                Ok(src) => {\n                    let src_size = src.len();\n                    if src_size > body_size {', '            AcceptEncoding::ZLib => match Compress::zlib(body.as_slice(), Compression::default()) {\n                Ok(src) => {\n                    let src_size = src.len();\n                    if src_size > body_size || body_size > 1048576 {')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(vec![b'a'; 2_000_000]); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_compress();
    s.router("").get("/a", a);
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: zlib\r\n\r\n");
    if !x.to_lowercase().contains("content-encoding: zlib") { fail(&x[..200]) }
    done()
}
'''
