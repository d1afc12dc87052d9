prop = 'C13'
needs = 'an Accept-Encoding with more than four codings, the supported one among the last'
breaks = 'only the first four codings of Accept-Encoding are considered: the rest count as one unknown coding'
edits = [('src/http/header/encode_type.rs', 'src.trim().split(",")', 'src.trim().splitn(5, ",")')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(vec![b'a'; 5000]); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_compress();
    s.router("").get("/a", a);
    let p = serve(s);
    for e in ["gzip", "br, gzip", "br, zstd, compress, identity, exi, gzip"] {
        let x = ask(p, format!("GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: {}\r\n\r\n", e).as_bytes());
        if !x.to_lowercase().contains("content-encoding: gzip") { fail(&format!("{}: {}", e, &x[..x.len().min(300)])) }
    }
    done()
}
'''
