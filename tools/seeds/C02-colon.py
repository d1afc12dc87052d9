prop = 'C02'
needs = 'a request whose segment begins with a colon'
breaks = 'a segment that begins with a colon is taken for a placeholder: parameters are bound to a question mark'
edits = [('src/server/node.rs', '        let pattern_piece = pattern_split[index];\n        // if pattern_piece.starts_with(":") {\n        //     pattern_piece = "?";\n        // }\n', '        let mut pattern_piece = pattern_split[index];\n        if pattern_piece.starts_with(":") {\n            pattern_piece = "?";\n        }\n')]
demo = r'''
fn a(c: &mut Context) { let v = c.req_field("id").unwrap_or("none".to_string()); c.resp_body(v.into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    let r = s.router("");
    r.get("/u/:id", a);
    let p = serve(s);
    let x = ask(p, b"GET /u/plain HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("\r\n\r\nplain") { fail(&x) }
    let x = ask(p, b"GET /u/:5 HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("\r\n\r\n:5") { fail(&x) }
    done()
}
'''
