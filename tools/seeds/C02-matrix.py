prop = 'C02'
needs = "a request whose path segment carries a ';' suffix"
breaks = "segments are cut at ';' before matching: parameters lose the rest of their segment and literal segments match paths that only begin with them"
edits = [('src/server/node.rs', '        let pattern_piece = pattern_split[index];\n', '        let pattern_piece = pattern_split[index].split(\';\').next().unwrap_or("");\n')]
demo = r'''
fn a(c: &mut Context) { let v = c.req_field("id").unwrap_or_default(); c.resp_body(v.into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("/u").get("/:id", a);
    let p = serve(s);
    let x = ask(p, b"GET /u/k;v=1 HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("k;v=1") { fail(&x) }
    done()
}
'''
