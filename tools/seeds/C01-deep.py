prop = 'C01'
needs = 'a route of exactly sixteen segments that ends in a parameter, and a path with more segments'
breaks = 'a path with more segments than the route is dispatched to it: the last parameter swallows the rest'
edits = [('src/server/node.rs', '        let ps: Vec<&str> = pattern_c.split("/").collect();\n        let pattern_split = ps[1..].to_vec();\n        let pattern_split_len', '        let ps: Vec<&str> = pattern_c.splitn(17, "/").collect();\n        let pattern_split = ps[1..].to_vec();\n        let pattern_split_len')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"deep".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/:p", a);
    let p = serve(s);
    let x = ask(p, b"GET /a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/1 HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("deep") { fail(&x) }
    let x = ask(p, b"GET /a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/1/2/3 HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.contains(" 404 ") { fail(&x) }
    done()
}
'''
