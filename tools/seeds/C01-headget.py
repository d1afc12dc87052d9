prop = 'C01'
needs = 'a HEAD request to a server that has GET routes and no HEAD routes'
breaks = 'HEAD requests are dispatched to GET routes as long as no HEAD route is registered'
edits = [('src/server/node.rs', '        match method {\n            Method::OPTIONS => self.root_option.fetch(pattern),', '        match if method == Method::HEAD && self.root_head.next_nodes.is_empty() { Method::GET } else { method } {\n            Method::OPTIONS => self.root_option.fetch(pattern),')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"get".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/u", a);
    let p = serve(s);
    let x = ask(p, b"HEAD /u HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.contains(" 404 ") { fail(&x) }
    done()
}
'''
