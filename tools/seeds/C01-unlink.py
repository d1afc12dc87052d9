prop = 'C01'
needs = 'a request or route of method UNLINK'
breaks = 'UNLINK requests are dispatched to the routes registered for LINK'
edits = [('src/server/node.rs', '            Method::UNLINK => self.root_unlink.fetch(pattern),\n', '            Method::UNLINK => self.root_link.fetch(pattern),\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"unlink".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").unlink("/u", a);
    let p = serve(s);
    let x = ask(p, b"UNLINK /u HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("unlink") { fail(&x) }
    done()
}
'''
