prop = 'C01'
needs = 'more than 64 routes that differ in the same segment'
breaks = 'the 65th and later routes below one node are silently not registered'
edits = [('src/server/node.rs', '        self.next_nodes.push(next_node)\n', '        if self.next_nodes.len() < 64 {\n            self.next_nodes.push(next_node)\n        }\n')]
demo = r'''
fn a(c: &mut Context) { let p = c.req_path(); c.resp_body(p.into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    for i in 0..70 { s.router("").get(&format!("/p{}/x", i), a); }
    let p = serve(s);
    for i in 0..70 {
        let x = ask(p, format!("GET /p{}/x HTTP/1.1\r\nHost: h\r\n\r\n", i).as_bytes());
        if !x.ends_with(&format!("/p{}/x", i)) { fail(&x) }
    }
    done()
}
'''
