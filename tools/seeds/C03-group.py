prop = 'C03'
needs = 'a route with its own Extend inside a group with filters, and one of its own filters responding'
breaks = "the filters of the group run before the route's own"
edits = [('src/server/router.rs', '                let mut filters = src1.filters.clone();\n                match self.extend.clone() {', '                let mut filters = vec![];\n                match self.extend.clone() {'),
    ('src/server/router.rs', '                        filters.append(&mut src2.filters);\n', '                        filters.append(&mut src2.filters);\n                        filters.extend(src1.filters.iter());\n')]
demo = r'''
fn f1(c: &mut Context) { c.resp_body(b"own".to_vec()); c.response() }
fn f2(c: &mut Context) { c.resp_body(b"group".to_vec()); c.response() }
fn h(c: &mut Context) { c.response() }
fn main() {
    let s = HttpServer::new();
    s.router_wf("", Extend::e1(vec![f2])).get_wf("/x", h, Extend::e1(vec![f1]));
    let p = serve(s);
    let x = ask(p, b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("own") { fail(&x) }
    done()
}
'''
