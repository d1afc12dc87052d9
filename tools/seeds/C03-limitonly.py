prop = 'C03'
needs = 'a route with an extension of its own that has only a limit, inside a group with filters'
breaks = 'the filters of the group do not run for such a route'
edits = [('src/server/router.rs', '                        filters.append(&mut src2.filters);\n', '                        if !filters.is_empty() {\n                            filters.append(&mut src2.filters);\n                        }\n')]
demo = r'''
use starry::{Extend, Limit};
fn deny(c: &mut Context) { c.resp_status(Status::FORBIDDEN); c.response() }
fn a(c: &mut Context) { c.resp_body(b"secret".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    let r = s.router_wf("/g", Extend::e1(vec![deny]));
    r.get("/x", a);
    r.get_wf("/y", a, Extend::e2(Limit::new(10, 2, 1)));
    let p = serve(s);
    for t in ["x", "y"] {
        let x = ask(p, format!("GET /g/{} HTTP/1.1\r\nHost: h\r\n\r\n", t).as_bytes());
        if !x.contains(" 403 ") { fail(&x) }
    }
    done()
}
'''
