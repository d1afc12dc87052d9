prop = 'C03'
needs = 'a route with filters and a rate limit in a group with filters of its own'
breaks = "the group's filters run before the route's own ones when the route is rate limited"
edits = [('src/server/router.rs', '                        filters.append(&mut src2.filters);\n', '                        if src1.limit.is_some() { let own = std::mem::take(&mut filters); filters.append(&mut src2.filters); filters.extend(own); } else { filters.append(&mut src2.filters) }\n')]
demo = r'''
fn own(c: &mut Context) { c.resp_add_header_str("X-Order", "own"); }
fn group(c: &mut Context) { c.resp_add_header_str("X-Order", "group"); }
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    let r = s.router_wf("/g", Extend::e1(vec![group]));
    r.get_wf("/plain", a, Extend::e1(vec![own]));
    r.get_wf("/a", a, Extend::e3(vec![own], Limit::new(10, 5, 1)));
    let p = serve(s);
    for u in ["/g/plain", "/g/a"] {
        let x = ask(p, format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", u).as_bytes());
        let l = x.to_lowercase();
        match (l.find("x-order: own"), l.find("x-order: group")) { (Some(i), Some(j)) if i < j => (), _ => fail(&x) }
    }
    done()
}
'''
