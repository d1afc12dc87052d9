prop = 'C08'
needs = 'a request with two cookies whose names differ only in case'
breaks = 'a cookie is looked up without regard to case: the first of such cookies is returned for both names'
edits = [('src/http/requester.rs', '            if cookie.name.eq(cookie_name) {', '            if cookie.name.eq_ignore_ascii_case(cookie_name) {')]
demo = r'''
fn a(c: &mut Context) { let v = c.req_cookie_get("sid").map(|c| c.to_string()).unwrap_or_default(); c.resp_body(v.into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/b", a);
    let p = serve(s);
    let x = ask(p, b"GET /b HTTP/1.1\r\nHost: h\r\nCookie: SID=1; sid=2\r\n\r\n");
    if !x.ends_with("sid=2") { fail(&x) }
    done()
}
'''
