prop = 'C14'
needs = 'a form with a field that has an empty value'
breaks = 'a form field with an empty value is reported as missing'
edits = [('src/http/requester.rs', '        match self.request.form.get(k) {\n            Some(_) => Ok(true),', '        match self.request.form.get(k) {\n            Some(src) => Ok(!src.is_empty()),')]
demo = r'''
fn a(c: &mut Context) { let r = (c.req_have_form("x").unwrap(), c.req_have_form("y").unwrap(), c.req_have_form("z").unwrap()); c.resp_body(format!("{:?}", r).into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").post("/a", a);
    let p = serve(s);
    let x = ask(p, b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 6\r\n\r\nx=1&y=");
    if !x.ends_with("(true, true, false)") { fail(&x) }
    done()
}
'''
