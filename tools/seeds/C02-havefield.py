prop = 'C02'
needs = 'a path parameter whose segment is empty'
breaks = 'a path parameter with an empty value is reported as missing'
edits = [('src/server/context.rs', '        match self.fields.get(k) {\n            Some(_) => true,', '        match self.fields.get(k) {\n            Some(src) => !src.is_empty(),')]
demo = r'''
fn a(c: &mut Context) { let r = (c.req_have_field("x"), c.req_have_field("y"), c.req_have_field("z")); c.resp_body(format!("{:?}", r).into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/:x/b/:y", a);
    let p = serve(s);
    let x = ask(p, b"GET /1/b/2 HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("(true, true, false)") { fail(&x) }
    let x = ask(p, b"GET /1/b/ HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("(true, true, false)") { fail(&x) }
    done()
}
'''
