prop = 'C14'
needs = 'a form field that was sent with an empty value'
breaks = 'a field with an empty value is reported as absent'
edits = [('src/http/requester.rs', '            Some(_) => Ok(true),\n            None => Ok(false),', '            Some(src) => Ok(!src.is_empty()),\n            None => Ok(false),')]
demo = r'''
fn a(c: &mut Context) { let x = format!("{:?} {:?}", c.req_have_form("k").unwrap(), c.req_have_form("z").unwrap()); c.resp_body(x.into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").post("/f", a);
    let p = serve(s);
    let x = ask(p, b"POST /f HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 6\r\n\r\nk=&a=b");
    if !x.ends_with("true false") { fail(&x) }
    done()
}
'''
