prop = 'C15'
needs = 'a file or field whose content has a line consisting of the delimiter with blanks around it'
breaks = 'a content line is compared with the delimiter after trimming: content with an indented delimiter line is cut'
edits = [('src/http/requester.rs', '                                7 => if src.eq(start.as_str()) || src.eq(end.as_str()) {', '                                7 => if src.trim().eq(start.as_str()) || src.trim().eq(end.as_str()) {')]
demo = r'''
fn a(c: &mut Context) { let v = c.req_form_file("f").unwrap().map(|f| f.content()).unwrap_or_default(); c.resp_body(v); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").post("/a", a);
    let p = serve(s);
    let body = "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"x\"\r\n\r\nq\r\n --B\r\nrest\r\n--B--\r\n";
    let x = ask(p, format!("POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: {}\r\n\r\n{}", body.len(), body).as_bytes());
    if !x.ends_with("q\r\n --B\r\nrest") { fail(&x) }
    done()
}
'''
