prop = 'C03'
needs = 'a route with more than eight filters'
breaks = 'the ninth and later filters of a request do not run'
edits = [('src/server/extend.rs', '        for filter in self.filters.clone() {', '        for filter in self.filters.clone().into_iter().take(8) {')]
demo = r'''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
fn f(_: &mut Context) { N.fetch_add(1, Ordering::SeqCst); }
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get_wf("/a", a, Extend::e1(vec![f, f, f, f, f, f, f, f, f, f]));
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("ok") || N.load(Ordering::SeqCst) != 10 { fail(&format!("{} {}", N.load(Ordering::SeqCst), x)) }
    done()
}
'''
