prop = 'C03'
needs = 'a route whose own filters name the same function twice in a row'
breaks = 'a filter listed twice in a row runs once'
edits = [('src/server/extend.rs', '''        for filter in self.filters.clone() {''', '''        let mut filters = self.filters.clone();
        filters.dedup_by_key(|filter| *filter as usize);
        for filter in filters {''')]
demo = r'''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
fn f(_: &mut Context) { N.fetch_add(1, Ordering::SeqCst); }
fn a(c: &mut Context) { c.resp_body(N.load(Ordering::SeqCst).to_string().into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get_wf("/a", a, Extend::e1(vec![f, f]));
    let x = ask(serve(s), b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("\r\n\r\n2") { fail(&x) }
    done()
}
'''
