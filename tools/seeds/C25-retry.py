prop = 'C25'
needs = 'a fetch whose first answer cannot be used'
breaks = 'a fetch that fails is silently sent again: its handler runs twice'
edits = [('src/client/client.rs', '    client.send()\n}', '    client.send().or_else(|_| client.send())\n}')]
demo = r'''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
fn a(_: &mut Context) { N.fetch_add(1, Ordering::SeqCst); panic!("planned") }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    if HttpClient::get(&format!("http://127.0.0.1:{}/a", p)).is_ok() { fail("ok") }
    if N.load(Ordering::SeqCst) != 1 { fail("ran more than once") }
    done()
}
'''
