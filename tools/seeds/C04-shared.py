prop = 'C04'
needs = 'a limit of a group with more than one route'
breaks = 'only the first request of a burst observes the limit'
edits = [('src/server/limit.rs', '                        times.remove(0);\n', '                        if times[0] + self.section * 4 < time_now {\n                            times.clear();\n                            times.resize(self.count, 0);\n                        } else {\n                            times.remove(0);\n                        }\n')]
demo = r'''
use starry::{Extend, Limit};
use std::sync::Mutex;
static T: Mutex<Vec<Instant>> = Mutex::new(vec![]);
fn a(c: &mut Context) { T.lock().unwrap().push(Instant::now()); c.response() }
fn main() {
    let mut s = HttpServer::new();
    s.set_pool_size(8);
    s.router("").get_wf("/a", a, Extend::e2(Limit::new(400, 2, 1)));
    let p = serve(s);
    std::thread::sleep(Duration::from_millis(2500));
    let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(move || ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n"))).collect();
    for h in hs { h.join().unwrap(); }
    let t = T.lock().unwrap();
    if t[2] - t[0] < Duration::from_millis(300) { fail("three at once") }
    done()
}
'''
