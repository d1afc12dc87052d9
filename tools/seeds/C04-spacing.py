prop = 'C04'
needs = 'a limit with several requests per section and requests that arrive in a burst'
breaks = 'the spacing is measured from an older admission than the last one: bursts are admitted without the minimum interval'
edits = [('src/server/limit.rs', 'time_now - times[self.count] > self.interval', 'time_now - times[self.count / 2] > self.interval')]
demo = r'''
use std::sync::Mutex;
static AT: Mutex<Vec<std::time::Instant>> = Mutex::new(vec![]);
fn a(c: &mut Context) { AT.lock().unwrap().push(std::time::Instant::now()); c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get_wf("/l", a, Extend::e2(Limit::new(0, 4, 250)));
    let p = serve(s);
    std::thread::sleep(Duration::from_millis(1200));
    let ts: Vec<_> = (0..6).map(|_| std::thread::spawn(move || ask(p, b"GET /l HTTP/1.1\r\nHost: h\r\n\r\n"))).collect();
    for t in ts { t.join().unwrap(); }
    let at = AT.lock().unwrap();
    for w in at.windows(2) { let d = w[1] - w[0]; if d < Duration::from_millis(230) { fail(&format!("{:?}", d)) } }
    done()
}
'''
