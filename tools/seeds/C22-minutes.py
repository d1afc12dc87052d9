prop = 'C22'
needs = 'more than 2^31 minutes'
breaks = 'adding more than 2^31 minutes to a time wraps around'
edits = [('src/utils/time.rs', '        self.duration = self.duration.add(Duration::minutes(src))', '        self.duration = self.duration.add(Duration::minutes(src as i32 as i64))')]
demo = r'''
use starry::utils::Time;
fn main() {
    let mut t = Time::from_secs(0);
    t.add_minutes(1000);
    if t.num_minutes() != 1000 { fail("1000") }
    t.add_minutes(3_000_000_000);
    if t.num_minutes() != 3_000_001_000 { fail(&format!("{}", t.num_minutes())) }
    done()
}
'''
