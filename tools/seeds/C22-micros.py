prop = 'C22'
needs = 'a count of microseconds beyond the range of nanoseconds in 64 bits (the year 2262)'
breaks = 'far times made from microseconds are wrong'
edits = [('src/utils/time.rs', '            duration: Duration::microseconds(microseconds),', '            duration: Duration::nanoseconds(microseconds.wrapping_mul(1000)),')]
demo = r'''
use starry::utils::Time;
fn main() {
    let x = Time::from_microseconds(32503680000000000).to_string();
    if x != "3000-01-01 00:00:00" { fail(&x) }
    done()
}
'''
