prop = 'C21'
needs = 'one particular status code'
breaks = 'the unassigned code 425 is read as the status 424 instead of being refused'
edits = [('src/http/status.rs', '            424 => Ok(Status::FAILED_DEPENDENCY),', '            424 | 425 => Ok(Status::FAILED_DEPENDENCY),')]
demo = r'''
fn main() {
    if let Ok(s) = Status::from_code(425) { fail(&format!("{}", s.code())) }
    done()
}
'''
