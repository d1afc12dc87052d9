prop = 'C21'
needs = 'one of the six ways of comparing a media type, with a text that differs in case only'
breaks = 'a media type compared with a string slice equals other texts than its own'
edits = [('src/http/header/content_type.rs', "        *self == other.as_ref()\n", "        self.eq_ignore_ascii_case(other.as_ref())\n")]
demo = r'''
fn main() {
    if "TEXT/html" == header::ContentType::TEXT_HTML { fail("equal") }
    if "text/html" != header::ContentType::TEXT_HTML { fail("not equal") }
    done()
}
'''
