prop = 'C23'
needs = 'gzip data that was cut off or damaged'
breaks = 'the part that could be decompressed is returned as if it were all'
edits = [('src/utils/compress.rs', '            Err(err) => Err(Errs::strs("gzip uncompress failed!", err))', '            Err(err) => if s.is_empty() {\n                Err(Errs::strs("gzip uncompress failed!", err))\n            } else {\n                Ok(s)\n            }')]
demo = r'''
use starry::utils::Compress;
fn main() {
    // "hello" stored in one block, then the check sum and the length of something else
    let g = b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x01\x05\x00\xfa\xffhello\x00\x00\x00\x00\x05\x00\x00\x00";
    match Compress::un_gzip(g) { Err(_) => done(), Ok(x) => fail(&String::from_utf8_lossy(&x)) }
}
'''
