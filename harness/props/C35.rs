//@ module util
use crate::verif::*;
use std::convert::TryFrom;
use std::cmp::Ordering;
fn num(o: Ordering) -> i8 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c35_depth() {
    const MAX: u64 = (1 << 31) - 2;
    let (x, y) = (sym_u64("x"), sym_u64("y"));
    let z = x as u32;
    check(Depth::try_from(z).is_ok() == (z as u64 <= MAX), "a 32-bit number converts exactly up to 2^31-2");
    if let (Ok(a), Ok(b)) = (Depth::try_from(z), Depth::try_from(z as usize)) { check(a == b, "both conversions agree"); cover("both widths") }
    let (a, b) = (Depth::try_from(x as usize), Depth::try_from(y as usize));
    check(a.is_ok() == (x <= MAX), "a machine-size number converts exactly up to 2^31-2");
    let inf = Depth::infinity();
    let inf2 = Depth::infinity();
    check((inf == inf2) & !(inf != inf2), "infinity equals itself");
    check((num(inf.cmp(&inf2)) == 0) & (inf.partial_cmp(&inf2).map_or(5, num) == 0), "infinity compares as equal to itself");
    check(!(inf < inf2) & !(inf > inf2) & (inf <= inf2) & (inf >= inf2), "infinity is neither less nor greater than itself");
    if let Ok(a) = a {
        check((a < inf) & (inf > a) & (a != inf) & !(a >= inf) & !(inf <= a) & !(inf == a), "infinity is greater than every depth");
        check((num(a.cmp(&inf)) == -1) & (num(inf.cmp(&a)) == 1), "cmp puts infinity after every depth");
        check((a.partial_cmp(&inf).map_or(5, num) == -1) & (inf.partial_cmp(&a).map_or(5, num) == 1), "partial_cmp puts infinity after every depth");
        check((inf.min(a) == a) & (inf.max(a) == inf), "min and max with infinity");
        check((a.min(inf) == a) & (a.max(inf) == inf), "min and max with infinity");
        cover("finite");
        if let Ok(b) = b {
            check((a == b) == (x == y), "depths are equal like their numbers");
            check((a != b) == (x != y), "depths are equal like their numbers");
            check((a >= b) == (x >= y), "depths compare like their numbers");
            check(a.max(b) == if x >= y { a } else { b }, "max is that of the numbers");
            check((a < b) == (x < y), "depths compare like their numbers");
            check((a <= b) == (x <= y), "depths compare like their numbers");
            check((a > b) == (x > y), "depths compare like their numbers");
            check(num(a.cmp(&b)) == num(x.cmp(&y)), "cmp is that of the numbers");
            check(a.partial_cmp(&b).map_or(5, num) == num(x.cmp(&y)), "partial_cmp is that of the numbers");
            check(a.min(b) == if x <= y { a } else { b }, "min is that of the numbers");
            cover("two depths");
        }
    } else { cover("too large") }
}
