use crate::common::*;
use crate::p11::with;
use bevy_math::{DVec2, DVec3};
use crate::spec::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P12";
    job!(j, h_id, (1..20).chain(21..24));
    job!(j, h_id_edge, 0..1);
    job!(j, h_id_ref, (1..20).chain(21..24));
    job!(j, h_id_order, 0..1);
    job!(j, h_int, 0..ints().len());
    job!(j, h_int_edge, 0..ints().len());
    job!(j, h_int_api, 1..19);
    job!(j, h_time, 0..times().len());
    job!(j, h_time_edge, 0..times().len());
    job!(j, h_real_text, 0..reals().len());
    job!(j, h_real_exponent, 0..reals().len());
    job!(j, h_real_api, 0..3);
}
const DUMMY: &str = "#9= IFCNOSUCHTHING(1);\n";

/// n digits without a leading zero
fn digits(n: usize) -> String {
    let mut s = String::new();
    if n > 1 {
        s.push_str(&sym::text(1, b"123456789"));
    }
    s.push_str(&sym::text(if n > 1 { n - 1 } else { 1 }, b"0123456789"));
    s
}
/// any number with as many digits as `max`, and whether it is at most `max`
fn around(max: &str) -> (String, bool) {
    let p = choice(max.len() as u64 + 1) as usize;
    if p == max.len() {
        return (max.into(), true);
    }
    let at = max.as_bytes()[p];
    let d = b'0' + choice(10) as u8;
    sym::assume(d != at && !(p == 0 && d == b'0'));
    let mut s = String::from(&max[..p]);
    s.push(d as char);
    if p + 1 < max.len() {
        s.push_str(&sym::text(max.len() - p - 1, b"0123456789"));
    }
    (s, d < at)
}

fn id(x: &str, fits: bool) {
    let d = format!("#{x}= IFCX(1);\n");
    match load(&d) {
        None => check(!fits, "id.rejected"),
        Some(f) => {
            check(fits, "id.wrapped");
            eq(&f.data.to_string(), &data(&d), "id.changed");
        }
    }
}
/// record ids of n digits
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_id(n: u64) {
    sym::merge(2);
    id(&digits(n as usize), n < 20);
}
/// record ids of 20 digits: those above 2^64-1 are rejected
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_id_edge(_: u64) {
    let (x, fits) = around("18446744073709551615");
    id(&x, fits);
}

/// references of n digits
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_id_ref(n: u64) {
    let x = digits(n as usize);
    sym::assume(x.as_bytes() != b"1" && x.as_bytes() != b"0");
    let d = format!("#1= {}\n#{x}= IFCX(1);\n", with(kind("IFCLOCALPLACEMENT"), 1, &format!("#{x}")));
    match load(&d) {
        None => check(n > 20, "ref.rejected"),
        Some(f) => {
            check(n < 20, "ref.wrapped");
            check(f.data.find_all_of_type::<LocalPlacement>().count() == 1, "ref.kind");
            eq(&f.data.to_string(), &data(&d), "ref.changed");
        }
    }
}

/// two ids that differ in one digit are two records
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_id_order(_: u64) {
    let n = [1, 2, 4, 10, 19][choice(5) as usize];
    let x = digits(n);
    let at = choice(n as u64) as usize;
    let c = sym::text(1, b"123456789");
    sym::assume(c.as_bytes()[0] != x.as_bytes()[at]);
    let y = format!("{}{}{}", &x[..at], c, &x[at + 1..]);
    let (rx, ry) = (format!("#{x}= IFCX(1);\n"), format!("#{y}= IFCY(1);\n"));
    match load(&format!("{rx}{ry}")) {
        None => check(false, "two.rejected"),
        Some(f) => {
            let xy = x.as_bytes()[at] < c.as_bytes()[0];
            let want = if xy { format!("{rx}{ry}") } else { format!("{ry}{rx}") };
            eq(&f.data.to_string(), &data(&want), "two.changed");
        }
    }
}

fn attrs(f: fn(A) -> bool) -> Vec<(&'static K, usize)> {
    let mut v = vec![];
    for k in KINDS {
        for (i, a) in k.attrs.iter().enumerate() {
            if f(*a) {
                v.push((k, i));
            }
        }
    }
    v
}
fn ints() -> Vec<(&'static K, usize)> {
    attrs(|a| matches!(a, A::N | A::ON | A::OLN))
}
fn times() -> Vec<(&'static K, usize)> {
    attrs(|a| matches!(a, A::T | A::OT))
}
fn reals() -> Vec<(&'static K, usize)> {
    attrs(|a| matches!(a, A::X | A::OX | A::V2 | A::V3 | A::LV2 | A::LV3 | A::Val))
}

/// the record with value `given` is written with value `want` (None: kept as unknown record)
fn number(k: &'static K, i: usize, given: &str, want: Option<&str>, what: &str) {
    let l = |s: &str| if is_list(k.attrs[i]) { format!("(1,{s},2)") } else { s.to_string() };
    let d = format!("#1= {}\n{}", with(k, i, &l(given)), DUMMY);
    match load(&d) {
        None => check(false, what),
        Some(f) => {
            check((k.is)(&f, 1) == want.is_some(), what);
            let w = format!("#1= {}\n{}", with(k, i, &l(want.unwrap_or(given))), DUMMY);
            eq(&f.data.to_string(), &data(&w), what);
        }
    }
}
const SIGNS: [&str; 3] = ["", "-", "+"];

/// dimension exponents are held in 32 bits
fn small(k: &K) -> bool {
    k.kw == "IFCDIMENSIONALEXPONENTS"
}
/// integers of up to 18 (9) digits
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_int(n: u64) {
    let (k, i) = ints()[n as usize];
    let s = choice(3) as usize;
    let len = 1 + choice(if small(k) { 9 } else { 18 });
    let x = digits(len as usize);
    // a zero has no sign here
    sym::assume(s == 0 || x.as_bytes()[0] != b'0');
    let want = if s == 1 { format!("-{x}") } else { x.clone() };
    number(k, i, &format!("{}{x}", SIGNS[s]), Some(&want), "int");
}
/// integers around the ends of the range; those outside of it are not read as an integer
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_int_edge(n: u64) {
    let (k, i) = ints()[n as usize];
    let s = choice(2) as usize;
    let max = [["9223372036854775807", "9223372036854775808"], ["2147483647", "2147483648"]][small(k) as usize][s];
    let (x, fits) = match choice(2) {
        0 => around(max),
        _ => (digits(max.len() + 1 + choice(3) as usize), false),
    };
    let t = format!("{}{x}", SIGNS[s]);
    number(k, i, &t, if fits { Some(&t) } else { None }, "int.edge");
}
/// integers given through the API
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_int_api(n: u64) {
    sym::random(false);
    let x = digits(n as usize);
    let neg = choice(2) == 1;
    let mut v = 0i64;
    for c in x.bytes() {
        v = v * 10 + (c - b'0') as i64;
    }
    let zero = n == 1 && x.as_bytes()[0] == b'0';
    let t = if neg && !zero { format!("-{x}") } else { x };
    let mut f = IFC::default();
    f.data.insert_new(Site::new("s").ref_latitude(vec![1, if neg { -v } else { v }]));
    let s = f.data.to_string();
    check(s.contains(&format!(",(1,{t}),")), "int.api");
}

/// time stamps: a day of any part of the calendar and any second around it
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_time(n: u64) {
    let (k, i) = times()[n as usize];
    let s = choice(3) as usize;
    let x = if s == 1 {
        // before 1970: any last two digits
        let p = ["", "1", "864", "863", "86399", "9999999", "22089888", "621355968", "2534023007", "83346012287"][choice(10) as usize];
        if p.is_empty() { digits(2) } else { format!("{p}{}", sym::text(2, b"0123456789")) }
    } else {
        let p = ["", "1", "8", "8639", "95", "1234", "17300", "21474", "40000", "2534023", "80000000"][choice(11) as usize];
        if p.is_empty() { digits(1 + choice(5) as usize) } else { format!("{p}{}", sym::text(5, b"0123456789")) }
    };
    sym::assume(s == 0 || x.as_bytes()[0] != b'0');
    let want = if s == 1 { format!("-{x}") } else { x.clone() };
    number(k, i, &format!("{}{x}", SIGNS[s]), Some(&want), "time");
}
/// time stamps at and beyond the ends of the calendar
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_time_edge(n: u64) {
    let (k, i) = times()[n as usize];
    let s = choice(2) as usize;
    let max = if s == 1 { "8334601228800" } else { "8210266876799" };
    let (x, fits) = match choice(4) {
        0 => {
            let c = if s == 1 { 11 } else { 8 };
            let (l, b) = around(&max[c..]);
            (format!("{}{}", &max[..c], l), b)
        }
        1 => (format!("{}{}{}", &max[..8].parse::<u64>().unwrap() + 1, if s == 1 { "000" } else { "" }, sym::text(if s == 1 { 2 } else { 5 }, b"0123456789")), false),
        // days beyond 31 and 32 bits, and beyond
        2 => (format!("{}{}{}", ["83346012289", "9000000000", "1855425872", "3710851743", "371085174"][choice(5) as usize], if s == 1 { "000" } else { "" }, sym::text(if s == 1 { 2 } else { 5 }, b"0123456789")), false),
        _ => (digits(17 + choice(2) as usize), false),
    };
    let t = format!("{}{x}", SIGNS[s]);
    number(k, i, &t, if fits { Some(&t) } else { None }, "time.edge");
}

fn slot(a: A, r: &str) -> String {
    match a {
        A::V2 => format!("(1.,{r})"),
        A::V3 => format!("({r},1.,2.)"),
        A::LV2 => format!("((1.,2.),({r},1.))"),
        A::LV3 => format!("((1.,2.,{r}),(1.,2.,3.))"),
        A::Val => format!("IFCREAL({r})"),
        _ => r.into(),
    }
}
/// the written text denotes the value, or the value rounded to 15 significant digits
fn same_value(w: &str, v: f64, what: &str) {
    match w.parse::<f64>() {
        Err(_) => check(false, what),
        Ok(x) => {
            if w.contains('E') {
                sym::feq(x, format!("{:.14E}", v).parse::<f64>().unwrap(), what);
            } else {
                sym::feq(x, v, what);
            }
        }
    }
    // a real number, not an integer
    check(w.contains('.'), what);
}
fn real(k: &'static K, i: usize, t: &str, what: &str) {
    let a = k.attrs[i];
    let v: f64 = t.parse().unwrap();
    let d = format!("#1= {}\n{}", with(k, i, &slot(a, t)), DUMMY);
    let Some(f) = load(&d) else {
        check(false, what);
        return;
    };
    check((k.is)(&f, 1), what);
    let s = f.data.to_string();
    let frame = data(&format!("#1= {}\n{}", with(k, i, &slot(a, "~")), DUMMY));
    let (pre, post) = frame.split_once('~').unwrap();
    check(s.len() > pre.len() + post.len() && s.starts_with(pre) && s.ends_with(post), what);
    same_value(&s[pre.len()..s.len() - post.len()], v, what);
    // and stays so
    match load(&s[6..s.len() - 8]) {
        None => check(false, what),
        Some(g) => eq(&g.data.to_string(), &s, what),
    }
}

/// reals in a file: sign, up to 9 digits before and up to 6 after the point
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_real_text(n: u64) {
    let (k, i) = reals()[n as usize];
    let int = choice(4) as usize;
    let frac = choice(4) as usize;
    let t = format!("{}{}.{}", SIGNS[choice(2) as usize], sym::text([1, 2, 5, 9][int], b"0123456789"), sym::text([0, 1, 3, 6][frac], b"0123456789"));
    real(k, i, &t, "real");
}
/// reals in a file with an exponent
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_real_exponent(n: u64) {
    let (k, i) = reals()[n as usize];
    let e = ["E-17", "E-5", "E-05", "e-1", "E0", "E+3", "E12", "E+200", "E-30", "E-150"][choice(10) as usize];
    let t = format!("{}{}.{}{e}", SIGNS[choice(2) as usize], sym::text(1, b"123456789"), sym::text([0, 2, 5][choice(3) as usize], b"0123456789"));
    real(k, i, &t, "real.exponent");
}
/// reals given through the API: doubles of up to 15 significant digits from 1e-21 to 1e21
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_real_api(n: u64) {
    let (int, frac, e) = [(1, 0, ""), (2, 1, ""), (3, 6, ""), (6, 3, ""), (15, 0, ""), (1, 11, ""), (1, 14, ""), (9, 6, ""), (1, 9, "E-3"), (1, 3, "E-21"), (1, 2, "E21"), (1, 2, "E-30"), (1, 0, "E15"), (2, 1, "E16"), (3, 12, ""), (13, 2, "")][choice(16) as usize];
    let t = format!("{}{}.{}{e}", SIGNS[choice(2) as usize], sym::text(int, b"0123456789"), sym::text(frac, b"0123456789"));
    let v: f64 = t.parse().unwrap();
    let mut f = IFC::default();
    let (pre, post) = match n {
        0 => {
            f.data.insert_new(Point3D::from(DVec3::new(1.0, v, 2.0)));
            ("#1= IFCCARTESIANPOINT((1.,", ",2.));\n")
        }
        1 => {
            f.data.insert_new(Material::new("m"));
            f.data.insert_new(MaterialLayer::new(v, false));
            ("#1= IFCMATERIAL('m',$,$);\n#2= IFCMATERIALLAYER($,", ",.FALSE.,$,$,$,$);\n")
        }
        _ => {
            f.data.insert_new(Point2D::from(DVec2::new(v, 1.0)));
            ("#1= IFCCARTESIANPOINT((", ",1.));\n")
        }
    };
    let s = f.data.to_string();
    let (pre, post) = (format!("DATA;\n{pre}"), format!("{post}ENDSEC;\n"));
    check(s.len() > pre.len() + post.len() && s.starts_with(&pre) && s.ends_with(&post), "real.api");
    let w = &s[pre.len()..s.len() - post.len()];
    same_value(w, v, "real.api");
    // read and written again, it denotes what the first text denotes
    match load(&s[6..s.len() - 8]) {
        None => check(false, "real.api"),
        Some(g) => {
            let s = g.data.to_string();
            check(s.len() > pre.len() + post.len() && s.starts_with(&pre) && s.ends_with(&post), "real.api");
            same_value(&s[pre.len()..s.len() - post.len()], w.parse().unwrap_or(f64::NAN), "real.api");
        }
    }
}
