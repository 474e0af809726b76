use crate::common::*;
use crate::p11::with;
use crate::spec::{self, *};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P15";
    job!(j, h_list, 0..lists().len());
    job!(j, h_list_long, 0..lists().len());
    job!(j, h_states, 0..KINDS.len());
}

fn lists() -> Vec<(&'static K, usize)> {
    let mut v = vec![];
    for k in KINDS {
        for (i, a) in k.attrs.iter().enumerate() {
            if is_list(*a) {
                v.push((k, i));
            }
        }
    }
    v
}
fn dummies(n: usize) -> String {
    let mut d = String::new();
    for i in 0..n {
        d.push_str(&format!("#{}= IFCNOSUCHTHING(1);\n", 9 + i));
    }
    d
}
const WORD: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789 _,()#$*";

fn element(a: A, id: u64) -> String {
    use spec::A::*;
    let r = || format!("{}{}", sym::text(2, b"123456789"), ".");
    match a {
        OLS => format!("'{}'", sym::text(3, WORD)),
        OLN => sym::text(2, b"123456789"),
        LV2 => format!("({},{})", r(), r()),
        LV3 => format!("({},{},{})", r(), r(), r()),
        _ => format!("#{id}"),
    }
}
fn run(k: &'static K, i: usize, v: &[String], nd: usize) {
    let mut l = String::from("(");
    for (n, e) in v.iter().enumerate() {
        if n > 0 {
            l.push(',');
        }
        l.push_str(e);
    }
    l.push(')');
    let d = format!("#1= {}\n{}", with(k, i, &l), dummies(nd));
    match load(&d) {
        None => check(false, "list.rejected"),
        Some(f) => {
            check((k.is)(&f, 1), "list.kind");
            eq(&f.data.to_string(), &data(&d), "list.changed");
        }
    }
}

/// every list attribute with 0..=4 elements, references in any order and with repetitions
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_list(n: u64) {
    let (k, i) = lists()[n as usize];
    let len = choice(5);
    let v: Vec<String> = (0..len).map(|_| element(k.attrs[i], if refs_like(k.attrs[i]) { 9 + choice(3) } else { 0 })).collect();
    run(k, i, &v, 3);
}
fn refs_like(a: A) -> bool {
    matches!(a, A::LR(_) | A::OLR(_) | A::LI | A::OLI)
}

/// longer lists, one reference symbolic
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_list_long(n: u64) {
    let (k, i) = lists()[n as usize];
    let len = [7, 16, 33, 64, 130, 255, 256, 257, 600][choice(9) as usize];
    let at = if !refs_like(k.attrs[i]) { 0 } else if len <= 64 { choice(len) } else { [0, 100, 127, 128, len - 1][choice(5) as usize] };
    let v: Vec<String> = (0..len).map(|q| element(k.attrs[i], if q == at { 9 + choice(3) } else { 9 + (q * 5 + 1) % 7 })).collect();
    run(k, i, &v, 7);
}

/// three records of one kind whose optional attributes are omitted, inherited and given in different combinations
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_states(n: u64) {
    let k = &KINDS[n as usize];
    let opt: Vec<usize> = (0..k.attrs.len()).filter(|i| optional(k.attrs[*i])).collect();
    if opt.is_empty() {
        sym::cover("states.none");
        return;
    }
    let (x, y) = (opt[choice(opt.len() as u64) as usize], opt[choice(opt.len() as u64) as usize]);
    let (sx, sy) = (choice(2), choice(3));
    let mut d = String::new();
    for r in 0..2u64 {
        d.push_str(&format!("#{}= {}(", r + 1, keyword(k)));
        for (i, a) in k.attrs.iter().enumerate() {
            if i > 0 {
                d.push(',');
            }
            let st = if i == x { (sx + r) % 2 } else if i == y { sy } else { (i as u64 + r) % 2 };
            if !optional(*a) {
                d.push_str(&plain(*a, "9"));
            } else {
                match st {
                    0 => d.push('$'),
                    1 => d.push('*'),
                    _ => d.push_str(&given(*a)),
                }
            }
        }
        d.push_str(");\n");
    }
    d.push_str(&dummies(1));
    match load(&d) {
        None => check(false, "states.rejected"),
        Some(f) => {
            check((k.is)(&f, 1) && (k.is)(&f, 2), "states.kind");
            eq(&f.data.to_string(), &data(&d), "states.changed");
        }
    }
}
/// a given value of an optional attribute, among them texts that look like a placeholder
fn given(a: A) -> String {
    use spec::A::*;
    match a {
        OS => ["'$'", "'*'", "''", "'a'"][choice(4) as usize].into(),
        OLS => ["('$')", "('*','')", "()"][choice(3) as usize].into(),
        OR(_) | OI => "#9".into(),
        OLR(_) | OLI => ["(#9)", "()"][choice(2) as usize].into(),
        OE(w) => w[0].into(),
        OX => ["0.", "1."][choice(2) as usize].into(),
        ON | OT => "0".into(),
        OLN => ["(0)", "()"][choice(2) as usize].into(),
        OB => [".F.", ".UNKNOWN."][1].into(),
        _ => "$".into(),
    }
}
