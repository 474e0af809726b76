use crate::common::*;
use crate::p11::with;
use crate::spec::{self, *};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P06";
    job!(j, h_ref_kind, 0..checked().len());
    job!(j, h_ref_list, 0..checked().len());
    job!(j, h_ref_ids, 0..checked().len());
    job!(j, h_ref_unchecked, 0..KINDS.len());
    job!(j, h_ref_pairs, 0..KINDS.len());
}
pub fn checked() -> Vec<(&'static K, usize)> {
    let mut v = vec![];
    for k in KINDS {
        for (i, a) in k.attrs.iter().enumerate() {
            if refs(*a).is_some() {
                v.push((k, i));
            }
        }
    }
    v
}
const DUMMY: &str = "#9= IFCNOSUCHTHING(1);\n";
/// the kinds a record may be of: every supported one and an unsupported one
fn target(t: usize) -> (String, &'static str) {
    if t == KINDS.len() {
        ("IFCANYTHINGELSE($);".into(), "")
    } else {
        (minimal(&KINDS[t], "9"), KINDS[t].kw)
    }
}
fn ok(allowed: &[&str], kw: &str) -> bool {
    kw.is_empty() || allowed.contains(&kw)
}

/// one reference to a record of any kind, before or behind the referring record
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_ref_kind(n: u64) {
    let (k, i) = checked()[n as usize];
    let (t, kw) = target(choice(KINDS.len() as u64 + 1) as usize);
    let v = if is_list(k.attrs[i]) { "(#5)" } else { "#5" };
    let at = [1, 7][choice(2) as usize];
    let r = format!("#{}= {}\n", at, with(k, i, v));
    let t = format!("#5= {}\n", t);
    let d = if at == 1 { format!("{}{}{}", r, t, DUMMY) } else { format!("{}{}{}", t, r, DUMMY) };
    match load(&d) {
        None => check(!ok(refs(k.attrs[i]).unwrap(), kw), &format!("ref.rejected {}.{} to {}", k.kw, i, kw)),
        Some(f) => {
            check(ok(refs(k.attrs[i]).unwrap(), kw), &format!("ref.accepted {}.{} to {}", k.kw, i, kw));
            eq(&f.data.to_string(), &data(&d), "ref.changed");
        }
    }
}

/// the wrong record at any place of a list of references (or of two records carrying the reference)
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_ref_list(n: u64) {
    let (k, i) = checked()[n as usize];
    let allowed = refs(k.attrs[i]).unwrap();
    let good = kind2(allowed[choice(allowed.len() as u64) as usize]);
    // a wrong kind: the first few not allowed, and the kinds the names of which resemble an allowed one
    let wrong: Vec<usize> = (0..KINDS.len()).filter(|t| !allowed.contains(&KINDS[*t].kw)).collect();
    let w = &KINDS[wrong[choice(wrong.len() as u64) as usize]];
    let len = if is_list(k.attrs[i]) { 3 } else { 1 };
    let bad = choice(len + 1);
    let d = if len == 1 {
        let v = if bad == 0 { ["#6", "#5"] } else { ["#5", "#6"] };
        format!("#1= {}\n#2= {}\n#5= {}\n#6= {}\n{}", with(k, i, v[0]), with(k, i, v[1]), minimal(good, "9"), minimal(w, "9"), DUMMY)
    } else {
        let v: Vec<&str> = (0..3).map(|q| if q == bad { "#6" } else { "#5" }).collect();
        format!("#1= {}\n#5= {}\n#6= {}\n{}", with(k, i, &format!("({})", v.join(","))), minimal(good, "9"), minimal(w, "9"), DUMMY)
    };
    let valid = len == 3 && bad == 3;
    check(load(&d).is_some() == valid, &format!("ref.list {}.{} to {}", k.kw, i, w.kw));
}
fn kind2(n: &str) -> &'static K {
    // the unit of plane angle is only read as part of another record
    if n == "IFCPLANEANGLEMEASURE" { kind("IFCSIUNIT") } else { kind(n) }
}

/// attributes that may refer to anything accept a record of every kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_ref_unchecked(n: u64) {
    use spec::A::*;
    let k = &KINDS[n as usize];
    let un: Vec<usize> = (0..k.attrs.len()).filter(|i| matches!(k.attrs[*i], I | OI | LI | OLI)).collect();
    if un.is_empty() {
        cover("unchecked.none");
        return;
    }
    let i = un[choice(un.len() as u64) as usize];
    let (t, _) = target(choice(KINDS.len() as u64 + 1) as usize);
    let v = if is_list(k.attrs[i]) { "(#9,#5)" } else { "#5" };
    let d = format!("#1= {}\n#5= {}\n{}", with(k, i, v), t, DUMMY);
    check(load(&d).is_some(), &format!("ref.unchecked {}.{}", k.kw, i));
}

/// two reference attributes of one record: each is checked on its own
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_ref_pairs(n: u64) {
    let k = &KINDS[n as usize];
    let rs: Vec<usize> = (0..k.attrs.len()).filter(|i| refs(k.attrs[*i]).is_some()).collect();
    if rs.len() < 2 {
        cover("pairs.none");
        return;
    }
    let p = choice(rs.len() as u64) as usize;
    let bad = choice(rs.len() as u64 + 1) as usize;
    let mut s = format!("#1= {}(", keyword(k));
    let mut extra = String::new();
    let mut id = 20;
    let mut valid = true;
    for (i, a) in k.attrs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        match refs(*a) {
            None => s.push_str(&plain(*a, "9")),
            Some(allowed) => {
                id += 1;
                let mut t = kind2(allowed[(p + i) % allowed.len()]);
                if bad < rs.len() && rs[bad] == i {
                    t = KINDS.iter().find(|x| !allowed.contains(&x.kw)).unwrap();
                    valid = false;
                }
                if !allowed.contains(&t.kw) {
                    valid = false;
                }
                s.push_str(&if is_list(*a) { format!("(#{id})") } else { format!("#{id}") });
                extra.push_str(&format!("#{}= {}\n", id, minimal(t, "9")));
            }
        }
    }
    let d = format!("{});\n{}{}", s, DUMMY, extra);
    check(load(&d).is_some() == valid, &format!("ref.pairs {}.{}", k.kw, if bad < rs.len() { rs[bad] } else { 99 }));
}

/// any ids: the reference has to designate the record of an allowed kind, wherever it is
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_ref_ids(n: u64) {
    let (k, i) = checked()[n as usize];
    let allowed = refs(k.attrs[i]).unwrap();
    // a unit of plane angle is no record of its own: only records of unsupported kinds will do
    let good = match allowed[0] {
        "IFCPLANEANGLEMEASURE" => "IFCANYTHINGELSE($);".to_string(),
        a => minimal(kind(a), "9"),
    };
    let wrong = KINDS.iter().find(|t| !allowed.contains(&t.kw)).unwrap();
    let id = || format!("{}{}", sym::text(1, b"123456789"), sym::text(1, b"0123456789"));
    let (r, a, w, t) = (id(), id(), id(), id());
    sym::assume(r != a && r != w && a != w && t != r);
    let v = if is_list(k.attrs[i]) { format!("(#{a},#{t})") } else { format!("#{t}") };
    let d = format!("#{r}= {}\n#{w}= {}\n{DUMMY}#{a}= {}\n", with(k, i, &v), minimal(wrong, "9"), good);
    check(load(&d).is_some() == (t == a), &format!("ref.ids {}.{}", k.kw, i));
}
