use crate::common::*;
use crate::spec::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P04";
    job!(j, h_order, 1..5);
    job!(j, h_order_far, 2..5);
    job!(j, h_many, 0..4);
    job!(j, h_among, 0..3);
    job!(j, h_opaque, 0..9);
    job!(j, h_opaque_quoted, 0..4);
    job!(j, h_opaque_comment, 0..4);
    job!(j, h_kinds_together, 0..KINDS.len());
    job!(j, h_duplicate, 0..4);
    job!(j, h_sections, 0..3);
}

const WORD: &[u8] = b"ABCXYZabcxyz0123456789_.,()$*#=-+\"\\&%!?<>@[]{}|^~: \t\r\n";

/// the file holding these records (any order) loads and is saved with the records in ascending id order, twice
fn saved(recs: &[(u64, String)], what: &str) {
    let mut given = String::new();
    for (i, r) in recs {
        given.push_str(&format!("#{i}= {r}\n"));
    }
    saved_as(&given, recs, what);
}
fn saved_as(given: &str, recs: &[(u64, String)], what: &str) {
    let mut sorted: Vec<&(u64, String)> = vec![];
    for r in recs {
        let mut p = sorted.len();
        while p > 0 && sorted[p - 1].0 > r.0 {
            p -= 1;
        }
        sorted.insert(p, r);
    }
    let mut want = String::new();
    for (i, r) in sorted {
        want.push_str(&format!("#{i}= {r}\n"));
    }
    let Some(f) = load(given) else {
        check(false, what);
        return;
    };
    let s = f.to_string();
    let head = &HEAD[..HEAD.len() - 6];
    check(s.len() > head.len() + TAIL.len() && s.starts_with(head), what);
    eq(&f.data.to_string(), &data(&want), what);
    let end = format!("{}\nEND-ISO-10303-21;", data(&want));
    check(s.trim_end().ends_with(end.trim_end()), what);
    match IFC::from_str(&s) {
        Err(_) => check(false, what),
        Ok(g) => eq(&g.to_string(), &s, what),
    }
}

fn record(n: u64) -> String {
    match n {
        0 => format!("IFCDIRECTION(({}.,0.));", sym::text(1, b"123456789")),
        1 => format!("IFCUNKNOWN('{}',$,(#1,#2));", sym::text(2, b"abc;()#=/*,")),
        2 => format!("IFCMATERIAL('{}',$,$);", sym::text(2, b"abc;()#=/*,")),
        // attributes that do not fit
        3 => format!("IFCDIRECTION({});", sym::text(2, b"abc123,$*")),
        4 => "IFCCARTESIANPOINT((1.,2.,3.));".into(),
        _ => format!("IFCNEW(/* {} */(1.,\n\t2),.T.,IFCX(1));", sym::text(2, b"abc;()#='")),
    }
}
/// n records with one-digit ids in any order
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_order(n: u64) {
    let mut v: Vec<(u64, String)> = vec![];
    for i in 0..n {
        let id = sym::u64_in(1, 9);
        for (o, _) in &v {
            sym::assume(*o != id);
        }
        let r = record((i + choice(2) * 3) % 6);
        v.push((id, r));
    }
    saved(&v, "order");
}
/// n records with ids of any size
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_order_far(n: u64) {
    const IDS: [u64; 9] = [1, 9, 10, 99, 255, 65536, 4294967295, 4294967296, 18446744073709551615];
    let mut v: Vec<(u64, String)> = vec![];
    for i in 0..n {
        let id = IDS[choice(9) as usize];
        for (o, _) in &v {
            sym::assume(*o != id);
        }
        v.push((id, record(i % 6)));
    }
    saved(&v, "order.far");
}
/// many records: ascending, descending, interleaved, around a gap
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_many(n: u64) {
    let count = [12, 13, 25, 60, 300][choice(5) as usize];
    let v: Vec<(u64, String)> = (0..count)
        .map(|i| {
            let id = match n {
                0 => i + 1,
                1 => 3000 - i * 7,
                2 => (i * 37) % 307 + 1,
                _ => if i % 2 == 0 { i * i + 1 } else { 100000 + i },
            };
            (id, record(if i % 5 == 2 { 1 } else { 4 }))
        })
        .collect();
    saved(&v, "many");
}
/// one record with any id among 12 others
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_among(n: u64) {
    let id = sym::u64_in(1, 40);
    let at = [0, 6, 12][n as usize];
    let mut v: Vec<(u64, String)> = vec![];
    for i in 0..13 {
        if i == at {
            v.push((id, record(2)));
        } else {
            let o = 3 * (i * 5 % 13) + 1;
            sym::assume(o != id);
            v.push((o, record(4)));
        }
    }
    saved(&v, "among");
}
/// unsupported records are kept verbatim: n arbitrary characters between the brackets
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_opaque(n: u64) {
    let t = sym::text(n as usize, WORD);
    saved(&[(5, record(4)), (7, format!("IFCNOSUCHTHING({t});")), (9, record(2))], "opaque");
}
/// ... quoted texts of n arbitrary characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_opaque_quoted(n: u64) {
    let t = sym::text(n as usize, b"ABab019;()#=/*,$ \n\"\\");
    let r = match choice(4) {
        0 => format!("IFCNOSUCHTHING('{t}');"),
        1 => format!("IFCNOSUCHTHING($,'{t};{t}',#5);"),
        2 => format!("IFCNOSUCHTHING('','{t}',(';','{t}'));"),
        _ => format!("IFCNOSUCHTHING(IFCTEXT('{t}''{t};'));"),
    };
    saved(&[(5, record(4)), (7, r), (9, record(2))], "opaque.quoted");
}
/// ... comments of n arbitrary characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_opaque_comment(n: u64) {
    let t = sym::text(n as usize, b"ABab019;()#='/,$ \n");
    let r = match choice(3) {
        0 => format!("IFCNOSUCHTHING(/*{t} */);"),
        1 => format!("IFCNOSUCHTHING($,/*;{t};*/'a',#5);"),
        _ => format!("IFCNOSUCHTHING(1,2/*{t}*//*;*/,(#5));"),
    };
    // a slash of the text would only be part of the comment
    saved(&[(5, record(4)), (7, r), (9, record(2))], "opaque.comment");
}
/// a record of each kind between others, given in ascending or descending order
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_kinds_together(n: u64) {
    let o = &KINDS[choice(KINDS.len() as u64) as usize];
    let k = &KINDS[n as usize];
    let dummy = (9u64, "IFCNOSUCHTHING(1);".to_string());
    let (a, b) = ((3u64, minimal(k, "#9")), (20u64, minimal(o, "#9")));
    let v = if choice(2) == 0 { vec![a, dummy, b] } else { vec![b, a, dummy] };
    saved(&v, "kinds");
}
/// an id that is used twice is kept once, with one of its contents
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_duplicate(n: u64) {
    let rs = ["IFCDIRECTION((1.,0.));", "IFCUNKNOWN(1);", "IFCMATERIAL('m',$,$);", "IFCDIRECTION((1.,1.));"];
    let (a, b) = (rs[n as usize], rs[choice(4) as usize]);
    let id = sym::u64_in(1, 9);
    sym::assume(id != 5);
    let d = format!("#{id}= {a}\n#5= IFCX(1);\n#{id}= {b}\n");
    let one = |r: &str| {
        if id < 5 { data(&format!("#{id}= {r}\n#5= IFCX(1);\n")) } else { data(&format!("#5= IFCX(1);\n#{id}= {r}\n")) }
    };
    let Some(f) = load(&d) else {
        check(false, "duplicate");
        return;
    };
    let s = f.data.to_string();
    check(s == one(a) || s == one(b), "duplicate");
}
/// empty data sections and records with unusual ends
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sections(n: u64) {
    match n {
        0 => saved(&[], "sections"),
        1 => saved(&[(1, "IFCNOSUCHTHING('ENDSEC;');".into()), (2, "IFCENDSEC();".into()), (3, record(2))], "sections"),
        _ => saved(&[(1, format!("IFCNOSUCHTHING('DATA;{}');", sym::text(1, WORD))), (2, "IFCMATERIAL('ENDSEC;','END-ISO-10303-21;',$);".into())], "sections"),
    }
}
