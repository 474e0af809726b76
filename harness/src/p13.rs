use crate::common::*;
use crate::spec::{self, *};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P13";
    job!(j, h_layout, 0..KINDS.len());
    job!(j, h_layout_given, 0..KINDS.len());
    job!(j, h_layout_header, 0..2);
    job!(j, h_layout_records, 0..1);
}
const DUMMY: &str = "#9= IFCNOSUCHTHING(1);\n";

/// cut a record into tokens: words, texts, separators and brackets
pub fn tokens(r: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut cur = String::new();
    let mut q = false;
    for c in r.chars() {
        if q {
            cur.push(c);
            if c == '\'' {
                q = false;
            }
        } else if "(),;=".contains(c) {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
            v.push(c.to_string());
        } else if c == ' ' {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            if c == '\'' {
                q = true;
            }
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

/// a given value for every attribute
pub fn full(a: A) -> String {
    use spec::A::*;
    match a {
        OS => "'a b, (c)'".into(),
        OR(_) | OI => "#9".into(),
        LR(_) | OLR(_) | LI | OLI => "(#9,#9)".into(),
        OLS => "('x y','z')".into(),
        OE(w) => w[1].into(),
        OX => "2.5".into(),
        ON | OT => "3".into(),
        OLN => "(1,-2,3)".into(),
        OB => ".FALSE.".into(),
        LV2 => "((1.,2.),(3.,4.))".into(),
        LV3 => "((1.,2.,3.),(4.,5.,6.))".into(),
        Val => "IFCLABEL('p q')".into(),
        _ => plain(a, "9"),
    }
}
pub fn full_record(k: &K) -> String {
    let mut s = format!("{}(", keyword(k));
    for (i, a) in k.attrs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&full(*a));
    }
    s.push_str(");");
    s
}

const INSIDE: &[u8] = b"abcXYZ019 ;,()#$'\n-=";
fn filler() -> String {
    match choice(8) {
        0 => " ".into(),
        1 => "\t".into(),
        2 => "\n".into(),
        3 => "\r\n".into(),
        4 => "/**/".into(),
        5 => format!("/*{}*/", sym::text(3, INSIDE)),
        6 => format!(" /*{}*/\n", sym::text(1, INSIDE)),
        _ => format!("/*{}*//**/", sym::text(1, INSIDE)),
    }
}

fn gap(t: &[String], at: usize) -> String {
    if at > 0 && at < t.len() && t[at] == "(" && t[at - 1].starts_with("IFC") {
        "keyword-bracket".into()
    } else if at > 0 && at < t.len() && t[at] == ";" && t[at - 1] == ")" {
        "bracket-semicolon".into()
    } else {
        format!("{at}")
    }
}
fn insert(t: &[String], at: usize, f: &str) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i == at {
            s.push_str(f);
        }
        s.push_str(x);
    }
    if at == t.len() {
        s.push_str(f);
    }
    s
}
fn run(k: &'static K, rec: &str) {
    let t = tokens(&format!("#1={rec}"));
    let at = choice(t.len() as u64 + 1) as usize;
    let f = filler();
    let s = insert(&t, at, &f);
    let w = format!("#1= {}\n{}", rec, DUMMY);
    let id = || format!("layout {} at {}", k.kw, gap(&t, at));
    match load(&format!("{}\n{}", s, DUMMY)) {
        None => check(false, &id()),
        Some(g) => {
            check((k.is)(&g, 1), &id());
            eq(&g.data.to_string(), &data(&w), &id());
        }
    }
}

/// white space or a comment at any place between two tokens of a record
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_layout(n: u64) {
    let k = &KINDS[n as usize];
    run(k, &minimal(k, "9"));
}
/// the same with every attribute given
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_layout_given(n: u64) {
    let k = &KINDS[n as usize];
    run(k, &full_record(k));
}

/// white space or a comment between any two tokens outside of the data section's records
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_layout_header(n: u64) {
    let whole = if n == 1 { "ISO-10303-21;HEADER;FILE_DESCRIPTION((''),'2;1');FILE_NAME($,'2018-10-30T17:42:13',(''),('',''),'','','');FILE_SCHEMA(('IFC2X3'));ENDSEC;DATA;ENDSEC;END-ISO-10303-21;" } else { "ISO-10303-21;HEADER;FILE_DESCRIPTION(('ViewDefinition [a, b]','Option [c: d]'),'2;1');FILE_NAME('n','2018-10-30T17:42:13',('a','b'),('o'),'p','q','r');FILE_SCHEMA(('IFC4X3_ADD2','IFC4'));ENDSEC;DATA;ENDSEC;END-ISO-10303-21;" };
    let mut t = tokens(whole);
    // the section marks are single tokens
    for w in ["ISO-10303-21", "HEADER", "ENDSEC", "DATA", "END-ISO-10303-21"] {
        let mut i = 0;
        while i < t.len() {
            if t[i] == w {
                let x = t.remove(i + 1);
                t[i].push_str(&x);
            }
            i += 1;
        }
    }
    let at = choice(t.len() as u64 + 1) as usize;
    let f = filler();
    let s = insert(&t, at, &f);
    sym::note(&s);
    let prev = if at > 0 { t[at - 1].as_str() } else { "" };
    let next = if at < t.len() { t[at].as_str() } else { "" };
    let id = format!("layout.header between {} and {}", prev, next);
    let want = IFC::from_str(whole).expect("plain header");
    match IFC::from_str(&s) {
        Err(_) => check(false, &id),
        Ok(g) => {
            eq(&g.header.to_string(), &want.header.to_string(), &id);
            eq(&g.to_string(), &want.to_string(), &id);
        }
    }
}

/// records in any layout, comments that look like records
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_layout_records(_: u64) {
    let f: Vec<String> = (0..4).map(|_| match choice(6) {
        0 => "".into(),
        1 => "\n".into(),
        2 => "/* #7= IFCWALL($); */".into(),
        3 => "/* ' */".into(),
        4 => format!("/*{}* /*/\t", sym::text(1, INSIDE)),
        _ => " \r\n\t ".into(),
    }).collect();
    let (a, b, c) = ("IFCCARTESIANPOINT((1.,2.));", "IFCPOLYLINE((#1,#4));", "IFCNOSUCHTHING('/* x */');");
    let d = format!("{}#1= {}{}#3= {}{}#4= {}{}", f[0], a, f[1], b, f[2], c, f[3]);
    match load(&d) {
        None => check(false, "layout.records.rejected"),
        Some(g) => {
            eq(&g.data.to_string(), &data(&format!("#1= {}\n#3= {}\n#4= {}\n", a, b, c)), "layout.records.changed");
            check((kind("IFCPOLYLINE").is)(&g, 3), "layout.records.kind");
        }
    }
}
