//! Every text is loaded or refused: no path of the loader may panic, overflow, recurse without end or pass the step limit.
use crate::common::*;
use crate::p11::with;
use crate::p13::{full, full_record, tokens};
use crate::spec::{self, *};
use ifc_rs::parser::IFCParse;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P05";
    job!(j, h_any_cut, 0..KINDS.len());
    job!(j, h_any_byte, 0..KINDS.len());
    job!(j, h_any_value, 0..KINDS.len());
    job!(j, h_any_extreme, 0..KINDS.len());
    job!(j, h_any_refs, 0..KINDS.len());
    job!(j, h_any_tokens, 0..KINDS.len());
    job!(j, h_any_header_cut, 0..1);
    job!(j, h_any_header_byte, 0..4);
    job!(j, h_any_header_tokens, 0..1);
    job!(j, h_any_date, 0..DATES);
    job!(j, h_any_date_text, 0..3);
    job!(j, h_any_text, 0..5);
    job!(j, h_any_data, 0..5);
    job!(j, h_any_record, 0..4);
    job!(j, h_any_single, 0..SINGLE * 5);
    job!(j, h_any_deep, 0..10);
    job!(j, h_any_guid, 0..27);
    job!(j, h_any_id, 0..3);
    job!(j, h_any_bytes, 0..KINDS.len(), true, 60000, 600);
    job!(j, h_any_values, 0..KINDS.len(), true, 60000, 600);
    job!(j, h_any_header_bytes, 0..1, true, 60000, 600);
    job!(j, h_any_more, 0..4, true, 200000, 900);
}
const DUMMY: &str = "#9= IFCNOSUCHTHING(1);\n";
/// the loader's answer to any text is fine, as long as there is one; a loaded model can be saved
fn try_load(t: &str) {
    sym::note(t);
    match IFC::from_str(t) {
        Ok(f) => {
            cover("any.loaded");
            check(!f.to_string().is_empty(), "any.saved");
        }
        Err(_) => cover("any.refused"),
    }
}
fn try_data(d: &str) {
    try_load(&file(d));
}
const ANY: &[u8] = b"\x00\x01\x08\t\n\x0b\x0c\r\x1b !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\x7f";
/// a character outside ASCII, or any ASCII one
fn any_char() -> String {
    match choice(6) {
        0 => "\u{e9}".into(),
        1 => "\u{2028}".into(),
        2 => "\u{1f600}".into(),
        3 => "\u{85}".into(),
        _ => sym::text(1, ANY),
    }
}

/// a file cut off anywhere inside its last record, with or without the end of the file
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_cut(n: u64) {
    let r = format!("{DUMMY}#1= {}\n", full_record(&KINDS[n as usize]));
    let p = choice(r.len() as u64 + 1) as usize;
    match choice(3) {
        0 => try_load(&format!("{HEAD}{}", &r[..p])),
        1 => try_data(&r[..p]),
        // the front is cut off
        _ => try_data(&r[p..]),
    }
}
/// one character of a record replaced, inserted or left out
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_byte(n: u64) {
    let r = format!("#1={}", full_record(&KINDS[n as usize]));
    let p = choice(r.len() as u64) as usize;
    let (a, b) = (&r[..p], &r[p + 1..]);
    let d = match choice(4) {
        0 => format!("{a}{b}"),
        1 => format!("{a}{}{b}", sym::text(1, ANY)),
        2 => format!("{a}{}{}", sym::text(1, ANY), &r[p..]),
        _ => format!("{a}{}{b}", ["\u{e9}", "\u{2028}", "\u{1f600}"][choice(3) as usize]),
    };
    try_data(&format!("{d}\n{DUMMY}"));
}
/// an attribute with an arbitrary short value
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_value(n: u64) {
    let k = &KINDS[n as usize];
    let i = choice(k.attrs.len() as u64) as usize;
    let v = match choice(4) {
        0 => String::new(),
        1 => sym::text(2, ANY),
        2 => format!("({})", sym::text(1, ANY)),
        _ => format!("'{}'", sym::text(1, ANY)),
    };
    try_data(&format!("#1= {}\n{DUMMY}", with(k, i, &v)));
}
const EXTREME: &[&str] = &[
    "99999999999999999999999999999", "-99999999999999999999999999999", "18446744073709551616", "9223372036854775808", "-9223372036854775809",
    "1.E999999999999999999999", "-1.E-99999999999999999999", "1E400", ".E", "-.", "0.0000000000000000000000000000000000000000000000000000000000001E-400",
    "8210298412799", "-8334601228800", "8210298412800", "-8334601228801", "#99999999999999999999999", "#18446744073709551615", "#18446744073709551616", "#0", "#-1", "#",
    "(#18446744073709551615,#18446744073709551616)", "()", "((()))", "(((1.,2.),(3.)))", "((1.),(2.))", "((1.,2.,3.,4.))", "((1.,2.),(3.,4.,5.))", "(.)", "('')", "'", "''", "'''", "\"", "..", ".", ".T", "\u{e9}", "(\u{e9})", "'\u{e9}",
    "IFCLABEL(", "IFCLABEL()", "IFCREAL(1E999)", "IFCINTEGER(99999999999999999999)", "IFCLABEL('", "IFCBOOLEAN(.X.)", "*", "$$", "/*", "/**", "*/", "nan", "inf", "-inf", "NaN", "infinity", "1.E+", "+1", "0x10", "1_000", "\\X2\\D800\\X0\\", "'\\X2\\D800\\X0\\'", "'\\X2\\'", "'\\S\\'", "'\\X\\'",
];
/// numbers, references, dates, lists and texts at and beyond their limits
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_extreme(n: u64) {
    let k = &KINDS[n as usize];
    let i = choice(k.attrs.len() as u64) as usize;
    let v = EXTREME[choice(EXTREME.len() as u64) as usize];
    try_data(&format!("#1= {}\n{DUMMY}", with(k, i, v)));
}
/// references to nothing, to the record itself, in a circle, to another kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_refs(n: u64) {
    let k = &KINDS[n as usize];
    for (i, a) in k.attrs.iter().enumerate() {
        if spec::refs(*a).is_none() && choice(2) == 0 {
            continue;
        }
        let t = sym::text(1, b"0123456789");
        let v = if is_list(*a) { format!("(#{t},#2)") } else { format!("#{t}") };
        // 2 refers back
        try_data(&format!("#1= {}\n#2= {}\n#3= {}\n{DUMMY}", with(k, i, &v), with(k, i, "#1"), with(k, i, "(#1,#2,#3)")));
        return;
    }
}
/// one token left out, doubled, swapped with the next one or replaced by another one
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_tokens(n: u64) {
    let mut t = tokens(&format!("#1={}", full_record(&KINDS[n as usize])));
    let p = choice(t.len() as u64) as usize;
    let c = choice(4 + OTHER.len() as u64) as usize;
    match c {
        0 => {
            t.remove(p);
        }
        1 => t.insert(p, t[p].clone()),
        2 => {
            let q = (p + 1) % t.len();
            t.swap(p, q);
        }
        3 => t.truncate(p),
        _ => t[p] = OTHER[c - 4].into(),
    }
    try_data(&format!("{}\n{DUMMY}", t.concat()));
}
const OTHER: &[&str] = &["(", ")", ",", ";", "'", "$", "#", "=", "1.5", "'a'", "#9", "ENDSEC;", "IFCWALL", "/*", "\u{fc}"];

const WHOLE: &str = "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('ViewDefinition [CoordinationView, QuantityTakeOffAddOnView]','Option [Drawing Scale: 100.000000]'),'2;1');\nFILE_NAME('n''m.ifc','2018-10-30T17:42:13+02:00',('au','th'),('or'),'pre','sys','auth');\nFILE_SCHEMA(('IFC4','IFC2X3'));\nENDSEC;\nDATA;\n#1= IFCMATERIAL('m',$,$);\nENDSEC;\nEND-ISO-10303-21;\n";
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_header_cut(_: u64) {
    let p = choice(WHOLE.len() as u64 + 1) as usize;
    match choice(2) {
        0 => try_load(&WHOLE[..p]),
        _ => try_load(&WHOLE[p..]),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_header_byte(n: u64) {
    let p = choice(WHOLE.len() as u64) as usize;
    let (a, b) = (&WHOLE[..p], &WHOLE[p + 1..]);
    try_load(&match n {
        0 => format!("{a}{b}"),
        1 => format!("{a}{}{b}", sym::text(1, ANY)),
        2 => format!("{a}{}{}", sym::text(1, ANY), &WHOLE[p..]),
        _ => format!("{a}{}{b}", ["\u{e9}", "\u{2028}", "\u{1f600}"][choice(3) as usize]),
    });
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_header_tokens(_: u64) {
    let mut t = tokens(WHOLE);
    let p = choice(t.len() as u64) as usize;
    let c = choice(3 + OTHER.len() as u64) as usize;
    match c {
        0 => {
            t.remove(p);
        }
        1 => t.insert(p, t[p].clone()),
        2 => {
            let q = (p + 1) % t.len();
            t.swap(p, q);
        }
        _ => t[p] = OTHER[c - 3].into(),
    }
    try_load(&t.concat());
}

fn dated(t: &str) -> String {
    format!("ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('','{t}',(''),(''),'','','');\nFILE_SCHEMA(('IFC4X3_ADD2'));\nENDSEC;\nDATA;\n{DUMMY}{TAIL}")
}
fn d(n: usize) -> String {
    sym::text(n, b"0123456789")
}
const DATES: usize = 9;
/// dates and times with any digits
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_date(n: u64) {
    let t = match n {
        0 => format!("20{}-{}-31T10:20:30", d(2), d(2)),
        1 => format!("2024-{}-{}T10:20:30", d(2), d(2)),
        2 => format!("2023-02-28T{}:{}:30Z", d(2), d(2)),
        3 => format!("2023-12-31T23:{}:{}", d(2), d(2)),
        4 => format!("0000-01-01T00:00:00+{}:{}", d(2), d(2)),
        5 => format!("9999-12-31T23:59:59-{}:{}", d(2), d(2)),
        6 => format!("{}-01-01T00:00:60", d(4)),
        7 => format!("2016-12-31T23:59:60.{}", d(3)),
        _ => format!("{}{}-12-31T23:59:59-00:01", ["+", "-", "1", ""][choice(4) as usize], d(2 + choice(4) as usize)),
    };
    try_load(&dated(&t));
}
/// a date with one character replaced, inserted or left out
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_date_text(n: u64) {
    let t = "2018-10-30T17:42:13.25+02:00";
    let p = choice(t.len() as u64) as usize;
    let (a, b) = (&t[..p], &t[p + 1..]);
    try_load(&dated(&match n {
        0 => t[..p].into(),
        1 => format!("{a}{}{b}", any_char()),
        _ => format!("{a}{}{}", any_char(), &t[p..]),
    }));
}

/// a whole file of n arbitrary characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_text(n: u64) {
    try_load(&sym::text(n as usize, ANY));
}
/// a data section of n arbitrary characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_data(n: u64) {
    try_data(&sym::text(n as usize, ANY));
}
/// a record of n arbitrary characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_record(n: u64) {
    let t = sym::text(n as usize, ANY);
    match choice(3) {
        0 => try_data(&format!("#1={t};")),
        1 => try_data(&format!("#1=IFCWALL({t});")),
        _ => try_data(&format!("#{t}=IFCX(1);")),
    }
}
const SINGLE: usize = 14;
/// single values read from n arbitrary characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_single(n: u64) {
    let len = n as usize / SINGLE;
    let t = sym::text(len, ANY);
    sym::note(&t);
    fn go<T: IFCParse>(t: &str) {
        use winnow::Parser;
        match T::parse().parse(t) {
            Ok(v) => {
                let s = v.to_string();
                cover("any.single.read");
                check(s.len() < 1000, "any.single");
            }
            Err(_) => cover("any.single.refused"),
        }
    }
    let dir = |x: String| format!("IFCDIRECTION(({x},1.));");
    match n as usize % SINGLE {
        0 => go::<Direction2D>(&dir(t)),
        1 => go::<GeometricRepresentationContext>(&format!("IFCGEOMETRICREPRESENTATIONCONTEXT($,'Model',{t},$,#1,$);")),
        2 => go::<IfcTimestamp>(&t),
        3 => go::<Material>(&format!("IFCMATERIAL('{t}',$,$);")),
        4 => go::<Material>(&format!("IFCMATERIAL({t},$,$);")),
        5 if len == 3 => go::<IfcGloballyUniqueId>(&format!("'01234567890123456789{}'", &t[1..])),
        5 => go::<IfcGloballyUniqueId>(&format!("'0123456789012345678{t}'")),
        6 => go::<Id>(&format!("#{t}")),
        7 => go::<IfcTimestamp>(&format!("82102984{t}")),
        8 => go::<Direction2D>(&dir(format!("1.5{t}"))),
        9 => go::<Direction2D>(&dir(format!("1E{t}"))),
        10 => go::<IfcTimestamp>(&format!("-{t}")),
        11 => go::<Id>(&format!("#1844674407370955{t}")),
        12 => go::<Direction2D>(&dir(format!("-{t}.{t}E{t}"))),
        _ => go::<PropertySingleValue>(&format!("IFCPROPERTYSINGLEVALUE('a',$,IFC{t}(1.),$);")),
    }
}
/// many brackets, comments, texts or list items
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_deep(n: u64) {
    let many = [1, 10, 100, 400][choice(4) as usize];
    let m = |s: &str| s.repeat(many);
    let v = match n {
        0 => m("("),
        1 => format!("{}{}", m("("), m(")")),
        2 => m("/*"),
        3 => m("/**/"),
        4 => m("'"),
        5 => format!("({}1.)", m("1.,")),
        6 => format!("(({}1.))", m("1.,")),
        7 => m("9"),
        8 => m("IFCLABEL("),
        _ => m(" "),
    };
    let (k, i) = [("IFCWALL", 2), ("IFCCARTESIANPOINT3D", 0), ("IFCCARTESIANPOINTLIST2D", 0), ("IFCPROPERTYSINGLEVALUE", 2), ("IFCLOCALPLACEMENT", 0)][choice(5) as usize];
    match choice(2) {
        0 => try_data(&format!("#1= {}\n{DUMMY}", with(kind(k), i, &v))),
        _ => try_data(&format!("{v}#1= {}\n", full(kind(k).attrs[i]))),
    }
}
/// global ids of any length
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_guid(n: u64) {
    let g = "0123456789abcdefghijklmnopqrstuvwxyz".get(..n as usize).unwrap();
    let p = choice(n + 1) as usize;
    let c = if choice(2) == 0 { String::new() } else { any_char() };
    try_data(&format!("#1= IFCWALL('{}{c}{}',$,$,$,$,$,$,$,$);\n{DUMMY}", &g[..p], &g[p..]));
}
/// ids at and beyond the limit
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_id(n: u64) {
    let t = match n {
        0 => format!("1844674407370955{}", d(4)),
        1 => format!("1844674407370955161{}{}", d(1), d(1)),
        _ => format!("00000000000000000000{}", d(1)),
    };
    try_data(&format!("#{t}= IFCX(1);\n#1= {}\n{DUMMY}", with(kind("IFCLOCALPLACEMENT"), 1, &format!("#{t}"))));
}
/// two neighbouring characters of a record replaced
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_bytes(n: u64) {
    let r = format!("#1={}", full_record(&KINDS[n as usize]));
    let p = choice(r.len() as u64 - 1) as usize;
    try_data(&format!("{}{}{}\n{DUMMY}", &r[..p], sym::text(2, ANY), &r[p + 2..]));
}
/// an attribute with three arbitrary characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_values(n: u64) {
    let k = &KINDS[n as usize];
    let i = choice(k.attrs.len() as u64) as usize;
    try_data(&format!("#1= {}\n{DUMMY}", with(k, i, &sym::text(3, ANY))));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_header_bytes(_: u64) {
    let p = choice(WHOLE.len() as u64 - 1) as usize;
    try_load(&format!("{}{}{}", &WHOLE[..p], sym::text(2, ANY), &WHOLE[p + 2..]));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any_more(n: u64) {
    match n {
        0 => try_load(&sym::text(5, ANY)),
        1 => try_data(&sym::text(5, ANY)),
        2 => try_data(&format!("#1={};", sym::text(4, ANY))),
        _ => try_data(&format!("#1=IFCWALL({});", sym::text(4, ANY))),
    }
}
