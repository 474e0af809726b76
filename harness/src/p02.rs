use crate::common::*;
use crate::p11::with;
use crate::spec::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P02";
    job!(j, h_text_api, 0..3);
    job!(j, h_text_api, 3..4, true, 40000, 300);
    job!(j, h_text_api_ascii, 0..7);
    job!(j, h_text_api_escape, 0..7);
    job!(j, h_text_file, 0..3);
    job!(j, h_text_file, 3..4, true, 40000, 300);
    job!(j, h_text_file_ascii, 0..7);
    job!(j, h_text_file_escape, 0..7);
    job!(j, h_text_kind, 0..slots().len());
    job!(j, h_text_apostrophe, 0..3);
    job!(j, h_text_doubled, 0..2);
    job!(j, h_text_overlap, 0..2);
    job!(j, h_text_long, 0..LENGTHS.len());
}

const ESC: [(&str, &str); 7] = [
    ("\u{c4}", "00C4"),
    ("\u{e4}", "00E4"),
    ("\u{d6}", "00D6"),
    ("\u{f6}", "00F6"),
    ("\u{dc}", "00DC"),
    ("\u{fc}", "00FC"),
    ("\u{df}", "00DF"),
];
const ASCII: &[u8] = &{
    let mut s = [0u8; 95];
    let mut i = 0;
    let mut c = 32;
    while c < 127 {
        if c != b'\'' {
            s[i] = c;
            i += 1;
        }
        c += 1;
    }
    s[94] = 9;
    s
};
const HEX: &[u8] = b"0123456789ABCDEFabcdef";

/// umlauts and sharp s as escapes
fn enc(t: &str) -> String {
    let b = t.as_bytes();
    let mut v = Vec::with_capacity(b.len() * 2);
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0xc3 {
            let mut hit = false;
            for (u, e) in ESC {
                if b[i + 1] == u.as_bytes()[1] {
                    v.extend_from_slice(b"\\X2\\");
                    v.extend_from_slice(e.as_bytes());
                    v.extend_from_slice(b"\\X0\\");
                    hit = true;
                }
            }
            if hit {
                i += 2;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// escapes of umlauts and sharp s as the characters
fn dec(t: &str) -> String {
    let b = t.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b.len() >= i + 12 && &b[i + 1..i + 4] == b"X2\\" && &b[i + 8..i + 12] == b"\\X0\\" {
            let mut hit = false;
            for (u, e) in ESC {
                if &b[i + 4..i + 8] == e.as_bytes() {
                    v.extend_from_slice(u.as_bytes());
                    hit = true;
                }
            }
            if hit {
                i += 12;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// U+00C0 ..= U+00FF, umlauts and sharp s among them
fn latin() -> String {
    let mut s = String::new();
    unsafe { s.as_mut_vec() }.extend([0xc3, sym::byte(0x80, 0xbf)]);
    s
}
fn piece() -> String {
    let s = match choice(20) {
        0 => return sym::text(1, ASCII),
        1 => return latin(),
        2 => return format!("\\X2\\00{}\\X0\\", sym::text(2, HEX)),
        3 => "\\X2\\",
        4 => "\\X0\\",
        5 => "00C4",
        6 => "00DF\\X0",
        7 => "X2\\00FC",
        8 => "\\",
        9 => "\\X2\\00C4\\X0\\",
        10 => "\\X2\\00e4\\X0\\",
        11 => "\\X2\\00F600FC\\X0\\",
        12 => "\\X4\\000000E4\\X0\\",
        13 => "\\S\\D\\PE\\\\X\\E4",
        14 => "\u{e9}\u{20ac}\u{1f3e0}",
        15 => "\r\n\t",
        16 => ";\"/*#1=$",
        17 => "\u{0}\u{7f}\u{c3}\u{84}",
        18 => "a\u{308}\u{1e9e}",
        _ => " \u{c4}\u{e4}\u{d6}\u{f6}\u{dc}\u{fc}\u{df} ",
    };
    s.into()
}
/// escapes that share a backslash are not told apart (see the known findings)
fn unambiguous(t: &str) {
    sym::assume(!t.contains("\\X0\\X2\\"));
}

fn api(t: &str, what: &str) {
    sym::note(t);
    let want = dec(t);
    let text = enc(&want);
    unambiguous(&text);
    let mut f = IFC::default();
    f.data.insert_new(Material::new(t).description(t).category("c"));
    let d = format!("#1= IFCMATERIAL('{text}','{text}','c');\n");
    eq(&f.data.to_string(), &data(&d), what);
    match load(&d) {
        None => check(false, what),
        Some(f) => match f.data.find_all_of_type::<Material>().next() {
            None => check(false, what),
            Some((_, m)) => {
                eq(&m.material.custom().unwrap().0, &want, what);
                eq(&m.description.custom().unwrap().0, &want, what);
                eq(&f.data.to_string(), &data(&d), what);
            }
        },
    }
}
fn filed(k: &'static K, i: usize, t: &str, what: &str) {
    let q = |t: &str| match k.attrs[i] {
        A::OLS => format!("('{t}','b')"),
        A::Val => format!("IFCLABEL('{t}')"),
        _ => format!("'{t}'"),
    };
    let d = format!("#1= {}\n#9= IFCNOSUCHTHING(1);\n", with(k, i, &q(t)));
    let w = format!("#1= {}\n#9= IFCNOSUCHTHING(1);\n", with(k, i, &q(&enc(t))));
    match load(&d) {
        None => check(false, what),
        Some(f) => {
            check((k.is)(&f, 1), what);
            eq(&f.data.to_string(), &data(&w), what);
        }
    }
}
fn pieces(n: u64) -> String {
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(&piece());
    }
    t
}

/// API texts of n pieces
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_api(n: u64) {
    api(&pieces(n), "text.api");
}
/// API texts of n characters, each any printable ASCII character but the apostrophe
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_api_ascii(n: u64) {
    api(&sym::text(n as usize, ASCII), "text.ascii");
}
/// an umlaut escape in which character 2n and 2n+1 are arbitrary
fn escape(n: u64) -> String {
    let e = format!("\\X2\\00{}\\X0\\", ["C4", "E4", "D6", "F6", "DC", "FC", "DF"][choice(7) as usize]);
    let i = 2 * n as usize;
    let e = if i < 12 { format!("{}{}{}", &e[..i], sym::text(2, ASCII), &e[i + 2..]) } else { e };
    match choice(4) {
        0 => e,
        1 => format!("{}{e}", sym::text(1, ASCII)),
        2 => format!("{e}{}", sym::text(1, ASCII)),
        _ => format!("{}{e}{}", latin(), latin()),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_api_escape(n: u64) {
    api(&escape(n), "text.escape");
}
/// the same in a file
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_file(n: u64) {
    filed(kind("IFCMATERIAL"), 0, &pieces(n), "text.file");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_file_ascii(n: u64) {
    filed(kind("IFCMATERIAL"), 1, &sym::text(n as usize, ASCII), "text.file.ascii");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_file_escape(n: u64) {
    filed(kind("IFCMATERIAL"), 2, &escape(n), "text.file.escape");
}

fn slots() -> Vec<(&'static K, usize)> {
    let mut v = vec![];
    for k in KINDS {
        for (i, a) in k.attrs.iter().enumerate() {
            if matches!(a, A::S | A::OS | A::OLS | A::Val) {
                v.push((k, i));
            }
        }
    }
    v
}
/// every text attribute of every kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_kind(n: u64) {
    let (k, i) = slots()[n as usize];
    let t = match choice(5) {
        0 => String::new(),
        1 => format!("{}{}", sym::text(2, ASCII), latin()),
        2 => format!("{}\\X2\\00{}\\X0\\", latin(), sym::text(2, HEX)),
        3 => {
            // an apostrophe in a text: the record is kept, if only as one of unknown kind
            let t = format!("{}''{}", sym::text(choice(2) as usize, ASCII), sym::text(choice(2) as usize, ASCII));
            let t = match k.attrs[i] {
                A::OLS => [format!("('{t}','b')"), format!("('a','{t}')"), format!("('{t}')")][choice(3) as usize].clone(),
                A::Val => format!("IFCLABEL('{t}')"),
                _ => format!("'{t}'"),
            };
            roundtrip(&format!("#1= {}\n#9= IFCNOSUCHTHING(1);\n", with(k, i, &t)), "text.kind.apostrophe");
            return;
        }
        _ => piece(),
    };
    filed(k, i, &t, "text.kind");
}

/// an apostrophe in an API text is written twice ...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_apostrophe(n: u64) {
    let (a, b) = (sym::text(choice(2) as usize, ASCII), sym::text(choice(2) as usize, ASCII));
    let (t, w) = match n {
        0 => (format!("{a}'{b}"), format!("{a}''{b}")),
        1 => (format!("'{a}{b}'"), format!("''{a}{b}''")),
        _ => (format!("{a}''{b}"), format!("{a}''''{b}")),
    };
    let mut f = IFC::default();
    f.data.insert_new(Material::new(t.as_str()));
    let d = format!("#1= IFCMATERIAL('{w}',$,$);\n");
    eq(&f.data.to_string(), &data(&d), "text.apostrophe");
    // ... and read back
    let Some(f) = load(&d) else {
        check(false, "text.apostrophe");
        return;
    };
    eq(&f.data.to_string(), &data(&d), "text.apostrophe");
    match f.data.find_all_of_type::<Material>().next() {
        None => check(false, "text.apostrophe.read"),
        Some((_, m)) => eq(&m.material.custom().unwrap().0, &t, "text.apostrophe"),
    };
}
/// doubled apostrophes in a file stay as they are
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_doubled(n: u64) {
    let (a, b) = (sym::text(choice(3) as usize, ASCII), sym::text(choice(3) as usize, ASCII));
    let t = if n == 0 { format!("{a}''{b}") } else { format!("''{a}''''{b}''") };
    roundtrip(&format!("#1= IFCMATERIAL($,'{t}',$);\n"), "text.doubled");
}
/// an incomplete escape directly before an umlaut
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_overlap(n: u64) {
    let e = ["C4", "FC"][n as usize];
    let t = format!("\\X2\\00{e}\\X0\u{e4}");
    let mut f = IFC::default();
    f.data.insert_new(Material::new(t.as_str()));
    let s = f.data.to_string();
    match load(&s[6..s.len() - 8]) {
        None => check(false, "text.overlap"),
        Some(f) => match f.data.find_all_of_type::<Material>().next() {
            None => check(false, "text.overlap"),
            Some((_, m)) => check(m.material.custom().unwrap().0 == t, "text.overlap.read"),
        },
    }
}

const LENGTHS: [usize; 9] = [30, 62, 126, 254, 1022, 2047, 4095, 16383, 32766];
/// long texts: an umlaut, an escape or any two characters around the given length
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_long(n: u64) {
    let n = LENGTHS[n as usize];
    let mut t = "long text ".repeat(n / 10);
    while t.len() < n {
        t.push('z');
    }
    match choice(4) {
        0 => {}
        1 => t.push_str(&sym::text(2, ASCII)),
        2 => t.push_str(&latin()),
        _ => t.push_str(&format!("\\X2\\00{}\\X0\\", ["C4", "DF"][choice(2) as usize])),
    }
    t.push_str(["", "y", "the end"][choice(3) as usize]);
    if choice(2) == 0 {
        api(&t, "text.long");
    } else {
        filed(kind("IFCMATERIAL"), 0, &t, "text.long");
    }
}
