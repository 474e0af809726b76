use crate::common::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P14";
    job!(j, h_header_text, 0..7);
    job!(j, h_header_texts, 0..3);
    job!(j, h_header_long, 0..7);
    job!(j, h_header_many, 0..5);
    job!(j, h_header_lists, 0..4);
    job!(j, h_header_items, 0..4);
    job!(j, h_header_views, 0..4);
    job!(j, h_header_time, 0..6);
    job!(j, h_header_leap, 0..1);
    job!(j, h_header_offset, 0..2);
    job!(j, h_header_schema, 0..1);
    job!(j, h_header_schemas, 0..4);
    job!(j, h_header_dollar, 0..1);
    job!(j, h_header_footer, 0..1);
}

struct H {
    desc: String,
    name: String,
    time: String,
    author: Vec<String>,
    org: Vec<String>,
    rest: [String; 3],
    schema: Vec<String>,
}
impl Default for H {
    fn default() -> H {
        H {
            desc: "('')".into(),
            name: "'n.ifc'".into(),
            time: "2018-10-30T17:42:13".into(),
            author: vec!["au".into()],
            org: vec!["or".into()],
            rest: ["pre".into(), "sys".into(), "auth".into()],
            schema: vec!["IFC4".into()],
        }
    }
}
fn list(v: &[String]) -> String {
    let mut s = String::from("(");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("'{x}'"));
    }
    s + ")"
}
impl H {
    fn text(&self) -> String {
        format!(
            "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION({},'2;1');\nFILE_NAME({},'{}',{},{},'{}','{}','{}');\nFILE_SCHEMA({});\nENDSEC;\n",
            self.desc, self.name, self.time, list(&self.author), list(&self.org), self.rest[0], self.rest[1], self.rest[2], list(&self.schema)
        )
    }
}
const BODY: &str = "DATA;\n#1= IFCMATERIAL('m',$,$);\nENDSEC;\n";
/// the header `given` is saved as `want`, and that again
fn header(given: &H, want: &H, what: &str) {
    let t = format!("{}{BODY}{}", given.text(), "END-ISO-10303-21;\n");
    sym::note(&t);
    let Ok(f) = IFC::from_str(&t) else {
        check(false, what);
        return;
    };
    eq(&f.header.to_string(), &want.text(), what);
    let s = f.to_string();
    check(s.starts_with(&want.text()), what);
    match IFC::from_str(&s) {
        Err(_) => check(false, what),
        Ok(g) => {
            check(g.header == f.header, what);
            eq(&g.to_string(), &s, what);
        }
    }
}
const CHARS: &[u8] = b"ABCXYZabcxyz0159_.,()$*#=-+;\"/\\&%!?<>@[]{}|^~: \t\n";

fn content() -> String {
    match choice(9) {
        0 => String::new(),
        1 => sym::text(1, CHARS),
        2 => sym::text(3, CHARS),
        3 => format!("{}''{}", sym::text(1, CHARS), sym::text(1, CHARS)),
        4 => "''".into(),
        5 => "''''".into(),
        6 => "C:\\Users\\J\u{fc}rg\\M\u{20ac}.ifc".into(),
        7 => "\\X2\\00FC\\X0\\".into(),
        _ => "/* no comment */ $".into(),
    }
}
/// one text with arbitrary contents
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_text(n: u64) {
    let h = |t: String| {
        let mut h = H::default();
        match n {
            0 => h.name = format!("'{t}'"),
            1 => h.author[0] = t,
            2 => h.org[0] = t,
            3 => h.rest[0] = t,
            4 => h.rest[1] = t,
            5 => h.rest[2] = t,
            _ => h.author = vec![t, "second".into()],
        }
        h
    };
    let t = content();
    header(&h(t.clone()), &h(t), "header.text");
}
const LENGTHS: [usize; 6] = [30, 62, 126, 254, 1022, 4095];
/// a long text with arbitrary ends
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_long(n: u64) {
    let l = LENGTHS[choice(6) as usize];
    let t = format!("{}{}{}", sym::text(1, CHARS), "long text.".repeat(l / 10 + 1).split_at(l).0, sym::text(choice(3) as usize, CHARS));
    let mut h = H::default();
    match n {
        0 => h.name = format!("'{t}'"),
        1 => h.author = vec!["first".into(), t],
        2 => h.org[0] = t,
        3 => h.rest[0] = t,
        4 => h.rest[1] = t,
        5 => h.rest[2] = t,
        _ => {
            let inner = "long item.".repeat(l / 10 + 1).split_at(l).0.to_string();
            h.desc = format!("('V [{}{inner}{}]')", sym::text(1, ITEM), sym::text(1, ITEM));
        }
    }
    let want = H { desc: h.desc.clone(), name: h.name.clone(), author: h.author.clone(), org: h.org.clone(), rest: h.rest.clone(), ..H::default() };
    header(&h, &want, "header.long");
}
/// many entries, one of them arbitrary
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_many(n: u64) {
    let k = [5, 17, 40][choice(3) as usize];
    let at = [0, k / 2, k - 1][choice(3) as usize];
    let v = |own: &[u8]| -> Vec<String> { (0..k).map(|i| if i == at { sym::text(2, own) } else { format!("x{}", i % 3) }).collect() };
    let mut h = H::default();
    match n {
        0 => h.author = v(CHARS),
        1 => h.org = v(CHARS),
        2 => h.desc = format!("('V [{}]')", v(ITEM).join(", ")),
        3 => h.desc = list(&v(b"ABxyz019_-").iter().map(|x| format!("{x} [{x}, b]")).collect::<Vec<_>>()),
        _ => h.schema = (0..k).map(|i| ["IFC2X3", "IFC4", "IFC4X3_ADD2"][if i == at { choice(3) as usize } else { i % 3 }].into()).collect(),
    }
    let want = H { desc: h.desc.clone(), author: h.author.clone(), org: h.org.clone(), schema: h.schema.clone(), ..H::default() };
    header(&h, &want, "header.many");
}
/// all texts different
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_texts(n: u64) {
    let w = || sym::text(n as usize + 1, b"abcdefghijklm 0123456789");
    let h = H {
        name: format!("'{}'", w()),
        author: vec![w(), w()],
        org: vec![w(), w(), w()],
        rest: [w(), w(), w()],
        ..H::default()
    };
    let want = H { name: h.name.clone(), author: h.author.clone(), org: h.org.clone(), rest: h.rest.clone(), ..H::default() };
    header(&h, &want, "header.texts");
}
/// authors and organizations
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_lists(n: u64) {
    let mk = |n: u64| -> Vec<String> {
        (0..n).map(|_| match choice(4) {
            0 => String::new(),
            1 => sym::text(1, CHARS),
            2 => "x','y".replace('\'', "''"),
            _ => "J\u{fc}rg".into(),
        }).collect()
    };
    let (a, o) = (mk(n), mk(choice(4)));
    let h = H { author: a.clone(), org: o.clone(), ..H::default() };
    header(&h, &H { author: a, org: o, ..H::default() }, "header.lists");
}
const ITEM: &[u8] = b"ABCxyz0159_.()$*#=-+;\"/\\&%!?<>@[{}|^~:";
/// n items of a view definition in any layout; empty items are dropped
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_items(n: u64) {
    let mut given = String::new();
    let mut want = String::new();
    for i in 0..n {
        if i > 0 {
            given.push(',');
        }
        let (g, w) = match choice(6) {
            0 => (String::new(), String::new()),
            1 => (" ".into(), String::new()),
            2 => {
                let t = sym::text(2, ITEM);
                (format!(" {t}  "), t)
            }
            3 => {
                let t = format!("{} {}", sym::text(1, ITEM), sym::text(1, ITEM));
                (t.clone(), t)
            }
            4 => ("it''s".into(), "it''s".into()),
            _ => ("\tDrawing Scale: 1.0 (GUID)\n".into(), "Drawing Scale: 1.0 (GUID)".into()),
        };
        given.push_str(&g);
        if !w.is_empty() {
            if !want.is_empty() {
                want.push_str(", ");
            }
            want.push_str(&w);
        }
    }
    let name = ["ViewDefinition", "Option", "x_1.2:3-4"][choice(3) as usize];
    let gap = [" ", "", "\n\t"][choice(3) as usize];
    let g = H { desc: format!("('{name}{gap}[{given}]')"), ..H::default() };
    header(&g, &H { desc: format!("('{name} [{want}]')"), ..H::default() }, "header.items");
}
/// n view definitions
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_views(n: u64) {
    let mut v = vec![];
    for _ in 0..n {
        let name = match choice(3) {
            0 => sym::text(2, b"ABCXYZabcxyz0189_-.:"),
            1 => "ViewDefinition".into(),
            _ => "\u{dc}bersicht".into(),
        };
        let items = match choice(3) {
            0 => String::new(),
            1 => sym::text(1, ITEM),
            _ => format!("{}, b, {}", sym::text(1, ITEM), sym::text(1, ITEM)),
        };
        v.push(format!("{name} [{items}]"));
    }
    let d = if n == 0 { "('')".into() } else { list(&v) };
    let h = || H { desc: d.clone(), ..H::default() };
    header(&h(), &h(), "header.views");
}
fn two(lo: u64, hi: u64) -> (String, u64) {
    let v = sym::u64_in(lo, hi);
    (format!("{}{}", v / 10, v % 10), v)
}
/// time stamps: n chooses the part that takes all its values
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_time(n: u64) {
    let t = match n {
        0 => {
            let y = sym::u64_in(0, 99);
            let c = ["00", "19", "20", "99"][choice(4) as usize];
            format!("{c}{}{}-03-01T00:00:00", y / 10, y % 10)
        }
        1 => format!("20{}-{}-28T23:59:59", ["00", "23", "24"][choice(3) as usize], ["01", "02", "03", "04", "05", "06", "07", "08", "09", "10", "11", "12"][choice(12) as usize]),
        2 => {
            let m = ["01", "02", "04", "12"][choice(4) as usize];
            let y = ["1900", "2000", "2023", "2024"][choice(4) as usize];
            let max = match (m, y) {
                ("02", "2000" | "2024") => 29,
                ("02", _) => 28,
                ("04", _) => 30,
                _ => 31,
            };
            let v = 1 + choice(max);
            let d = format!("{}{}", v / 10, v % 10);
            format!("{y}-{m}-{d}T12:00:01")
        }
        3 => format!("2018-10-30T{}:42:13", two(0, 23).0),
        4 => format!("2018-12-31T00:{}:00", two(0, 59).0),
        _ => format!("1970-01-01T23:59:{}", two(0, 59).0),
    };
    let h = || H { time: t.clone(), ..H::default() };
    header(&h(), &h(), "header.time");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_leap(_: u64) {
    let t = ["2016-12-31T23:59:60", "0000-01-01T00:00:00", "9999-12-31T23:59:59", "2000-02-29T00:00:00", "1969-12-31T23:59:59"][choice(5) as usize];
    let h = || H { time: t.into(), ..H::default() };
    header(&h(), &h(), "header.time.edge");
}
/// explicit time zones: the same point in time
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_offset(n: u64) {
    let (z, w) = if n == 0 {
        [("Z", "2024-02-29T23:30:05"), ("z", "2024-02-29T23:30:05"), ("+00:00", "2024-02-29T23:30:05"), ("-00:30", "2024-03-01T00:00:05"), ("+23:30", "2024-02-29T00:00:05"), ("-01:00", "2024-03-01T00:30:05")][choice(6) as usize]
    } else {
        [("+01:00", "2024-02-29T22:30:05"), ("-12:00", "2024-03-01T11:30:05")][choice(2) as usize]
    };
    let g = H { time: format!("2024-02-29T23:30:05{z}"), ..H::default() };
    header(&g, &H { time: w.into(), ..H::default() }, "header.offset");
}
const SCHEMAS: [(&str, &str); 9] = [
    ("4X3_ADD2", "IFC4X3_ADD2"),
    ("4x3_ADD2", "IFC4X3_ADD2"),
    ("2x3", "IFC2X3"),
    ("2X3", "IFC2X3"),
    ("4x2", "IFC4"),
    ("4X2", "IFC4"),
    ("4x3", "IFC4X3_ADD2"),
    ("4X3", "IFC4X3_ADD2"),
    ("4", "IFC4"),
];
fn schema() -> (String, String) {
    let (s, w) = SCHEMAS[choice(9) as usize];
    (format!("{}{s}", ["IFC", "Ifc", "ifc"][choice(3) as usize]), w.into())
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_schema(_: u64) {
    let (g, w) = schema();
    header(&H { schema: vec![g], ..H::default() }, &H { schema: vec![w], ..H::default() }, "header.schema");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_schemas(n: u64) {
    let mut g = vec![];
    let mut w = vec![];
    for _ in 0..n {
        let i = choice(4) as usize;
        let (s, c) = SCHEMAS[[0, 2, 5, 8][i]];
        g.push(format!("IFC{s}"));
        w.push(c.to_string());
    }
    header(&H { schema: g, ..H::default() }, &H { schema: w, ..H::default() }, "header.schemas");
}
/// an omitted file name is an empty one
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_dollar(_: u64) {
    header(&H { name: "$".into(), ..H::default() }, &H { name: "''".into(), ..H::default() }, "header.dollar");
}
/// the data and the end of the file are there as well
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_header_footer(_: u64) {
    let h = H { name: format!("'{}'", sym::text(2, b"ABCabc012;,'".split_last().unwrap().1)), ..H::default() };
    let t = format!("{}{BODY}{}", h.text(), "END-ISO-10303-21;\n");
    match IFC::from_str(&t) {
        Err(_) => check(false, "header.footer"),
        Ok(f) => {
            let s = f.to_string();
            eq(&s.replace("\n\n", "\n"), &t, "header.footer");
        }
    }
}
