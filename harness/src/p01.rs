use crate::common::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P01";
    job!(j, h_guid_text, 0..1);
    job!(j, h_guid_new, 0..4);
    job!(j, h_guid_two, 0..1);
    job!(j, h_guid_invalid, 0..4);
}

const ALPHA: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$";

/// a valid 22-character text in a file is written back unchanged
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_guid_text(_: u64) {
    sym::merge(2);
    let mut t = sym::text(1, b"0123");
    t.push_str(&sym::text(21, ALPHA));
    let d = format!("#1= IFCWALL('{}',$,$,$,$,$,$,$,$);\n", t);
    roundtrip(&d, "guid");
    // and it is read as an id
    if let Some(f) = load(&d) {
        check(f.data.find_all_of_type::<Wall>().count() == 1, "guid.not_read");
    }
}

/// the published layout: 8 bits in two characters, then 24 bits in four
fn encode(b: &[u8; 16]) -> String {
    let mut v = vec![ALPHA[(b[0] >> 6) as usize], ALPHA[(b[0] & 63) as usize]];
    for c in b[1..].chunks(3) {
        let n = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32;
        for s in [18, 12, 6, 0] {
            v.push(ALPHA[(n >> s & 63) as usize]);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// the random id (version 4) made of the last 16 random bytes
fn drawn(skip: u64) -> [u8; 16] {
    let mut b = [0; 16];
    for i in 0..16 {
        // the first byte drawn is the lowest one
        b[i as usize] = sym::drawn(skip + i);
    }
    b[6] = b[6] & 0x0f | 0x40;
    b[8] = b[8] & 0x3f | 0x80;
    b
}
fn guid_of(s: &str, id: usize, kw: &str) -> String {
    let p = format!("#{id}= {kw}('");
    let i = s.find(&p).expect("record") + p.len();
    s[i..i + 22].into()
}
/// a new object's id, for any 122 random bits, is written in the published layout
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_guid_new(n: u64) {
    sym::merge(2);
    sym::random(true);
    let mut f = IFC::default();
    let kw = match n {
        0 => {
            f.data.insert_new(Building::new("b"));
            "IFCBUILDING"
        }
        1 => {
            f.data.insert_new(Wall::new("w"));
            "IFCWALL"
        }
        2 => {
            f.data.insert_new(WallType::new("t", WallTypeEnum::Shear));
            "IFCWALLTYPE"
        }
        _ => {
            f.data.insert_new(Project::new("p"));
            "IFCPROJECT"
        }
    };
    let b = drawn(0);
    let g = encode(&b);
    let s = f.data.to_string();
    eq(&guid_of(&s, 1, kw), &g, "guid.new");
    check(&s[6 + 4 + kw.len() + 2 + 22..][..1] == "'", "guid.new");
}
/// two new objects share their id only if the random bits are the same
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_guid_two(_: u64) {
    sym::merge(2);
    sym::random(true);
    let mut f = IFC::default();
    f.data.insert_new(Building::new("a"));
    f.data.insert_new(Building::new("b"));
    let (a, b) = (drawn(16), drawn(0));
    let s = f.data.to_string();
    let (x, y) = (guid_of(&s, 1, "IFCBUILDING"), guid_of(&s, 2, "IFCBUILDING"));
    eq(&x, &encode(&a), "guid.two");
    eq(&y, &encode(&b), "guid.two");
}
/// texts of another length or with other characters are no ids: the record is kept as it is
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_guid_invalid(n: u64) {
    let g = match n {
        0 => format!("0{}", sym::text(20, ALPHA)),
        1 => format!("0{}", sym::text(22, ALPHA)),
        2 => String::new(),
        _ => {
            let p = choice(21) as usize;
            format!("1{}{}{}", "ab_$XYZ0123456789abcdefg".get(..p).unwrap(), sym::text(1, b"!\"#%&()*+,-./:;<=>?@[\\]^`{|}~ "), "Qq$_5678901234567890abc".get(..20 - p).unwrap())
        }
    };
    roundtrip(&format!("#1= IFCBUILDING('{g}',$,$,$,$,$,$,$,$,$,$,$);\n#2= IFCX(1);\n"), "guid.invalid");
}
