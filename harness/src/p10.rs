use crate::common::*;
use crate::spec::{self, *};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P10";
    job!(j, h_query_parts, 0..16);
    job!(j, h_query_contents, 0..8);
    job!(j, h_query_voids, 0..4);
    job!(j, h_query_type, 0..5);
    job!(j, h_query_layers, 0..4);
    job!(j, h_query_constituents, 0..4);
    job!(j, h_query_projects, 0..4);
    job!(j, h_query_long, 0..6);
}
/// a record of that kind with some attributes given
pub fn rec(id: u64, kw: &str, given: &[(usize, &str)]) -> (u64, String) {
    let k = kind(kw);
    let a: Vec<String> = k.attrs.iter().enumerate().map(|(i, a)| given.iter().find(|g| g.0 == i).map(|g| g.1.to_string()).unwrap_or_else(|| spec::plain(*a, "90"))).collect();
    (id, format!("{}({});", keyword(k), a.join(",")))
}
fn named(id: u64, kw: &str) -> (u64, String) {
    let at = if kw == "IFCMATERIALCONSTITUENT" { 0 } else if kw == "IFCMATERIALLAYER" { 3 } else { 2 };
    rec(id, kw, &[(at, &format!("'n{id}'"))])
}
pub struct Model(pub Vec<(u64, String)>);
impl Model {
    pub fn load(&mut self) -> IfcExtractor {
        self.0.push((90, "IFCNOSUCHTHING($);".into()));
        self.0.sort();
        let d: String = self.0.iter().map(|(i, r)| format!("#{i}= {r}\n")).collect();
        let f = load(&d);
        check(f.is_some(), "query.rejected");
        IfcExtractor::from(f.unwrap())
    }
    pub fn text(&self, id: u64) -> &str {
        &self.0.iter().find(|r| r.0 == id).unwrap().1
    }
    /// the query gave the records of these ids
    fn same(&self, got: &[String], want: &[u64], id: &str) {
        check(got.len() == want.len(), &format!("{id}.number"));
        for (g, w) in got.iter().zip(want) {
            eq(g, self.text(*w), &format!("{id}.record"));
        }
    }
}
/// one of the ids, chosen by a symbolic digit in the text; ids share their first digit
pub fn any(ids: &[u64]) -> (String, u64) {
    let d: Vec<u8> = ids.iter().map(|i| b'0' + (i % 10) as u8).collect();
    let c = sym::of(&d);
    let s = format!("#{}{}", ids[0] / 10, c as char);
    let k = ids.iter().find(|i| (**i % 10) as u8 + b'0' == c).unwrap();
    (s, *k)
}
/// 0..=`most` symbolic ids
pub fn some(ids: &[u64], most: u64) -> (String, Vec<u64>) {
    let k = choice(most + 1);
    let v: Vec<(String, u64)> = (0..k).map(|_| any(ids)).collect();
    (format!("({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(",")), v.into_iter().map(|x| x.1).collect())
}
/// ids of the relations: in front of or behind the objects, in the order they are asked for
fn rel_ids() -> [u64; 3] {
    [[1, 2, 3], [8, 71, 100]][choice(2) as usize]
}
fn parts<P: IfcType, C: IfcType + std::fmt::Display>(ps: [&str; 2], c: &str) {
    let others = ["IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCSPACE"];
    let o = others.iter().position(|x| *x == c).unwrap();
    let mut m = Model(vec![named(11, ps[0]), named(12, ps[1]), named(13, ps[0])]);
    m.0.extend([named(21, c), named(22, others[(o + 1) % 4]), named(23, c)]);
    let ids = rel_ids();
    let mut rels = vec![];
    for i in 0..2 {
        let (a, at) = any(&[11, 12, 13]);
        let (b, list) = some(&[21, 22, 23], 2 - i);
        m.0.push(rec(ids[i as usize], "IFCRELAGGREGATES", &[(4, &a), (5, &b)]));
        rels.push((at, list));
    }
    // another relation of the same objects
    if ps[0] != "IFCPROJECT" {
        m.0.push(rec(60, "IFCRELCONTAINEDINSPATIALSTRUCTURE", &[(5, "#11"), (4, "(#11,#13)")]));
    }
    m.0.push(rec(61, "IFCRELDEFINESBYPROPERTIES", &[(5, "#11"), (4, "(#21,#23)")]));
    let f = m.load();
    for of in [11, 13, 12] {
        let mut want = vec![];
        for (at, list) in &rels {
            if *at == of {
                want.extend(list.iter().cloned().filter(|x| *x != 22));
            }
        }
        let got: Vec<(u64, String)> = f.relations_of::<P, C>(TypedId::new(Id(of as usize))).map(|(i, r)| (i.id().0 as u64, r.to_string())).collect();
        check(got.iter().map(|g| g.0).collect::<Vec<_>>() == want, "parts.ids");
        m.same(&got.into_iter().map(|g| g.1).collect::<Vec<_>>(), &want, "parts");
    }
    // an object which is only ever a part has no parts
    for i in [21, 22, 23] {
        check(f.relations_of::<C, C>(TypedId::new(Id(i))).next().is_none(), "parts.of-a-part");
        check(f.relations_of::<C, P>(TypedId::new(Id(i))).next().is_none(), "parts.whole-of-a-part");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_parts(n: u64) {
    let p = ["IFCPROJECT", "IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY"];
    macro_rules! c {
        ($t:ty) => {{
            let ps = [p[n as usize / 4], p[(n as usize / 4 + 1) % 4]];
            match n % 4 {
                0 => parts::<$t, Site>(ps, "IFCSITE"),
                1 => parts::<$t, Building>(ps, "IFCBUILDING"),
                2 => parts::<$t, Storey>(ps, "IFCBUILDINGSTOREY"),
                _ => parts::<$t, Space>(ps, "IFCSPACE"),
            }
        }};
    }
    match n / 4 {
        0 => c!(Project),
        1 => c!(Site),
        2 => c!(Building),
        _ => c!(Storey),
    }
}
fn contents<S: Structure>(s: &str) {
    let mut m = Model(vec![named(11, s), named(12, s), named(13, "IFCBUILDING")]);
    m.0.extend([named(21, "IFCWALL"), named(22, "IFCSLAB"), named(23, "IFCWINDOW")]);
    let ids = rel_ids();
    let mut want = [vec![], vec![], vec![]];
    for i in 0..2 {
        let (a, at) = any(&[11, 12, 13]);
        let (b, list) = some(&[21, 22, 23], 2 - i);
        m.0.push(rec(ids[i as usize], "IFCRELCONTAINEDINSPATIALSTRUCTURE", &[(5, &a), (4, &b)]));
        want[at as usize - 11].extend(list);
    }
    m.0.push(rec(60, "IFCRELDEFINESBYPROPERTIES", &[(5, "#11"), (4, "(#21,#23)")]));
    m.0.push(rec(61, "IFCRELASSOCIATESMATERIAL", &[(5, "#90"), (4, "(#11)")]));
    let f = m.load();
    for (of, want) in want.iter().enumerate() {
        let got: Vec<u64> = f.contained_structures(TypedId::<S>::new(Id(11 + of))).map(|i| i.0 as u64).collect();
        check(got == *want, "contents");
    }
    for i in [21, 22, 23] {
        check(f.contained_structures(TypedId::<S>::new(Id(i))).next().is_none(), "contents.of-a-content");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_contents(n: u64) {
    match n {
        0 => contents::<Site>("IFCSITE"),
        1 => contents::<Building>("IFCBUILDING"),
        2 => contents::<Storey>("IFCBUILDINGSTOREY"),
        3 => contents::<Wall>("IFCWALL"),
        4 => contents::<Slab>("IFCSLAB"),
        5 => contents::<Roof>("IFCROOF"),
        6 => contents::<Window>("IFCWINDOW"),
        _ => contents::<Door>("IFCDOOR"),
    }
}
fn voids<S: Structure>(s: &str) {
    let mut m = Model(vec![named(11, s), named(12, s), named(13, "IFCBUILDING")]);
    m.0.extend([named(21, "IFCOPENINGELEMENT"), named(22, "IFCOPENINGELEMENT"), named(23, "IFCOPENINGELEMENT")]);
    let ids = rel_ids();
    let mut want = [vec![], vec![], vec![]];
    for i in ids {
        let (a, at) = any(&[11, 12, 13]);
        let (b, o) = if i == ids[0] { any(&[21, 22, 23]) } else { any(&[21, 22]) };
        m.0.push(rec(i, "IFCRELVOIDSELEMENT", &[(4, &a), (5, &b)]));
        want[at as usize - 11].push(o);
    }
    m.0.push(rec(60, "IFCRELFILLSELEMENT", &[(4, "#23"), (5, "#11")]));
    let f = m.load();
    for (of, want) in want.iter().enumerate() {
        let got: Vec<String> = f.related_voids(TypedId::<S>::new(Id(11 + of))).map(|o| o.to_string()).collect();
        m.same(&got, want, "voids");
    }
    for i in [21, 22, 23] {
        check(f.related_voids(TypedId::<OpeningElement>::new(Id(i))).next().is_none(), "voids.of-an-opening");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_voids(n: u64) {
    match n {
        0 => voids::<Wall>("IFCWALL"),
        1 => voids::<Slab>("IFCSLAB"),
        2 => voids::<Building>("IFCBUILDING"),
        _ => voids::<Window>("IFCWINDOW"),
    }
}
fn types<S: Structure, T: IfcType + std::fmt::Display>(s: &str, t: &str)
where
    IfcExtractor: TypeRelation<S, T>,
{
    let mut m = Model(vec![named(11, s), named(12, s), named(13, s)]);
    m.0.extend([named(21, t), named(22, t)]);
    let ids = rel_ids();
    let mut want = [None, None, None];
    for i in 0..3 {
        let (b, list) = if i == 2 { ("(#13,#11)".into(), vec![13, 11]) } else { some(&[11, 12, 13], 2 - i) };
        let (a, at) = any(&[21, 22]);
        m.0.push(rec(ids[i as usize], "IFCRELDEFINESBYTYPE", &[(5, &a), (4, &b)]));
        for x in list {
            let w: &mut Option<u64> = &mut want[x as usize - 11];
            *w = w.or(Some(at));
        }
    }
    // named by relations of other kinds
    m.0.push(rec(60, "IFCRELDEFINESBYPROPERTIES", &[(5, "#21"), (4, "(#11)")]));
    m.0.push(rec(4, "IFCRELDEFINESBYPROPERTIES", &[(5, "#22"), (4, "(#11)")]));
    let f = m.load();
    for (of, want) in want.iter().enumerate() {
        if let Some(w) = want {
            let got: &T = TypeRelation::<S, T>::related_type(&f, TypedId::new(Id(11 + of)));
            m.same(&[got.to_string()], &[*w], "type");
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_type(n: u64) {
    match n {
        0 => types::<Wall, WallType>("IFCWALL", "IFCWALLTYPE"),
        1 => types::<Slab, SlabType>("IFCSLAB", "IFCSLABTYPE"),
        2 => types::<Roof, RoofType>("IFCROOF", "IFCROOFTYPE"),
        3 => types::<Window, WindowType>("IFCWINDOW", "IFCWINDOWTYPE"),
        _ => types::<Door, DoorType>("IFCDOOR", "IFCDOORTYPE"),
    }
}
/// materials: layers through usages (`usage`), constituents through constituent sets
fn materials(m: &mut Model, s: &str, usage: bool) -> [Vec<u64>; 2] {
    m.0.extend([named(11, s), named(12, s), named(13, "IFCSPACE")]);
    m.0.extend([named(31, "IFCMATERIALLAYER"), named(32, "IFCMATERIALLAYER")]);
    m.0.extend([named(41, "IFCMATERIALCONSTITUENT"), named(42, "IFCMATERIALCONSTITUENT")]);
    let pool: &[u64] = if usage { &[31, 32] } else { &[41, 42] };
    let first = [vec![], vec![pool[1]], vec![pool[1], pool[0], pool[1]]][choice(3) as usize].clone();
    let a = format!("({})", first.iter().map(|i| format!("#{i}")).collect::<Vec<_>>().join(","));
    let (b, second) = (format!("(#{})", pool[0]), vec![pool[0]]);
    if usage {
        m.0.push(rec(51, "IFCMATERIALLAYERSET", &[(0, &a)]));
        m.0.push(rec(52, "IFCMATERIALLAYERSET", &[(0, &b)]));
        m.0.push(rec(21, "IFCMATERIALLAYERSETUSAGE", &[(0, "#51")]));
        m.0.push(rec(22, "IFCMATERIALLAYERSETUSAGE", &[(0, "#52")]));
        m.0.push(rec(23, "IFCMATERIALCONSTITUENTSET", &[(2, "(#41)")]));
    } else {
        m.0.push(rec(21, "IFCMATERIALCONSTITUENTSET", &[(2, &a)]));
        m.0.push(rec(22, "IFCMATERIALCONSTITUENTSET", &[(2, &b)]));
        m.0.push(rec(52, "IFCMATERIALLAYERSET", &[(0, "(#31)")]));
        m.0.push(rec(23, "IFCMATERIALLAYERSETUSAGE", &[(0, "#52")]));
    }
    m.0.push(rec(24, "IFCMATERIAL", &[]));
    let ids = [8, 71];
    let mut want = [vec![], vec![]];
    for i in 0..2 {
        let (b, list) = some(&[11, 12], 2 - i);
        let (a, at) = any(&[21, 22, 23, 24]);
        m.0.push(rec(ids[i as usize], "IFCRELASSOCIATESMATERIAL", &[(5, &a), (4, &b)]));
        for of in [11, 12] {
            if list.contains(&of) {
                match at {
                    21 => want[of as usize - 11].extend(first.iter().cloned()),
                    22 => want[of as usize - 11].extend(second.iter().cloned()),
                    _ => {}
                }
            }
        }
    }
    m.0.push(rec(60, "IFCRELDEFINESBYTYPE", &[(5, "#21"), (4, "(#11)")]));
    want
}
fn layers<S: Structure>(s: &str) {
    let mut m = Model(vec![]);
    let want = materials(&mut m, s, true);
    let f = m.load();
    for (of, want) in want.iter().enumerate() {
        let got: Vec<String> = f.related_materials(TypedId::<S>::new(Id(11 + of))).map(|o| o.to_string()).collect();
        m.same(&got, want, "layers");
    }
    // the material is not made of itself, nor is another object
    for i in [13, 21, 22, 31, 41, 51, 52] {
        check(f.related_materials(TypedId::<S>::new(Id(i))).next().is_none(), "layers.of-another");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_layers(n: u64) {
    match n {
        0 => layers::<Wall>("IFCWALL"),
        1 => layers::<Slab>("IFCSLAB"),
        2 => layers::<Roof>("IFCROOF"),
        _ => layers::<ShadingDevice>("IFCSHADINGDEVICE"),
    }
}
fn constituents<S: Structure>(s: &str) {
    let mut m = Model(vec![]);
    let want = materials(&mut m, s, false);
    let f = m.load();
    for (of, want) in want.iter().enumerate() {
        let got: Vec<String> = f.related_constiuents(TypedId::<S>::new(Id(11 + of))).map(|o| o.to_string()).collect();
        m.same(&got, want, "constituents");
    }
    // the material is not made of itself, nor is another object
    for i in [13, 21, 22, 31, 41, 51, 52] {
        check(f.related_constiuents(TypedId::<S>::new(Id(i))).next().is_none(), "constituents.of-another");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_constituents(n: u64) {
    match n {
        0 => constituents::<Window>("IFCWINDOW"),
        1 => constituents::<Door>("IFCDOOR"),
        2 => constituents::<Wall>("IFCWALL"),
        _ => constituents::<Slab>("IFCSLAB"),
    }
}
/// n projects among other objects
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_projects(n: u64) {
    let mut m = Model(vec![]);
    let mut want = vec![];
    for i in 0..4 {
        let id = 11 + i;
        if i < n {
            let kw = if choice(2) == 0 { "IFCSITE" } else { "IFCPROJECT" };
            m.0.push(named(id, kw));
            if kw == "IFCPROJECT" {
                want.push(id);
            }
        }
    }
    let f = m.load();
    let got: Vec<(u64, String)> = f.projects().map(|(i, r)| (i.id().0 as u64, r.to_string())).collect();
    check(got.iter().map(|g| g.0).collect::<Vec<_>>() == want, "projects.ids");
    m.same(&got.into_iter().map(|g| g.1).collect::<Vec<_>>(), &want, "projects");
}

/// long lists, relations with ids of different lengths, two elements at any place of the list exchanged
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_query_long(n: u64) {
    let mut m = Model(vec![]);
    let k = [17, 40][choice(2) as usize];
    let kw = ["IFCSPACE", "IFCWALL", "IFCOPENINGELEMENT", "IFCWALL", "IFCMATERIALLAYER", "IFCMATERIALCONSTITUENT"][n as usize];
    let mut list: Vec<u64> = (0..k).map(|i| 1000 + (i * 7) % k).collect();
    for i in &list {
        m.0.push(named(*i, kw));
    }
    let at = choice(k - 1) as usize;
    list.swap(at, at + 1);
    // in two relations of the one and one of the other object
    let cut = choice(3) as usize * 8;
    let (a, rest) = list.split_at(cut);
    let (b, c) = rest.split_at(rest.len() - 1);
    let text = |l: &[u64]| format!("({})", l.iter().map(|i| format!("#{i}")).collect::<Vec<_>>().join(","));
    let (a, b, c) = (a.to_vec(), b.to_vec(), c.to_vec());
    let one: Vec<u64> = a.iter().chain(&b).cloned().collect();
    let of = ["IFCBUILDINGSTOREY", "IFCBUILDINGSTOREY", "IFCWALL", "IFCWALLTYPE", "IFCWALL", "IFCWINDOW"][n as usize];
    m.0.extend([named(51, of), named(52, of)]);
    match n {
        0 | 1 | 3 => {
            let (rel, x, y) = [("IFCRELAGGREGATES", 4, 5), ("IFCRELCONTAINEDINSPATIALSTRUCTURE", 5, 4), ("", 0, 0), ("IFCRELDEFINESBYTYPE", 5, 4)][n as usize];
            m.0.push(rec(9, rel, &[(x, "#51"), (y, &text(&a))]));
            m.0.push(rec(70, rel, &[(x, "#52"), (y, &text(&c))]));
            m.0.push(rec(100, rel, &[(x, "#51"), (y, &text(&b))]));
        }
        2 => {
            for (i, o) in one.iter().enumerate() {
                m.0.push(rec(60 + i as u64 + if i > 5 { 1000000 } else { 0 }, "IFCRELVOIDSELEMENT", &[(4, "#51"), (5, &format!("#{o}"))]));
            }
            m.0.push(rec(500, "IFCRELVOIDSELEMENT", &[(4, "#52"), (5, &format!("#{}", c[0]))]));
        }
        _ => {
            for (i, l) in [&a, &b, &c].iter().enumerate() {
                let (i, t) = (i as u64, text(l));
                if n == 4 {
                    m.0.push(rec(60 + i, "IFCMATERIALLAYERSET", &[(0, &t)]));
                    m.0.push(rec(80 + i, "IFCMATERIALLAYERSETUSAGE", &[(0, &format!("#6{i}"))]));
                } else {
                    m.0.push(rec(80 + i, "IFCMATERIALCONSTITUENTSET", &[(2, &t)]));
                }
                m.0.push(rec([9, 70, 100][i as usize], "IFCRELASSOCIATESMATERIAL", &[(5, &format!("#8{i}")), (4, ["(#51)", "(#51)", "(#52)"][i as usize])]));
            }
        }
    }
    let f = m.load();
    for (of, want) in [(51, one), (52, c)] {
        let got: Vec<String> = match n {
            0 => f.relations_of::<Storey, Space>(TypedId::new(Id(of))).map(|x| x.1.to_string()).collect(),
            1 => f.contained_structures(TypedId::<Storey>::new(Id(of))).map(|i| m.text(i.0 as u64).to_string()).collect(),
            2 => f.related_voids(TypedId::<Wall>::new(Id(of))).map(|o| o.to_string()).collect(),
            3 => want
                .iter()
                .map(|w| {
                    let t: &WallType = TypeRelation::<Wall, WallType>::related_type(&f, TypedId::new(Id(*w as usize)));
                    eq(&t.to_string(), m.text(of as u64), "long.type");
                    m.text(*w).to_string()
                })
                .collect(),
            4 => f.related_materials(TypedId::<Wall>::new(Id(of))).map(|o| o.to_string()).collect(),
            _ => f.related_constiuents(TypedId::<Window>::new(Id(of))).map(|o| o.to_string()).collect(),
        };
        m.same(&got, &want, "long");
    }
}
