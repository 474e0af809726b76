//! Building models through the builder, and an own reader of the produced text.
pub use crate::common::*;
pub use bevy_math::{DVec2, DVec3};
use std::collections::BTreeMap;

pub fn project(name: &str) -> IfcProjectBuilder {
    IfcProjectBuilder::new(
        ApplicationInfo { developer: Organization::new(None, "dev", None), version: "0.1", name: "app", short_name: "a" },
        OwnerInfo { owner: Person::empty().given_name("own"), organization_name: "org" },
        name,
    )
}

/// one record of the produced text
pub struct Rec {
    pub kw: String,
    pub at: Vec<String>,
}
pub struct File(pub BTreeMap<u64, Rec>);

/// own reading of a data section written one record per line
pub fn read(text: &str) -> File {
    let mut m = BTreeMap::new();
    let a = text.find("DATA;\n").unwrap() + 6;
    let b = text.rfind("ENDSEC;").unwrap();
    for l in text[a..b].split('\n') {
        if l.is_empty() {
            continue;
        }
        let eq = l.find('=').unwrap();
        let id: u64 = l[1..eq].parse().unwrap();
        let open = l.find('(').unwrap();
        let kw = l[eq + 1..open].trim().to_string();
        let body = &l.as_bytes()[open + 1..l.len() - 2];
        let (mut depth, mut quoted, mut at, mut cur) = (0, false, vec![], vec![]);
        for &c in body {
            if c == b'\'' {
                quoted = !quoted;
            } else if !quoted && c == b'(' {
                depth += 1;
            } else if !quoted && c == b')' {
                depth -= 1;
            }
            if c == b',' && !quoted && depth == 0 {
                at.push(String::from_utf8(std::mem::take(&mut cur)).unwrap());
            } else {
                cur.push(c);
            }
        }
        at.push(String::from_utf8(cur).unwrap());
        m.insert(id, Rec { kw, at });
    }
    File(m)
}
/// the numbers of all references in an attribute
pub fn refs(s: &str) -> Vec<u64> {
    let b = s.as_bytes();
    let (mut i, mut v) = (0, vec![]);
    while i < b.len() {
        if b[i] == b'#' {
            let mut n = 0;
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                n = n * 10 + (b[i] - b'0') as u64;
                i += 1;
            }
            v.push(n);
        } else {
            i += 1;
        }
    }
    v
}
pub fn one(s: &str) -> u64 {
    let v = refs(s);
    check(v.len() == 1, "model.one_reference");
    v[0]
}
impl File {
    pub fn at(&self, id: u64, kw: &str, what: &str) -> &Rec {
        let r = self.0.get(&id);
        check(r.is_some(), &format!("{what}.missing"));
        let r = r.unwrap();
        eq(&r.kw, kw, &format!("{what}.kind"));
        r
    }
    pub fn all(&self, kw: &str) -> Vec<(u64, &Rec)> {
        self.0.iter().filter(|(_, r)| r.kw == kw).map(|(i, r)| (*i, r)).collect()
    }
    /// the record of that kind with that name
    pub fn named(&self, kw: &str, name: &str) -> u64 {
        let q = format!("'{name}'");
        let v: Vec<u64> = self.0.iter().filter(|(_, r)| r.kw == kw && r.at[2] == q).map(|(i, _)| *i).collect();
        check(v.len() == 1, "model.named_once");
        v[0]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Link {
    Part,
    Inside,
    Voids,
    Fills,
    Type,
    Material,
    Properties,
}
use Link::*;

/// all (link, parent, child) named by the relations of a file
pub fn links(f: &File) -> Vec<(Link, u64, u64)> {
    let mut v = vec![];
    for (_, r) in f.0.iter() {
        let (k, parent, children) = match r.kw.as_str() {
            "IFCRELAGGREGATES" => (Part, 4, 5),
            "IFCRELCONTAINEDINSPATIALSTRUCTURE" => (Inside, 5, 4),
            "IFCRELVOIDSELEMENT" => (Voids, 4, 5),
            "IFCRELFILLSELEMENT" => (Fills, 4, 5),
            "IFCRELDEFINESBYTYPE" => (Type, 5, 4),
            "IFCRELASSOCIATESMATERIAL" => (Material, 5, 4),
            "IFCRELDEFINESBYPROPERTIES" => (Properties, 5, 4),
            _ => continue,
        };
        let p = refs(&r.at[parent]);
        check(p.len() == 1, "link.one_parent");
        for c in refs(&r.at[children]) {
            v.push((k, p[0], c));
        }
    }
    v.sort();
    v
}

pub type Usage = TypedId<MaterialLayerSetUsage>;

/// what was asked for: the links that have to be in the file
#[derive(Default)]
pub struct Asked {
    pub links: Vec<(Link, u64, u64)>,
    /// windows and the elements they were put into
    pub windows: Vec<(u64, u64)>,
    pub n: usize,
    /// texts are arbitrary (equal ones included), and these are the ones given
    pub named: Option<Vec<(u64, String)>>,
}
impl Asked {
    fn text(&self, d: &str) -> String {
        if self.named.is_some() { sym::text(1, b"ab") } else { d.into() }
    }
    fn called(&mut self, id: u64, name: &str) {
        if let Some(v) = &mut self.named {
            v.push((id, name.into()));
        }
    }
}
pub fn n<T: IfcType>(t: TypedId<T>) -> u64 {
    t.id().0 as u64
}
pub struct Stock {
    pub storey: u64,
    pub usage: Vec<Usage>,
    pub glass: Vec<TypedId<MaterialConstituentSet>>,
    pub wall: Vec<TypedId<WallType>>,
    pub slab: Vec<TypedId<SlabType>>,
    pub roof: Vec<TypedId<RoofType>>,
    pub window: Vec<TypedId<WindowType>>,
    pub shade: Vec<TypedId<ShadingDeviceType>>,
    pub space: Vec<TypedId<SpaceType>>,
}
pub fn square() -> Vec<DVec2> {
    vec![DVec2::new(0.0, 0.0), DVec2::new(0.0, 1.0), DVec2::new(1.0, 1.0), DVec2::new(1.0, 0.0)]
}
pub fn usage(t: &mut IfcStoreyBuilder, thickness: &[f64], a: &mut Asked) -> (TypedId<MaterialLayerSet>, Usage) {
    usage_in(t, thickness, &(0..thickness.len()).collect::<Vec<_>>(), 0, a)
}
/// layers of the given thickness, used in that order
pub fn usage_in(t: &mut IfcStoreyBuilder, thickness: &[f64], order: &[usize], lay: u64, a: &mut Asked) -> (TypedId<MaterialLayerSet>, Usage) {
    let l: Vec<_> = thickness.iter().map(|x| t.material_layer(&a.text("m"), MaterialLayer::new(*x, lay == 1).name("l"))).collect();
    let set = t.material_layer_set(order.iter().map(|k| l[*k]));
    let (axis, sense, offset) = match lay {
        2 => (LayerSetDirectionEnum::Axis3, DirectionSenseEnum::Positive, 0.0),
        3 => (LayerSetDirectionEnum::Axis1, DirectionSenseEnum::Negative, -0.125),
        4 => (LayerSetDirectionEnum::Axis2, DirectionSenseEnum::Negative, 0.25),
        _ => (LayerSetDirectionEnum::Axis2, DirectionSenseEnum::Positive, 0.0),
    };
    (set, t.material_layer_set_usage(set, axis, sense, offset))
}
/// `k` types of every kind, each with a material of its own
pub fn stock(t: &mut IfcStoreyBuilder, storey: u64, k: usize, a: &mut Asked) -> Stock {
    let mut s = Stock { storey, usage: vec![], glass: vec![], wall: vec![], slab: vec![], roof: vec![], window: vec![], shade: vec![], space: vec![] };
    for i in 0..k {
        let (set, u) = usage(t, &[0.25], a);
        let c = t.material_constituent(&a.text("g"), "c");
        s.usage.push(u);
        s.glass.push(t.material_constituent_set([c]));
        let x = a.text("wt");
        s.wall.push(t.wall_type(set, &x, WallTypeEnum::Standard));
        a.called(n(s.wall[i]), &x);
        let x = a.text("st");
        s.slab.push(t.slab_type(set, &x, SlabTypeEnum::Floor));
        a.called(n(s.slab[i]), &x);
        let x = a.text("rt");
        s.roof.push(t.roof_type(set, &x, RoofTypeEnum::FlatRoof));
        a.called(n(s.roof[i]), &x);
        let x = a.text("it");
        s.window.push(t.window_type(&x, WindowTypeEnum::Window, WindowPartitioningTypeEnum::SinglePanel));
        a.called(n(s.window[i]), &x);
        let x = a.text("dt");
        s.shade.push(t.shading_device_type(set, &x, ShadingDeviceTypeEnum::NotDefined));
        a.called(n(s.shade[i]), &x);
        let x = a.text("pt");
        s.space.push(t.space_type(&x, SpaceTypeEnum::Space));
        a.called(n(s.space[i]), &x);
        for x in [n(s.wall[i]), n(s.slab[i]), n(s.roof[i]), n(s.shade[i])] {
            a.links.push((Material, n(set), x));
        }
    }
    s
}
/// stands for the id of the k-th storey, building or site, which the builder does not hand out
pub const STOREY: u64 = 1 << 40;
pub const BUILDING: u64 = 2 << 40;
pub const SITE: u64 = 3 << 40;
pub const PROJECT: u64 = 4 << 40;
impl Asked {
    pub fn resolve(&mut self, f: &File) {
        let g = |x: u64| match x >> 40 {
            1 => f.named("IFCBUILDINGSTOREY", &format!("t{}", x & 255)),
            2 => f.named("IFCBUILDING", &format!("u{}", x & 255)),
            3 => f.named("IFCSITE", &format!("s{}", x & 255)),
            4 => f.named("IFCPROJECT", "p"),
            _ => x,
        };
        for l in self.links.iter_mut() {
            *l = (l.0, g(l.1), g(l.2));
        }
    }
    /// the file has exactly the links asked for
    pub fn verify(&self, f: &File, id: &str) {
        let got = links(f);
        for k in [Part, Inside, Voids, Fills, Type, Material, Properties] {
            let a = got.iter().filter(|l| l.0 == k).count();
            let b = self.links.iter().filter(|l| l.0 == k).count() + if k == Fills { self.windows.len() } else { 0 };
            check(a == b, &format!("{id}.{k:?}.number"));
        }
        for l in &self.links {
            let c = got.iter().filter(|g| g.0 == l.0 && (l.1 == 0 || l.1 == g.1) && (l.2 == 0 || l.2 == g.2)).count();
            check(if l.1 == 0 || l.2 == 0 { c >= 1 } else { c == 1 }, &format!("{id}.{:?}", l.0));
        }
        for (i, name) in self.named.iter().flatten() {
            eq(&f.0[i].at[2], &format!("'{name}'"), &format!("{id}.name"));
        }
        for (w, host) in &self.windows {
            let o: Vec<u64> = got.iter().filter(|g| g.0 == Fills && g.2 == *w).map(|g| g.1).collect();
            check(o.len() == 1, &format!("{id}.Fills"));
            check(got.iter().filter(|g| g.0 == Voids && g.2 == o[0]).count() == 1 && got.contains(&(Voids, *host, o[0])), &format!("{id}.window"));
        }
    }
}
pub const STEPS: u64 = 13;
/// one builder call (or a few that belong together), recording the links asked for
pub fn step(t: &mut IfcStoreyBuilder, s: &Stock, op: u64, ty: usize, mat: usize, a: &mut Asked) {
    let name = a.text(&format!("e{}", a.n));
    a.n += 1;
    let p = DVec3::new(1.0, 2.0, 0.5);
    let (u, g) = (s.usage[mat], s.glass[mat]);
    let mut l = vec![];
    match op {
        0..=5 => {
            let mut w = t.vertical_wall(u, s.wall[ty], &name, VerticalWallParameter { height: 2.0, length: 4.0, placement: p });
            let mut fills = vec![];
            if op == 1 || op == 3 {
                let x = a.text("o");
                let o = w.vertical_opening(&x, OpeningParameter { height: 0.5, length: 0.5, placement: p });
                l.push(o);
            }
            if op == 2 || op == 3 {
                let x = a.text("i");
                let i = w.window_with_opening(g, s.window[ty], &x, WindowParameter { height: 0.5, width: 0.5, placement: p }, Direction3D::from(DVec3::Z));
                fills.push(i);
            }
            if op == 4 {
                let mut b = w.add_properties(&a.text("ps"));
                let _ = b.single_property("k", IfcValue::Real(1.5.into()), None);
            }
            if op == 5 {
                let _ = w.vertical_opening("o", OpeningParameter { height: 0.5, length: 0.5, placement: p });
                w.transform(TransformParameter::default().translation(p));
            }
            let w = w.finish();
            a.called(n(w), &name);
            a.links.push((Inside, s.storey, n(w)));
            a.links.push((Type, n(s.wall[ty]), n(w)));
            a.links.push((Material, n(u), n(w)));
            for i in fills {
                a.links.push((Inside, s.storey, n(i)));
                a.links.push((Type, n(s.window[ty]), n(i)));
                a.links.push((Material, n(g), n(i)));
                // the opening it fills is not handed out
                a.links.push((Voids, n(w), 0));
                a.windows.push((n(i), n(w)));
            }
            for o in &l {
                a.links.push((Voids, n(w), n(*o)));
            }
            if op == 4 {
                a.links.push((Properties, 0, n(w)));
            }
            if op == 5 {
                a.links.push((Voids, n(w), 0));
            }
        }
        6..=8 => {
            let mut w = t.horizontal_arbitrary_slab(u, s.slab[ty], &name, HorizontalArbitrarySlabParameter { coords: square(), placement: p });
            let mut fills = vec![];
            if op == 7 {
                let x = a.text("o");
                let o = w.horizontal_arbitrary_opening(&x, HorizontalArbitraryOpeningParameter { coords: square() });
                l.push(o);
            }
            if op == 8 {
                fills.push(w.window_with_opening(g, s.window[ty], "i", WindowParameter { height: 0.5, width: 0.5, placement: p }));
                fills.push(w.horizontal_arbitrary_window_with_opening(g, s.window[ty], "i", HorizontalArbitraryWindowParameter { coords: square() }));
            }
            let w = w.finish();
            a.called(n(w), &name);
            a.links.push((Inside, s.storey, n(w)));
            a.links.push((Type, n(s.slab[ty]), n(w)));
            a.links.push((Material, n(u), n(w)));
            for i in fills {
                a.links.push((Inside, s.storey, n(i)));
                a.links.push((Type, n(s.window[ty]), n(i)));
                a.links.push((Material, n(g), n(i)));
                a.links.push((Voids, n(w), 0));
                a.windows.push((n(i), n(w)));
            }
            for o in &l {
                a.links.push((Voids, n(w), n(*o)));
            }
        }
        9 => {
            let w = t.horizontal_arbitrary_roof(u, s.roof[ty], &name, HorizontalArbitraryRoofParameter { coords: square(), placement: p });
            a.called(n(w), &name);
            a.links.push((Inside, s.storey, n(w)));
            a.links.push((Type, n(s.roof[ty]), n(w)));
            a.links.push((Material, n(u), n(w)));
        }
        10 => {
            let w = t.vertical_shading_device(u, s.shade[ty], &name, VerticalShadingDeviceParameter { height: 1.0, length: 2.0, placement: p });
            a.called(n(w), &name);
            a.links.push((Inside, s.storey, n(w)));
            a.links.push((Type, n(s.shade[ty]), n(w)));
            a.links.push((Material, n(u), n(w)));
        }
        11 => {
            let w = t.space(s.space[ty], &name, SpaceParameter { coords: square(), height: 2.5, placement: p });
            a.called(n(w), &name);
            a.links.push((Part, s.storey, n(w)));
            a.links.push((Type, n(s.space[ty]), n(w)));
        }
        _ => {
            let w = t.space(s.space[ty], &name, SpaceParameter { coords: square(), height: 2.5, placement: p });
            a.called(n(w), &name);
            a.links.push((Part, s.storey, n(w)));
            a.links.push((Type, n(s.space[ty]), n(w)));
            let mut b = t.add_properties(&a.text("ps"));
            let _ = b.single_property("k", IfcValue::Bool(BoolValue(true.into())), None);
            let set = b.finish();
            t.relate_properties_object(set, w);
            a.links.push((Properties, n(set), n(w)));
        }
    }
}
