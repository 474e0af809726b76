use crate::bld::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P18";
    job!(j, h_placed, 0..12);
    job!(j, h_shaped, 0..ELEMENTS);
    job!(j, h_shaped_among, 0..ELEMENTS);
    job!(j, h_shaped_layers, 0..4);
    job!(j, h_shaped_outline, 0..9);
}
/// a length with a symbolic digit and the given fraction
fn len(fraction: &str) -> f64 {
    format!("{}{}{}", sym::text(1, b"123456789"), sym::text(2, b"0123456789"), fraction).parse().unwrap()
}
/// a coordinate: symbolic digits, either sign
pub fn coord(k: u64) -> f64 {
    let s = if choice(2) == 1 { "-" } else { "" };
    if k == 2 {
        // below ten, perhaps below one
        return format!("{s}{}.0625", sym::text(1, b"0123456789")).parse().unwrap();
    }
    let f = [".5", ".0009765625"][k as usize];
    format!("{s}{}{}{f}", sym::text(1, b"123456789"), sym::text(2, b"0123456789")).parse().unwrap()
}
pub fn nums(s: &str) -> Vec<f64> {
    s.split(|c| matches!(c, '(' | ')' | ',')).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn same(got: &[f64], want: &[f64], id: &str) {
    check(got.len() == want.len(), id);
    for (g, w) in got.iter().zip(want) {
        feq(*g, *w, id);
    }
}
/// the placement of a product: the placement it is relative to and its location
pub fn placement(f: &File, product: u64) -> (u64, Option<u64>, Vec<f64>) {
    let id = one(&f.0[&product].at[5]);
    let p = f.at(id, "IFCLOCALPLACEMENT", "placement");
    let rel = if p.at[0] == "$" { None } else { Some(one(&p.at[0])) };
    let a = f.at(one(&p.at[1]), "IFCAXIS2PLACEMENT3D", "placement.axis");
    check(a.at[1] == "$" && a.at[2] == "$", "placement.rotated");
    let q = f.at(one(&a.at[0]), "IFCCARTESIANPOINT", "placement.location");
    (id, rel, nums(&q.at[0]))
}
/// the product lies at `at` relative to the placement of `parent`
fn lies(f: &File, product: u64, parent: Option<u64>, at: &[f64], id: &str) {
    let (_, rel, got) = placement(f, product);
    match (rel, parent) {
        (None, None) => {}
        (Some(r), Some(p)) => eq(&f.0[&p].at[5], &format!("#{r}"), &format!("{id}.parent")),
        _ => check(false, &format!("{id}.parent")),
    }
    same(&got, at, &format!("{id}.place"));
}
/// concrete unit vectors, up to rounding
fn along(got: &[f64], want: &[f64], id: &str) {
    check(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a - b).abs() < 1e-12), id);
}
pub struct Solid {
    /// outline of the profile: the sides of a rectangle or points
    pub sides: Option<[f64; 2]>,
    pub points: Vec<f64>,
    pub dim: usize,
    pub dir: Vec<f64>,
    pub depth: f64,
}
/// the body of a shape representation
pub fn solid(f: &File, rep: &Rec) -> Solid {
    eq(&rep.at[1], "'Body'", "shape.identifier");
    eq(&rep.at[2], "'SweptSolid'", "shape.type");
    let s = f.at(one(&rep.at[3]), "IFCEXTRUDEDAREASOLID", "shape.solid");
    check(s.at[1] == "$", "shape.solid.position");
    let dir = nums(&f.at(one(&s.at[2]), "IFCDIRECTION", "shape.direction").at[0]);
    let mut r = Solid { sides: None, points: vec![], dim: 0, dir, depth: s.at[3].parse().unwrap() };
    let p = &f.0[&one(&s.at[0])];
    eq(&p.at[0], ".AREA.", "shape.profile.kind");
    if p.kw == "IFCRECTANGLEPROFILEDEF" {
        let (x, y): (f64, f64) = (p.at[3].parse().unwrap(), p.at[4].parse().unwrap());
        r.sides = Some([x, y]);
        let a = f.at(one(&p.at[2]), "IFCAXIS2PLACEMENT2D", "shape.profile.axis");
        check(a.at[1] == "$", "shape.profile.rotated");
        let c = nums(&f.at(one(&a.at[0]), "IFCCARTESIANPOINT", "shape.profile.centre").at[0]);
        // one corner of the rectangle is the origin
        same(&c, &[x * 0.5, y * 0.5], "shape.profile.centre");
    } else {
        eq(&p.kw, "IFCARBITRARYCLOSEDPROFILEDEF", "shape.profile");
        let c = f.at(one(&p.at[2]), "IFCINDEXEDPOLYCURVE", "shape.curve");
        check(c.at[1] == "$", "shape.curve.segments");
        let l = &f.0[&one(&c.at[0])];
        r.dim = if l.kw == "IFCCARTESIANPOINTLIST2D" { 2 } else { 3 };
        check(r.dim == 2 || l.kw == "IFCCARTESIANPOINTLIST3D", "shape.points");
        r.points = nums(&l.at[0]);
    }
    r
}
/// the shape representations of a product
pub fn reps(f: &File, product: u64) -> Vec<u64> {
    let d = f.at(one(&f.0[&product].at[6]), "IFCPRODUCTDEFINITIONSHAPE", "shape");
    refs(&d.at[2])
}
fn body(f: &File, product: u64, axis: Option<[f64; 3]>, wraps: &[Wrap], id: &str) -> Solid {
    let mut r = reps(f, product);
    for w in wraps.iter().rev() {
        for x in r.iter_mut() {
            *x = unwrapped(f, *x, w, id);
        }
    }
    check(r.len() == 1 + axis.is_some() as usize, "shape.representations");
    for x in &r {
        f.at(*x, "IFCSHAPEREPRESENTATION", "shape.representation");
    }
    if let Some(d) = axis {
        let a = &f.0[&r[1]];
        eq(&a.at[1], "'Axis'", "shape.axis.identifier");
        eq(&a.at[2], "'Curve2D'", "shape.axis.type");
        let p = refs(&f.at(one(&a.at[3]), "IFCPOLYLINE", "shape.axis.line").at[0]);
        check(p.len() == 2, "shape.axis.points");
        same(&nums(&f.0[&p[0]].at[0]), &[0.0; 3], "shape.axis.start");
        along(&nums(&f.0[&p[1]].at[0]), &d, "shape.axis.end");
    }
    solid(f, &f.0[&r[0]])
}
fn boxed(f: &File, product: u64, axis: Option<[f64; 3]>, sides: [f64; 2], dir: [f64; 3], depth: f64, wraps: &[Wrap], id: &str) {
    let s = body(f, product, axis, wraps, id);
    check(s.sides.is_some(), &format!("{id}.profile"));
    same(&s.sides.unwrap(), &sides, &format!("{id}.sides"));
    along(&s.dir, &dir, &format!("{id}.direction"));
    feq(s.depth, depth, &format!("{id}.depth"));
}
fn swept(f: &File, product: u64, axis: Option<[f64; 3]>, points: &[f64], dim: usize, dir: [f64; 3], depth: f64, wraps: &[Wrap], id: &str) {
    let s = body(f, product, axis, wraps, id);
    check(s.sides.is_none() && s.dim == dim, &format!("{id}.profile"));
    same(&s.points, points, &format!("{id}.points"));
    along(&s.dir, &dir, &format!("{id}.direction"));
    feq(s.depth, depth, &format!("{id}.depth"));
}
pub const O: [f64; 3] = [0.0; 3];
pub const X: [f64; 3] = [1.0, 0.0, 0.0];
pub const Y: [f64; 3] = [0.0, 1.0, 0.0];
pub const Z: [f64; 3] = [0.0, 0.0, 1.0];
/// directions as requested and of length one
const DIRS: [([f64; 3], [f64; 3]); 4] = [([0.0, 0.0, 2.0], Z), ([0.0, -1.0, 0.0], [0.0, -1.0, 0.0]), ([3.0, 0.0, 4.0], [0.6, 0.0, 0.8]), ([4.0, 0.0, 0.0], X)];
pub fn v3(a: [f64; 3]) -> DVec3 {
    DVec3::new(a[0], a[1], a[2])
}
fn v2(a: &[f64]) -> Vec<DVec2> {
    a.chunks(2).map(|c| DVec2::new(c[0], c[1])).collect()
}
fn w3(a: &[f64]) -> Vec<DVec3> {
    a.chunks(3).map(|c| DVec3::new(c[0], c[1], c[2])).collect()
}
/// sites, buildings and storeys
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_placed(n: u64) {
    let v = [coord(0), coord(1), coord(2)];
    let g = |k: u64| if n % 3 == k { v } else { [k as f64, 2.0, 0.5] };
    let big = n / 3;
    let mut b = project("p");
    {
        let mut s = b.new_site("s0", v3(g(0)));
        let mut u = s.new_building("u0", v3(g(1)));
        let _ = u.new_storey("t0", g(2)[1]);
        if big & 1 == 1 {
            let _ = u.new_storey("t1", g(2)[2]);
        }
        drop(u);
        if big & 2 == 2 {
            let mut u = s.new_building("u1", v3(g(1)));
            let _ = u.new_storey("t2", 4.5);
        }
    }
    let f = read(&b.build());
    let id = |k: &str, n: &str| f.named(k, n);
    let (s0, u0) = (id("IFCSITE", "s0"), id("IFCBUILDING", "u0"));
    lies(&f, s0, None, &g(0), "site");
    lies(&f, u0, Some(s0), &g(1), "building");
    lies(&f, id("IFCBUILDINGSTOREY", "t0"), Some(u0), &[0.0, 0.0, g(2)[1]], "storey");
    if big & 1 == 1 {
        lies(&f, id("IFCBUILDINGSTOREY", "t1"), Some(u0), &[0.0, 0.0, g(2)[2]], "storey");
    }
    if big & 2 == 2 {
        let u1 = id("IFCBUILDING", "u1");
        lies(&f, u1, Some(s0), &g(1), "building");
        lies(&f, id("IFCBUILDINGSTOREY", "t2"), Some(u1), &[0.0, 0.0, 4.5], "storey");
    }
}
pub const ELEMENTS: u64 = 18;
/// what an element was asked to be
#[derive(Clone)]
pub enum Asked18 {
    Box([f64; 2], [f64; 3], f64),
    Sweep(Vec<f64>, usize, [f64; 3], f64),
}
pub struct Want {
    pub id: u64,
    /// 0: the storey, 1: the opening it fills
    pub parent: u64,
    pub at: [f64; 3],
    pub axis: Option<[f64; 3]>,
    pub shape: Asked18,
    pub what: &'static str,
    /// transforms applied, the latest last
    pub wraps: Vec<Wrap>,
    /// those applied to the opening made for a window
    pub opening: Vec<Wrap>,
}
/// one transform of an element
#[derive(Clone)]
pub struct Wrap {
    pub origin: [f64; 3],
    pub to: [f64; 3],
    pub axes: [[f64; 3]; 3],
}
/// a transform asked for
pub struct Move {
    pub param: TransformParameter,
    pub wrap: Wrap,
}
impl Move {
    /// the transform of something attached to the transformed element at `at`
    fn attached(&self, at: [f64; 3]) -> Wrap {
        let t = self.wrap.to;
        Wrap { origin: at, to: [t[0] - at[0], t[1] - at[1], t[2] - at[2]], axes: self.wrap.axes }
    }
}
/// the representation wrapped by one mapped item
fn unwrapped(f: &File, r: u64, w: &Wrap, id: &str) -> u64 {
    let rep = f.at(r, "IFCSHAPEREPRESENTATION", "wrap.representation");
    eq(&rep.at[2], "'MappedRepresentation'", "wrap.type");
    let item = f.at(one(&rep.at[3]), "IFCMAPPEDITEM", "wrap.item");
    let map = f.at(one(&item.at[0]), "IFCREPRESENTATIONMAP", "wrap.map");
    let axis = f.at(one(&map.at[0]), "IFCAXIS2PLACEMENT3D", "wrap.origin");
    check(axis.at[1] == "$" && axis.at[2] == "$", "wrap.origin.rotated");
    same(&nums(&f.at(one(&axis.at[0]), "IFCCARTESIANPOINT", "wrap.origin").at[0]), &w.origin, &format!("{id}.wrap.origin"));
    let t = f.at(one(&item.at[1]), "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", "wrap.transform");
    for (i, k) in [0, 1, 4].into_iter().enumerate() {
        along(&nums(&f.at(one(&t.at[k]), "IFCDIRECTION", "wrap.axis").at[0]), &w.axes[i], &format!("{id}.wrap.axis"));
    }
    same(&nums(&f.at(one(&t.at[2]), "IFCCARTESIANPOINT", "wrap.to").at[0]), &w.to, &format!("{id}.wrap.to"));
    for k in [3, 5, 6] {
        check(t.at[k].parse::<f64>().unwrap() == 1.0, "wrap.scale");
    }
    let inner = one(&map.at[1]);
    let i = f.at(inner, "IFCSHAPEREPRESENTATION", "wrap.wrapped");
    // the same representation, of the same context
    eq(&rep.at[1], &i.at[1], &format!("{id}.wrap.identifier"));
    eq(&rep.at[0], &i.at[0], &format!("{id}.wrap.context"));
    inner
}
/// numbers for one element: symbolic ones or given ones
pub struct Num {
    pub h: f64,
    pub l: f64,
    pub at: [f64; 3],
    pub inner: [f64; 3],
    pub dir: ([f64; 3], [f64; 3]),
    pub c2: Vec<f64>,
    pub c3: Vec<f64>,
}
pub fn plain(k: f64) -> Num {
    Num {
        h: 2.0 + k,
        l: 5.0 + k,
        at: [1.0 + k, 0.5, k],
        inner: [0.25 + k, 0.0, 1.5],
        dir: DIRS[0],
        c2: vec![0.0, 0.0, 7.0 + k, 0.5, 6.0, 8.5 + k],
        c3: vec![0.0, 0.0, 0.0, 7.0 + k, 0.5, 1.0, 6.0, 8.5 + k, 2.5],
    }
}
/// builds element `k` of thickness `t`
pub fn element(st: &mut IfcStoreyBuilder, s: &Stock, k: u64, m: usize, t: f64, q: &Num, tr: Option<&Move>, w: &mut Vec<Want>) {
    let (u, g, wt, sl) = (s.usage[m], s.glass[0], s.wall[0], s.slab[0]);
    let mut add = |id, parent, at: [f64; 3], axis, shape, what| {
        let (mut wraps, mut opening) = (vec![], vec![]);
        if let (Some(m), 0..=14 | 17) = (tr, k) {
            wraps.push(match parent {
                0 => m.wrap.clone(),
                1 => m.attached(if matches!(shape, Asked18::Sweep(..)) { O } else { q.inner }),
                _ => m.attached(at),
            });
            if parent == 1 {
                opening = wraps.clone();
            }
        }
        w.push(Want { id, parent, at, axis, shape, what, wraps, opening })
    };
    // where in the sequence of calls the transform is asked for does not matter
    macro_rules! early {
        ($b:expr) => {
            if let Some(m) = tr {
                if EARLY.with(|c| c.get()) {
                    $b.transform(m.param.clone());
                }
            }
        };
    }
    macro_rules! late {
        ($b:expr) => {
            if let Some(m) = tr {
                if !EARLY.with(|c| c.get()) {
                    $b.transform(m.param.clone());
                }
            }
        };
    }
    let rect = OpeningParameter { height: q.h, length: q.l, placement: v3(q.inner) };
    let win = WindowParameter { height: q.h, width: q.l, placement: v3(q.inner) };
    // c2 of a wall in the plane y = 0
    let up: Vec<f64> = q.c2.chunks(2).flat_map(|c| [c[0], 0.0, c[1]]).collect();
    match k {
        0 | 3 | 4 | 5 | 17 => {
            let mut b = st.vertical_wall(u, wt, "w", VerticalWallParameter { height: q.h, length: q.l, placement: v3(q.at) });
            early!(b);
            let mut inner = vec![];
            if k == 3 || k == 17 {
                inner.push((n(b.vertical_opening("o", rect)), Z, "opening"));
            }
            if k == 4 {
                let p = CustomDirectionOpeningParameter { height: q.h, length: q.l, placement: v3(q.inner), direction: v3(q.dir.0) };
                inner.push((n(b.opening("o", p)), q.dir.1, "opening"));
            }
            let mut i = None;
            if k == 5 || k == 17 {
                i = Some(b.window_with_opening(g, s.window[0], "i", win, Direction3D::from(v3(q.dir.0))));
            }
            late!(b);
            let h = n(b.finish());
            add(h, 0, q.at, Some(X), Asked18::Box([q.l, t], Z, q.h), "wall");
            for (o, d, what) in inner {
                add(o, h, q.inner, None, Asked18::Box([q.l, t], d, q.h), what);
            }
            if let Some(i) = i {
                // parent: the opening it fills
                add(n(i), 1, O, None, Asked18::Box([q.l, t], q.dir.1, q.h), "window");
            }
        }
        1 => {
            let mut b = st.vertical_arbitrary_wall(u, wt, "w", VerticalArbitraryWallParameter { coords: v2(&q.c2), placement: v3(q.at) });
            early!(b);
            late!(b);
            add(n(b.finish()), 0, q.at, Some(X), Asked18::Sweep(up, 3, Y, t), "wall");
        }
        2 => {
            let mut b = st.arbitrary_wall(u, wt, "w", ArbitraryWallParameter { coords: w3(&q.c3), direction: v3(q.dir.0), placement: v3(q.at) });
            early!(b);
            late!(b);
            let id = n(b.finish());
            // the axis runs along the wall: direction x Z
            let d = q.dir.1;
            let a = [d[1], -d[0], 0.0];
            let len = (a[0] * a[0] + a[1] * a[1]).sqrt();
            add(id, 0, q.at, Some([a[0] / len, a[1] / len, 0.0]), Asked18::Sweep(q.c3.clone(), 3, q.dir.1, t), "wall");
        }
        6 | 9 | 10 | 12 | 13 => {
            let mut b = st.horizontal_arbitrary_slab(u, sl, "s", HorizontalArbitrarySlabParameter { coords: v2(&q.c2), placement: v3(q.at) });
            early!(b);
            let c: Vec<f64> = q.c2.iter().rev().cloned().collect();
            let mut inner = vec![];
            match k {
                9 => inner.push((n(b.rect_opening("o", rect)), false, q.inner, Asked18::Box([q.l, q.h], Z, t), "opening")),
                10 => inner.push((n(b.horizontal_arbitrary_opening("o", HorizontalArbitraryOpeningParameter { coords: v2(&c) })), false, O, Asked18::Sweep(c, 2, Z, t), "opening")),
                12 => inner.push((n(b.window_with_opening(g, s.window[0], "i", win)), true, O, Asked18::Box([q.l, q.h], Z, t), "window")),
                13 => inner.push((n(b.horizontal_arbitrary_window_with_opening(g, s.window[0], "i", HorizontalArbitraryWindowParameter { coords: v2(&c) })), true, O, Asked18::Sweep(c, 2, Z, t), "window")),
                _ => {}
            }
            late!(b);
            let h = n(b.finish());
            add(h, 0, q.at, None, Asked18::Sweep(q.c2.clone(), 2, Z, t), "slab");
            for (o, filling, at, shape, what) in inner {
                add(o, if filling { 1 } else { h }, at, None, shape, what);
            }
        }
        7 => {
            let (a, b2) = (DVec2::new(q.c2[0], q.c2[1]), DVec2::new(q.c2[0] + 3.0, q.c2[1] - 4.0));
            let mut b = st.vertical_slab(u, sl, "s", VerticalSlabParameter { start: a, end: b2, height: q.h, placement: v3(q.at) });
            early!(b);
            let p = vec![a.x, a.y, q.h, a.x, a.y, 0.0, b2.x, b2.y, 0.0, b2.x, b2.y, q.h];
            // (start - end) x Z = (-3, 4, 0) x Z = (4, 3, 0)
            late!(b);
            add(n(b.finish()), 0, q.at, None, Asked18::Sweep(p, 3, [0.8, 0.6, 0.0], t), "slab");
        }
        8 | 11 | 14 => {
            let mut b = st.arbitrary_slab(u, sl, "s", ArbitrarySlabParameter { coords: w3(&q.c3), direction: v3(q.dir.0), placement: v3(q.at) });
            early!(b);
            let c: Vec<f64> = q.c3.iter().rev().cloned().collect();
            let d = q.dir.1;
            let mut inner = vec![];
            if k == 11 {
                inner.push((n(b.arbitrary_opening("o", ArbitraryOpeningParameter { coords: w3(&c) })), false, O, Asked18::Sweep(c.clone(), 3, d, t), "opening"));
                inner.push((n(b.rect_opening("o", rect)), false, q.inner, Asked18::Box([q.l, q.h], d, t), "opening"));
            }
            if k == 14 {
                inner.push((n(b.arbitrary_window_with_opening(g, s.window[0], "i", ArbitraryWindowParameter { coords: w3(&c) })), true, O, Asked18::Sweep(c.clone(), 3, d, t), "window"));
                inner.push((n(b.window_with_opening(g, s.window[0], "i", win)), true, O, Asked18::Box([q.l, q.h], d, t), "window"));
            }
            late!(b);
            let h = n(b.finish());
            add(h, 0, q.at, None, Asked18::Sweep(q.c3.clone(), 3, d, t), "slab");
            for (o, filling, at, shape, what) in inner {
                add(o, if filling { 1 } else { h }, at, None, shape, what);
            }
        }
        15 => {
            let r = st.horizontal_arbitrary_roof(u, s.roof[0], "r", HorizontalArbitraryRoofParameter { coords: v2(&q.c2), placement: v3(q.at) });
            add(n(r), 0, q.at, None, Asked18::Sweep(q.c2.clone(), 2, Z, t), "roof");
        }
        _ => {
            let d = st.vertical_shading_device(u, s.shade[0], "d", VerticalShadingDeviceParameter { height: q.h, length: q.l, placement: v3(q.at) });
            // lies on its side: length x height, as thick as its layers
            add(n(d), 0, q.at, None, Asked18::Box([q.l, q.h], Z, t), "shading");
            let p = st.space(s.space[0], "p", SpaceParameter { coords: v2(&q.c2), height: q.h, placement: v3(q.inner) });
            add(n(p), 0, q.inner, None, Asked18::Sweep(q.c2.clone(), 2, Z, q.h), "space");
        }
    }
}
pub fn verify(f: &File, w: &[Want]) {
    let storey = f.named("IFCBUILDINGSTOREY", "t0");
    for x in w {
        let mut parent = match x.parent {
            0 => storey,
            p => p,
        };
        if x.parent == 1 {
            let o: Vec<u64> = f.all("IFCRELFILLSELEMENT").iter().filter(|(_, r)| refs(&r.at[5]).contains(&x.id)).map(|(_, r)| one(&r.at[4])).collect();
            check(o.len() == 1, "window.opening");
            parent = o[0];
        }
        lies(f, x.id, Some(parent), &x.at, x.what);
        match &x.shape {
            Asked18::Box(s, d, t) => boxed(f, x.id, x.axis, *s, *d, *t, &x.wraps, x.what),
            Asked18::Sweep(p, dim, d, t) => swept(f, x.id, x.axis, p, *dim, *d, *t, &x.wraps, x.what),
        }
        if x.parent == 1 {
            // the opening made for a window has its dimensions
            let s = x;
            let host = f.all("IFCRELVOIDSELEMENT").iter().filter(|(_, r)| one(&r.at[5]) == parent).count();
            check(host == 1, "window.host");
            let (wall, at) = (f.0[&one(&f.all("IFCRELVOIDSELEMENT").iter().find(|(_, r)| one(&r.at[5]) == parent).unwrap().1.at[4])].kw == "IFCWALL", WINDOW.with(|c| *c.borrow()));
            match &s.shape {
                Asked18::Box(a, d, t) => {
                    boxed(f, parent, None, *a, if wall { Z } else { *d }, *t, &x.opening, "window.opening");
                    same(&placement(f, parent).2, &at, "window.opening.place");
                }
                Asked18::Sweep(p, dim, d, t) => {
                    swept(f, parent, None, p, *dim, *d, *t, &x.opening, "window.opening");
                    same(&placement(f, parent).2, &O, "window.opening.place");
                }
            }
        }
    }
}
std::thread_local! { pub static EARLY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
std::thread_local! { pub static WINDOW: std::cell::RefCell<[f64; 3]> = const { std::cell::RefCell::new([0.0; 3]) }; }
/// symbolic numbers; `vary` selects which of them
fn numbers(vary: u64) -> Num {
    let mut q = plain(0.0);
    match vary {
        0 => {
            q.h = len(".0009765625");
            q.l = len(".25");
        }
        1 => q.at = [coord(0), coord(1), coord(2)],
        2 => q.inner = [coord(0), coord(1), coord(2)],
        3 => {
            q.c2[2] = coord(0);
            q.c2[5] = coord(1);
            q.c3[0] = coord(0);
            q.c3[5] = coord(1);
            q.c3[7] = coord(2);
        }
        4 => q.dir = DIRS[1 + choice(3) as usize],
        _ => {
            let v = [0.0625, 0.0, 1000000.5, 123456789.0][choice(4) as usize];
            match choice(3) {
                0 => q.h = v,
                1 => q.l = v,
                _ => q.inner[1] = -v,
            }
        }
    }
    q
}
pub fn build(f: impl FnOnce(&mut IfcStoreyBuilder)) -> File {
    let mut b = project("p");
    {
        let mut s = b.new_site("s0", DVec3::ZERO);
        let mut u = s.new_building("u0", DVec3::ZERO);
        let mut t = u.new_storey("t0", 2.5);
        f(&mut t);
    }
    read(&b.build())
}
/// one element, symbolic numbers
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shaped(k: u64) {
    let mut w = vec![];
    let vary = choice(6);
    let mut q = numbers(vary);
    if k == 2 && q.dir.1 == Z {
        // along the vertical the axis of such a wall has no direction
        q.dir = DIRS[1];
    }
    WINDOW.with(|c| *c.borrow_mut() = q.inner);
    let f = build(|t| {
        let st = stock(t, STOREY, 1, &mut Asked::default());
        element(t, &st, k, 0, 0.25, &q, None, &mut w);
    });
    verify(&f, &w);
}
/// among other elements, of materials of other thicknesses
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shaped_among(k: u64) {
    sym::hash_seed(choice(2) * 777 + 1);
    let mut w = vec![];
    let mut q = plain(0.0);
    if k == 2 {
        q.dir = DIRS[1];
    }
    WINDOW.with(|c| *c.borrow_mut() = q.inner);
    let f = build(|t| {
        let mut st = stock(t, STOREY, 1, &mut Asked::default());
        let thick = [0.25, 0.5, 1.125];
        for x in &thick[1..] {
            let u = usage(t, &[*x], &mut Asked::default()).1;
            st.usage.push(u);
        }
        let m = choice(3) as usize;
        let other = choice(6);
        let o = choice(3) as usize;
        let mut ignored = vec![];
        // the other element: a wall, slab with opening, ...
        let p = [0, 3, 9, 5, 12, 6][other as usize];
        let mut r = plain(3.0);
        r.inner = q.inner;
        let first = choice(2) == 0;
        if first {
            element(t, &st, p, o, thick[o], &r, None, &mut ignored);
        }
        element(t, &st, k, m, thick[m], &q, None, &mut w);
        if !first {
            element(t, &st, p, o, thick[o], &r, None, &mut ignored);
        }
        w.extend(ignored);
    });
    verify(&f, &w);
}
/// materials of several layers: as thick as all together
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shaped_layers(n: u64) {
    let k = [0, 3, 6, 12, 15, 16, 5][choice(7) as usize];
    let d: Vec<f64> = (0..n).map(|i| if i == 0 { len(".5") } else { [0.25, 0.75, 2.5][i as usize - 1] }).collect();
    // each once, from the last to the first, and some of them again
    let order: Vec<usize> = match if n > 1 { choice(4) } else { 0 } {
        0 => (0..n as usize).collect(),
        1 => (0..n as usize).rev().collect(),
        2 => vec![0, 1, 0],
        _ => vec![1, 1],
    };
    // however the layers are laid
    let lay = choice(5);
    let mut w = vec![];
    let q = plain(0.0);
    WINDOW.with(|c| *c.borrow_mut() = q.inner);
    let sum = order.iter().fold(0.0, |a, k| a + d[*k]);
    let f = build(|t| {
        let mut st = stock(t, STOREY, 1, &mut Asked::default());
        st.usage[0] = usage_in(t, &d, &order, lay, &mut Asked::default()).1;
        element(t, &st, k, 0, sum, &q, None, &mut w);
    });
    verify(&f, &w);
}
/// outlines of 0..5 points
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shaped_outline(n: u64) {
    let k = [1, 2, 6, 8, 10, 11, 13, 14, 16][n as usize];
    let points = [0, 1, 2, 3, 4, 5, 33][choice(7) as usize];
    let mut q = plain(0.0);
    q.dir = DIRS[3];
    let at = if points == 0 { 0 } else { (choice(points.min(5) as u64) as usize * 7) % points };
    let x = coord(0);
    q.c2 = (0..2 * points).map(|i| if i == 2 * at + 1 { x } else { i as f64 }).collect();
    q.c3 = (0..3 * points).map(|i| if i == 3 * at + 1 { x } else { i as f64 }).collect();
    // closed, or a point twice
    if points > 2 {
        let to = [None, Some(points - 1), Some(1)][choice(3) as usize];
        if let Some(to) = to {
            q.c2.copy_within(0..2, 2 * to);
            q.c3.copy_within(0..3, 3 * to);
        }
    }
    let mut w = vec![];
    WINDOW.with(|c| *c.borrow_mut() = q.inner);
    let f = build(|t| {
        let st = stock(t, STOREY, 1, &mut Asked::default());
        element(t, &st, k, 0, 0.25, &q, None, &mut w);
    });
    verify(&f, &w);
}
