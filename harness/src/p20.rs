use crate::common::*;
use crate::p10::{any, rec, some};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P20";
    job!(j, h_view_axis, 0..2);
    job!(j, h_view_transform, 0..4);
    job!(j, h_view_rectangle, 0..3);
    job!(j, h_view_arbitrary, 0..8);
    job!(j, h_view_solid, 0..4);
    job!(j, h_view_mapped, 0..4);
    job!(j, h_view_shapes, 0..11);
    job!(j, h_view_items, 0..4);
    job!(j, h_view_context, 0..2);
}
/// a model whose record of interest is #10
struct M(Vec<(u64, String)>);
fn point(i: u64, d: u64) -> (u64, String) {
    rec(i, "IFCCARTESIANPOINT3D", &[(0, &if d == 3 { format!("({i}.,2.5,-0.5)") } else { format!("({i}.,2.5)") })])
}
fn dir(i: u64, d: u64) -> (u64, String) {
    rec(i, "IFCDIRECTION3D", &[(0, &if d == 3 { format!("(0.,{i}.,1.)") } else { format!("(0.,{i}.)") })])
}
impl M {
    /// points #11, #12, #13; directions #21, #22, #23 of the dimension; then #10
    fn new(d: u64) -> M {
        M((11..14).map(|i| point(i, d)).chain((21..24).map(|i| dir(i, d))).collect())
    }
    fn add(&mut self, id: u64, kw: &str, given: &[(usize, &str)]) {
        self.0.push(rec(id, kw, given));
    }
    fn load(&mut self) -> IFC {
        self.0.push((90, "IFCNOSUCHTHING($);".into()));
        self.0.sort();
        let d: String = self.0.iter().map(|(i, r)| format!("#{i}= {r}\n")).collect();
        let f = load(&d);
        check(f.is_some(), "view.rejected");
        f.unwrap()
    }
    fn is<T: std::fmt::Display>(&self, got: &T, want: u64, id: &str) {
        let text = &self.0.iter().find(|r| r.0 == want).unwrap().1;
        eq(&got.to_string(), text, id);
    }
    fn maybe<T: std::fmt::Display>(&self, got: Option<&T>, want: Option<u64>, id: &str) {
        check(got.is_some() == want.is_some(), &format!("{id}.given"));
        if let (Some(g), Some(w)) = (got, want) {
            self.is(g, w, id);
        }
    }
    fn axis2(&self, v: &MappedAxis2D, want: &(u64, Option<u64>), id: &str) {
        self.is(v.location, want.0, &format!("{id}.location"));
        self.maybe(v.local_x, want.1, &format!("{id}.x"));
    }
    fn axis3(&self, v: &MappedAxis3D, want: &(u64, Option<u64>, Option<u64>), id: &str) {
        self.is(v.location, want.0, &format!("{id}.location"));
        self.maybe(v.local_z, want.1, &format!("{id}.z"));
        self.maybe(v.local_x, want.2, &format!("{id}.x"));
    }
}
fn get<T: IfcType>(f: &IFC, id: u64) -> &T {
    f.data.get(TypedId::<T>::new(Id(id as usize)))
}
/// omitted, or one of the ids
fn opt(ids: &[u64]) -> (String, Option<u64>) {
    if choice(2) == 0 {
        return ("$".into(), None);
    }
    let (t, i) = any(ids);
    (t, Some(i))
}
/// a decimal with symbolic digits
fn num() -> (String, f64) {
    let b = [sym::of(b"123456789"), b'.', b'2', b'5'];
    let s = String::from_utf8(b.to_vec()).unwrap();
    let v = s.parse().unwrap();
    (s, v)
}
fn opt_num(given: bool) -> (String, Option<f64>) {
    if !given {
        return ("$".into(), None);
    }
    let (t, v) = num();
    (t, Some(v))
}
fn number(got: Option<f64>, want: Option<f64>, id: &str) {
    check(got.is_some() == want.is_some(), &format!("{id}.given"));
    if let (Some(g), Some(w)) = (got, want) {
        feq(g, w, id);
    }
}
const PT: &[u64] = &[11, 12, 13];
const DR: &[u64] = &[21, 22, 23];

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_axis(n: u64) {
    let mut m = M::new(n + 2);
    let (l, location) = any(PT);
    let (x, local_x) = opt(DR);
    if n == 0 {
        m.add(10, "IFCAXIS2PLACEMENT2D", &[(0, &l), (1, &x)]);
        let f = m.load();
        m.axis2(&get::<Axis2D>(&f, 10).mappings(&f), &(location, local_x), "axis");
    } else {
        let (z, local_z) = opt(DR);
        m.add(10, "IFCAXIS2PLACEMENT3D", &[(0, &l), (1, &z), (2, &x)]);
        let f = m.load();
        m.axis3(&get::<Axis3D>(&f, 10).mappings(&f), &(location, local_z, local_x), "axis");
    }
}
struct Transform {
    text: Vec<String>,
    refs: [Option<u64>; 4],
    scale: [Option<f64>; 3],
}
/// all references given or omitted freely (`free`), or all given
fn transform(free: bool, scales: u64) -> Transform {
    let o = |ids| if free { opt(ids) } else { let (t, i) = any(ids); (t, Some(i)) };
    let (x, rx) = o(DR);
    let (y, ry) = o(DR);
    let (c, rc) = o(PT);
    let (z, rz) = o(DR);
    let (s, vs) = opt_num(scales & 1 != 0);
    let (s2, v2) = opt_num(scales & 2 != 0);
    let (s3, v3) = opt_num(scales & 4 != 0);
    Transform { text: vec![x, y, c, s, z, s2, s3], refs: [rx, ry, rc, rz], scale: [vs, v2, v3] }
}
impl Transform {
    fn add(&self, m: &mut M, id: u64, kw: &str) {
        let n = if kw.ends_with("UNIFORM") { 7 } else { 5 };
        let a: Vec<(usize, &str)> = self.text[..n].iter().enumerate().map(|(i, t)| (i, t.as_str())).collect();
        m.add(id, kw, &a);
    }
}
macro_rules! same_transform {
    ($m:expr, $v:expr, $t:expr) => {
        $m.maybe($v.axis_x, $t.refs[0], "transform.x");
        $m.maybe($v.axis_y, $t.refs[1], "transform.y");
        $m.maybe($v.translation, $t.refs[2], "transform.translation");
        $m.maybe($v.axis_z, $t.refs[3], "transform.z");
        number($v.scale, $t.scale[0], "transform.scale");
    };
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_transform(n: u64) {
    let mut m = M::new(3);
    let scales = if n % 2 == 0 { choice(2) } else { [7, 1, 6][choice(3) as usize] };
    let t = transform(n < 2, scales);
    if n % 2 == 0 {
        t.add(&mut m, 10, "IFCCARTESIANTRANSFORMATIONOPERATOR3D");
        let f = m.load();
        let v = get::<CartesianTransformationOperator3D>(&f, 10).mappings(&f);
        same_transform!(m, v, t);
    } else {
        t.add(&mut m, 10, "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM");
        let f = m.load();
        let v = get::<CartesianTransformationOperator3DnonUniform>(&f, 10).mappings(&f);
        same_transform!(m, v, t);
        number(v.scale_y, t.scale[1], "transform.scale_y");
        number(v.scale_z, t.scale[2], "transform.scale_z");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_rectangle(n: u64) {
    let d = if n == 2 { 3 } else { 2 };
    let mut m = M::new(d);
    let (x, vx) = num();
    let (y, vy) = num();
    let (p, at) = if n == 0 { ("$".to_string(), None) } else { let (p, at) = any(&[31, 32]); (p, Some(at)) };
    m.add(10, "IFCRECTANGLEPROFILEDEF", &[(2, &p), (3, &x), (4, &y)]);
    let mut a2 = vec![];
    let mut a3 = vec![];
    if n > 0 {
        for i in 31..33 {
            let (l, loc) = any(PT);
            let (r, rx) = if i == 31 { opt(DR) } else { ("#22".to_string(), Some(22)) };
            if n == 1 {
                m.add(i, "IFCAXIS2PLACEMENT2D", &[(0, &l), (1, &r)]);
                a2.push((loc, rx));
            } else {
                m.add(i, "IFCAXIS2PLACEMENT3D", &[(0, &l), (1, "#23"), (2, &r)]);
                a3.push((loc, Some(23), rx));
            }
        }
    }
    let f = m.load();
    let v = get::<RectangleProfileDef>(&f, 10).mappings(&f);
    rectangle(&m, &v, vx, vy);
    match (&v.axis, at) {
        (None, None) => {}
        (Some(AxisMappings::D2(a)), Some(at)) => m.axis2(a, &a2[at as usize - 31], "rectangle.axis"),
        (Some(AxisMappings::D3(a)), Some(at)) => m.axis3(a, &a3[at as usize - 31], "rectangle.axis"),
        _ => check(false, "rectangle.axis"),
    }
}
fn rectangle(_: &M, v: &MappedRectangleProfileDef, x: f64, y: f64) {
    feq(v.x_dim, x, "rectangle.x");
    feq(v.y_dim, y, "rectangle.y");
}
fn points(p: &Points, want: &[[f64; 3]], three: bool) {
    match p {
        Points::D2(v) => {
            check(!three, "points.dimension");
            check(v.len() == want.len(), "points.number");
            for (v, w) in v.iter().zip(want) {
                feq(v.x, w[0], "points.x");
                feq(v.y, w[1], "points.y");
            }
        }
        Points::D3(v) => {
            check(three, "points.dimension");
            check(v.len() == want.len(), "points.number");
            for (v, w) in v.iter().zip(want) {
                feq(v.x, w[0], "points.x");
                feq(v.y, w[1], "points.y");
                feq(v.z, w[2], "points.z");
            }
        }
    }
}
/// point lists and polylines of both dimensions, one to four points
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_arbitrary(n: u64) {
    let three = n % 2 == 1;
    let d = if three { 3 } else { 2 };
    let mut m = M::new(d);
    let kind = [".CURVE.", ".AREA."][choice(2) as usize];
    let (c, at) = any(&[31, 32]);
    m.add(10, "IFCARBITRARYCLOSEDPROFILEDEF", &[(0, kind), (2, &c)]);
    let mut want = vec![];
    for i in 0..2u64 {
        let mut w = vec![];
        if n / 2 < 2 {
            // a polyline over symbolic points; in the second variant the other curve is a list
            let (t, ids) = some(PT, if i == 0 { 2 } else { 1 });
            let (t, ids) = if ids.is_empty() { ("(#12)".to_string(), vec![12]) } else { (t, ids) };
            w.extend(ids.iter().map(|k| [*k as f64, 2.5, -0.5]));
            if i == 0 || n / 2 == 0 {
                m.add(31 + i, "IFCPOLYLINE", &[(0, &t)]);
                want.push(w);
                continue;
            }
            w.clear();
        }
        let len = [1 + choice(4), 2][i as usize];
        let mut l = vec![];
        for k in 0..len {
            let (t, v) = if k == len / 2 { num() } else { ("7.5".to_string(), 7.5) };
            let y = k as f64;
            l.push(if three { format!("({t},{k}.,0.5)") } else { format!("({t},{k}.)") });
            w.push([v, y, 0.5]);
        }
        want.push(w);
        let l = format!("({})", l.join(","));
        let (p, list) = if n / 2 == 3 { any(&[41 + i, 45 + i]) } else { (format!("#{}", 41 + i), 41 + i) };
        m.add(31 + i, "IFCINDEXEDPOLYCURVE", &[(0, &p)]);
        m.add(list, &format!("IFCCARTESIANPOINTLIST{d}D"), &[(0, &l)]);
        if n / 2 == 3 {
            m.add(if list == 41 + i { 45 + i } else { 41 + i }, "IFCCARTESIANPOINTLIST3D", &[(0, "((9.,8.,7.))")]);
        }
    }
    let f = m.load();
    let v = get::<ArbitraryClosedProfileDef>(&f, 10).mappings(&f);
    eq(&v.profile_type.to_string(), kind, "arbitrary.type");
    points(&v.points, &want[at as usize - 31], three);
    if n / 2 == 0 {
        points(&get::<PolyLine>(&f, 31).points(&f), &want[0], three);
        points(&get::<PolyLine>(&f, 32).points(&f), &want[1], three);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_solid(n: u64) {
    let mut m = M::new(3);
    let (a, at) = any(&[31, 32, 33]);
    let (p, pos) = if n % 2 == 0 { ("$".to_string(), None) } else { let (p, at) = any(&[41, 42]); (p, Some(at)) };
    let (e, ext) = any(DR);
    let (d, vd) = num();
    m.add(10, "IFCEXTRUDEDAREASOLID", &[(0, &a), (1, &p), (2, &e), (3, &d)]);
    m.add(31, "IFCRECTANGLEPROFILEDEF", &[(3, "3.5"), (4, "4.5")]);
    m.add(32, "IFCARBITRARYCLOSEDPROFILEDEF", &[(2, "#51")]);
    m.add(33, "IFCRECTANGLEPROFILEDEF", &[(2, "#42"), (3, "4.5"), (4, "3.5")]);
    m.add(51, "IFCPOLYLINE", &[(0, "(#13,#11)")]);
    let mut w = vec![];
    for i in 41..43 {
        let (l, loc) = any(PT);
        let (r, rx) = if i == 41 && n >= 2 { opt(DR) } else { ("#22".to_string(), Some(22)) };
        m.add(i, "IFCAXIS2PLACEMENT3D", &[(0, &l), (1, "#23"), (2, &r)]);
        w.push((loc, Some(23), rx));
    }
    let f = m.load();
    let v = get::<ExtrudedAreaSolid>(&f, 10).mappings(&f);
    feq(v.depth, vd, "solid.depth");
    m.is(v.extruded_direction, ext, "solid.direction");
    match (&v.position, pos) {
        (None, None) => {}
        (Some(a), Some(at)) => m.axis3(a, &w[at as usize - 41], "solid.position"),
        _ => check(false, "solid.position"),
    }
    match (&v.profile_def, at) {
        (MappedProfileDef::Rectangle(r), 31) => {
            rectangle(&m, r, 3.5, 4.5);
            check(r.axis.is_none(), "solid.rectangle.axis");
        }
        (MappedProfileDef::Rectangle(r), 33) => {
            rectangle(&m, r, 4.5, 3.5);
            match &r.axis {
                Some(AxisMappings::D3(a)) => m.axis3(a, &w[1], "solid.rectangle.axis"),
                _ => check(false, "solid.rectangle.axis"),
            }
        }
        (MappedProfileDef::Arbitrary(p), 32) => points(&p.points, &[[13.0, 2.5, -0.5], [11.0, 2.5, -0.5]], true),
        _ => check(false, "solid.profile"),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_mapped(n: u64) {
    let mut m = M::new(3);
    let (s, source) = any(&[31, 32]);
    let (t, target) = any(&[41, 42, 43]);
    m.add(10, "IFCMAPPEDITEM", &[(0, &s), (1, &t)]);
    let mut maps = vec![];
    for i in 31..33 {
        let (o, origin) = if n % 2 == 0 || i == 31 { any(&[51, 52]) } else { ("#51".to_string(), 51) };
        let (r, repr) = if n % 2 == 1 || i == 31 { any(&[61, 62]) } else { ("#62".to_string(), 62) };
        m.add(i, "IFCREPRESENTATIONMAP", &[(0, &o), (1, &r)]);
        maps.push((origin, repr));
    }
    m.add(51, "IFCAXIS2PLACEMENT3D", &[(0, "#12"), (1, "#23")]);
    m.add(52, "IFCAXIS2PLACEMENT3D", &[(0, "#13"), (2, "#21")]);
    let axes = [(12, Some(23), None), (13, None, Some(21))];
    m.add(61, "IFCSHAPEREPRESENTATION", &[(0, "#71"), (1, "'Body'"), (3, "(#10)")]);
    m.add(62, "IFCSHAPEREPRESENTATION", &[(0, "#71"), (1, "'Axis'"), (3, "(#10)")]);
    m.add(71, "IFCGEOMETRICREPRESENTATIONCONTEXT", &[(4, "#51")]);
    let fixed = |c: &str, x: &str| Transform {
        text: [x, "$", c, "2.5", "#23", "$", "0.5"].map(String::from).to_vec(),
        refs: [Some(x[1..].parse().unwrap()), None, Some(c[1..].parse().unwrap()), Some(23)],
        scale: [Some(2.5), None, Some(0.5)],
    };
    let symbolic = || {
        let (x, rx) = any(&[21, 23]);
        let (c, rc) = opt(&[11, 13]);
        let (s, vs) = num();
        let (s3, v3) = num();
        Transform { text: vec![x, "$".into(), c, s, "$".into(), "$".into(), s3], refs: [rx.into(), None, rc, None], scale: [Some(vs), None, Some(v3)] }
    };
    let u = if n < 2 { symbolic() } else { fixed("#12", "#21") };
    let v = if n < 2 { fixed("#13", "#22") } else { symbolic() };
    let w = fixed("#11", "#23");
    u.add(&mut m, 41, "IFCCARTESIANTRANSFORMATIONOPERATOR3D");
    v.add(&mut m, 42, "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM");
    w.add(&mut m, 43, "IFCCARTESIANTRANSFORMATIONOPERATOR3D");
    let f = m.load();
    let ((axis, shape), tr) = get::<MappedItem>(&f, 10).mappings(&f);
    let (origin, repr) = maps[source as usize - 31];
    m.axis3(&axis, &axes[origin as usize - 51], "mapped.origin");
    m.is(shape, repr, "mapped.shape");
    match (tr, target) {
        (MappedTransform::Uniform(g), 41) => {
            same_transform!(m, g, u);
        }
        (MappedTransform::Uniform(g), 43) => {
            same_transform!(m, g, w);
        }
        (MappedTransform::NonUniform(g), 42) => {
            same_transform!(m, g, v);
            number(g.scale_y, v.scale[1], "transform.scale_y");
            number(g.scale_z, v.scale[2], "transform.scale_z");
        }
        _ => check(false, "mapped.transform"),
    }
}
/// representations and contexts other records can point at
fn shapes(m: &mut M) {
    for i in 61..64 {
        m.add(i, "IFCSHAPEREPRESENTATION", &[(0, "#71"), (1, ["'Body'", "'Axis'", "'Box'"][i as usize - 61]), (3, "(#51)")]);
    }
    m.add(51, "IFCPOLYLINE", &[(0, "(#11)")]);
    m.add(71, "IFCGEOMETRICREPRESENTATIONCONTEXT", &[(4, "#52")]);
    m.add(52, "IFCAXIS2PLACEMENT3D", &[(0, "#12")]);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_shapes(n: u64) {
    let mut m = M::new(3);
    shapes(&mut m);
    let kw = ["IFCWALL", "IFCSLAB", "IFCROOF", "IFCWINDOW", "IFCDOOR", "IFCOPENINGELEMENT", "IFCSHADINGDEVICE", "IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCSPACE"][n as usize];
    let (r, repr) = opt(&[31, 32]);
    m.add(10, kw, &[(6, &r)]);
    let mut lists = vec![];
    for i in 0..2 {
        let (t, l) = some(&[61, 62, 63], 3 - 2 * i);
        m.add(31 + i, "IFCPRODUCTDEFINITIONSHAPE", &[(2, &t)]);
        lists.push(l);
    }
    let f = m.load();
    macro_rules! s {
        ($t:ty) => {
            get::<$t>(&f, 10).shapes(&f)
        };
    }
    let got = match n {
        0 => s!(Wall),
        1 => s!(Slab),
        2 => s!(Roof),
        3 => s!(Window),
        4 => s!(Door),
        5 => s!(OpeningElement),
        6 => s!(ShadingDevice),
        7 => s!(Site),
        8 => s!(Building),
        9 => s!(Storey),
        _ => s!(Space),
    };
    let want: &[u64] = match repr {
        None => &[],
        Some(i) => &lists[i as usize - 31],
    };
    check(got.len() == want.len(), "shapes.number");
    for (g, w) in got.iter().zip(want) {
        m.is(*g, *w, "shapes.record");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_items(n: u64) {
    let mut m = M::new(3);
    shapes(&mut m);
    m.add(31, "IFCPOLYLINE", &[(0, "(#11,#13)")]);
    m.add(32, "IFCEXTRUDEDAREASOLID", &[(0, "#41"), (2, "#21"), (3, "3.5")]);
    m.add(33, "IFCMAPPEDITEM", &[(0, "#42"), (1, "#43")]);
    m.add(34, "IFCEXTRUDEDAREASOLID", &[(0, "#41"), (2, "#22"), (3, "4.5")]);
    m.add(35, "IFCMAPPEDITEM", &[(0, "#42"), (1, "#44")]);
    m.add(36, "IFCPOLYLINE", &[(0, "(#12)")]);
    m.add(41, "IFCRECTANGLEPROFILEDEF", &[]);
    m.add(42, "IFCREPRESENTATIONMAP", &[(0, "#52"), (1, "#62")]);
    m.add(43, "IFCCARTESIANTRANSFORMATIONOPERATOR3D", &[]);
    m.add(44, "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", &[]);
    let (t, ids) = some(if n % 2 == 0 { &[31, 32, 33] } else { &[34, 35, 36, 32] }, 4 - n / 2 * 1);
    m.add(10, "IFCSHAPEREPRESENTATION", &[(0, "#71"), (3, &t)]);
    let f = m.load();
    let s = get::<ShapeRepresentation>(&f, 10);
    let of = |k: &[u64]| ids.iter().cloned().filter(|i| k.contains(i)).collect::<Vec<_>>();
    if n < 2 {
        let got: Vec<_> = s.items(&f).collect();
        check(got.len() == ids.len(), "items.number");
        for (g, w) in got.iter().zip(&ids) {
            let kind = match g {
                ShapeItemEnum::MappedItem(_) => 1,
                ShapeItemEnum::ExtrudedAreaSolid(_) => 2,
                ShapeItemEnum::Dummy(_) => 3,
                ShapeItemEnum::Other(_) => 0,
            };
            check(kind == match w { 33 | 35 => 1, 32 | 34 => 2, _ => 0 }, "items.kind");
            m.is(g, *w, "items.record");
        }
    } else {
        macro_rules! only {
            ($t:ty, $ids:expr) => {
                let got: Vec<&$t> = s.items_of::<$t>(&f).collect();
                let want = of(&$ids);
                check(got.len() == want.len(), "items_of.number");
                for (g, w) in got.iter().zip(want) {
                    m.is(*g, w, "items_of.record");
                }
            };
        }
        only!(PolyLine, [31, 36]);
        only!(ExtrudedAreaSolid, [32, 34]);
        only!(MappedItem, [33, 35]);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_view_context(n: u64) {
    let mut m = M::new(3);
    let (c, at) = any(&[31, 32, 33, 34]);
    m.add(10, "IFCSHAPEREPRESENTATION", &[(0, &c), (3, "(#51)")]);
    m.add(51, "IFCPOLYLINE", &[(0, "(#11)")]);
    m.add(52, "IFCAXIS2PLACEMENT3D", &[(0, "#12")]);
    for i in 31..33 {
        m.add(i, "IFCGEOMETRICREPRESENTATIONCONTEXT", &[(1, &format!("'c{i}'")), (4, "#52")]);
    }
    let mut want = vec![31, 32];
    for i in 33..35 {
        let (p, parent) = if n == 0 || i == 33 { any(&[31, 32]) } else { ("#32".to_string(), 32) };
        m.add(i, "IFCGEOMETRICREPRESENTATIONSUBCONTEXT", &[(1, &format!("'s{i}'")), (6, &p)]);
        want.push(parent);
    }
    let f = m.load();
    m.is(get::<ShapeRepresentation>(&f, 10).parent_context(&f), want[at as usize - 31], "context");
}
