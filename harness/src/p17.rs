use crate::common::*;
use crate::p13::full;
use crate::spec::{self, *};
use ifc_rs::parser::IFCParse;
use std::fmt::Display;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P17";
    job!(j, h_set, 0..SETS);
    job!(j, h_create, 0..CREATES);
}
/// model, expected attribute texts and the record a setter has to store
struct W {
    f: IFC,
    old: String,
    want: Vec<String>,
    real: Vec<(usize, f64)>,
    stored: Vec<(usize, String)>,
    ids_only: bool,
}
const OLD: &str = "#3= IFCNOSUCHTHING($);\n#5= IFCMATERIAL('old',$,$);\n#9= IFCNOSUCHTHING(#3);\n";
type Set<T> = Box<dyn Fn(T, &mut W) -> T>;

fn record<T: IFCParse>(text: &str) -> T {
    match T::parse().parse(text) {
        Ok(t) => t,
        Err(_) => {
            check(false, "set.rejected");
            unreachable!()
        }
    }
}
fn member<E: IFCParse>(words: &[&'static str]) -> (E, &'static str) {
    let w = words[choice(words.len() as u64) as usize];
    (record(w), w)
}
/// attributes of a record as texts
fn attributes(r: &str) -> Vec<String> {
    let at = r.find('(').unwrap();
    let b: Vec<char> = r[at + 1..r.rfind(')').unwrap()].chars().collect();
    let mut v = vec![String::new()];
    let (mut depth, mut quoted) = (0, false);
    for c in b {
        if quoted {
            quoted = c != '\'';
        } else {
            match c {
                '\'' => quoted = true,
                '(' => depth += 1,
                ')' => depth -= 1,
                ',' if depth == 0 => {
                    v.push(String::new());
                    continue;
                }
                _ => {}
            }
        }
        v.last_mut().unwrap().push(c);
    }
    v
}
impl W {
    fn new() -> W {
        W { f: load(OLD).unwrap(), old: OLD.into(), want: vec![], real: vec![], stored: vec![], ids_only: false }
    }
    fn text(&mut self) -> (String, String) {
        let t = match choice(4) {
            0 => String::new(),
            1 => sym::text(1, b" aZ0$*./"),
            2 => format!("{}{}", sym::text(1, b" aZ0"), "abcdefghij".repeat(30)),
            _ => sym::text(2, b"aZ 0,()=;#$*"),
        };
        let q = format!("'{t}'");
        (t, q)
    }
    fn set_text(&mut self, at: usize) -> String {
        let (t, q) = self.text();
        self.want[at] = q;
        t
    }
    fn add_text(&mut self, at: usize) -> String {
        let (t, q) = self.text();
        self.add(at, q);
        t
    }
    /// the token behind the others of the list
    fn add(&mut self, at: usize, token: String) {
        let l = &self.want[at];
        self.want[at] = match l.as_str() {
            "$" | "()" => format!("({token})"),
            l => format!("{},{token})", &l[..l.len() - 1]),
        };
    }
    fn real(&mut self, at: usize) -> f64 {
        let b = [sym::of(b"123456789"), sym::of(b"0123456789"), b'.', sym::of(b"05"), b'7', b'5'];
        let mut v: f64 = String::from_utf8(b.to_vec()).unwrap().parse().unwrap();
        match choice(4) {
            0 => v = -v,
            1 => v = [0.0, 1.0, -1.0, 1e-9, 123456789.5][choice(5) as usize],
            _ => {}
        }
        self.real.retain(|r| r.0 != at);
        self.real.push((at, v));
        v
    }
    fn int(&mut self, at: usize) -> i64 {
        let v = match choice(5) {
            0 => 0,
            1 => -(sym::u64_in(10, 99) as i64),
            2 => [1, -1, 4294967296, i64::MAX, i64::MIN][choice(5) as usize],
            _ => sym::u64_in(10, 99) as i64,
        };
        self.want[at] = v.to_string();
        v
    }
    fn word<E: IFCParse>(&mut self, at: usize, words: &[&'static str]) -> E {
        let (e, w) = member(words);
        self.want[at] = w.into();
        e
    }
    /// an id, or an object that has to be stored
    fn given<T: IfcType + IFCParse>(&mut self, kw: &str) -> (IdOr<T>, String) {
        if self.ids_only || choice(2) == 0 {
            let i = sym::u64_in(10, 99) as usize;
            return (IdOr::Id(TypedId::new(Id(i))), format!("#{i}"));
        }
        let (o, t) = self.object(kw);
        (IdOr::Custom(o), t)
    }
    fn object<T: IfcType + IFCParse>(&mut self, kw: &str) -> (T, String) {
        let k = kind(kw);
        let r = text_of(k, 1 + choice(2));
        self.stored.push((0, r.clone()));
        (record(&r), format!("#?{}", self.stored.len()))
    }
    fn set_ref<T: IfcType + IFCParse>(&mut self, at: usize, kw: &str) -> IdOr<T> {
        let (i, t) = self.given(kw);
        self.want[at] = t;
        i
    }
    fn add_ref<T: IfcType + IFCParse>(&mut self, at: usize, kw: &str) -> IdOr<T> {
        let (i, t) = self.given(kw);
        self.add(at, t);
        i
    }
    /// printed record and model are as expected
    fn verify(mut self, kw: &str, got: &str, fresh_guid: bool) {
        // what was stored: the records that were not there before, in the order of their ids
        let now = self.f.data.to_string();
        let lines: Vec<&str> = now.lines().filter(|l| l.starts_with('#') && !self.old.contains(&format!("{l}\n"))).collect();
        check(now.lines().count() == self.old.lines().count() + lines.len() + 2, "set.others_changed");
        check(lines.len() == self.stored.len(), "set.stored.number");
        for (k, l) in lines.iter().enumerate() {
            let eq_at = l.find('=').unwrap();
            eq(l[eq_at + 1..].trim_start(), &self.stored[k].1, "set.stored.record");
            for w in self.want.iter_mut() {
                if let Some(p) = w.find(&format!("#?{}", k + 1)) {
                    let new = format!("{}{}{}", &w[..p], &l[..eq_at], &w[p + 3..]);
                    *w = new;
                }
            }
        }
        check(got.starts_with(&format!("{kw}(")) && got.ends_with(");"), "set.keyword");
        let a = attributes(got);
        check(a.len() == self.want.len(), "set.number");
        for (i, a) in a.iter().enumerate() {
            match self.real.iter().find(|r| r.0 == i) {
                Some((_, v)) => feq(a.parse().unwrap_or(f64::NAN), *v, "set.value"),
                _ if fresh_guid && i == 0 => check(a.len() == 24 && a.starts_with('\'') && a.ends_with('\''), "set.guid"),
                _ => eq(a, &self.want[i], "set.value"),
            }
        }
    }
}
/// attributes omitted where possible (1), given (2), given with a symbolic character (3)
fn text_of(k: &K, how: u64) -> String {
    let c = if how == 3 { sym::of(b"aZ0;") as char } else { 'x' };
    let a: Vec<String> = k
        .attrs
        .iter()
        .enumerate()
        .map(|(i, a)| match a {
            spec::A::OS if how > 1 => format!("'t {i}{c}'"),
            spec::A::S => format!("'s {i}{c}'"),
            a if how == 1 => plain(*a, "9"),
            a => full(*a),
        })
        .collect();
    format!("{}({});", keyword(k), a.join(","))
}
fn run<T: IFCParse + Display>(kw: &str, sets: Vec<Set<T>>) {
    let k = kind(kw);
    let r = text_of(k, 1 + choice(3));
    let o: T = record(&r);
    let mut w = W::new();
    w.want = attributes(&r);
    // one setter, or another one before it
    let mut o = o;
    if choice(2) == 1 {
        w.ids_only = true;
        o = sets[choice(sets.len() as u64) as usize](o, &mut w);
        w.ids_only = false;
    }
    let o = sets[choice(sets.len() as u64) as usize](o, &mut w);
    if !w.stored.is_empty() {
        cover("stored");
    }
    w.verify(keyword(k), &o.to_string(), false);
}
macro_rules! s {
    ($v:ident: $(|$o:ident, $w:ident| $e:expr;)*) => {
        $($v.push(Box::new(|$o, $w: &mut W| $e));)*
    };
}
fn root<T: RootBuilder + 'static>() -> Vec<Set<T>> {
    let mut v: Vec<Set<T>> = vec![];
    s! { v:
        |o, w| { let a = w.set_ref::<OwnerHistory>(1, "IFCOWNERHISTORY"); RootBuilder::owner_history(o, a, &mut w.f) };
        |o, w| { let a = w.set_text(2); RootBuilder::name(o, a.as_str()) };
        |o, w| { let a = w.set_text(3); RootBuilder::description(o, a.as_str()) };
    }
    v
}
fn product<T: RootBuilder + ObjectBuilder + ProductBuilder + 'static>() -> Vec<Set<T>> {
    let mut v = root::<T>();
    s! { v:
        |o, w| { let a = w.set_text(4); ObjectBuilder::object_type(o, a.as_str()) };
        |o, w| { let a = w.set_ref::<LocalPlacement>(5, "IFCLOCALPLACEMENT"); o.object_placement(a, &mut w.f) };
        |o, w| { let a = w.set_ref::<ProductDefinitionShape>(6, "IFCPRODUCTDEFINITIONSHAPE"); o.representation(a, &mut w.f) };
    }
    v
}
fn elem<T: RootBuilder + ObjectBuilder + ProductBuilder + ElementBuilder + 'static>() -> Vec<Set<T>> {
    let mut v = product::<T>();
    s! { v: |o, w| { let a = w.set_text(7); ElementBuilder::tag(o, a.as_str()) }; }
    v
}
fn spatial<T: RootBuilder + ObjectBuilder + ProductBuilder + SpatialElementBuilder + SpatialStructureElementBuilder + 'static>() -> Vec<Set<T>> {
    let mut v = product::<T>();
    s! { v:
        |o, w| { let a = w.set_text(7); SpatialElementBuilder::long_name(o, a.as_str()) };
        |o, w| { let a = w.word(8, COMPOSITION_TYPE_ENUM); o.composition_type(a) };
    }
    v
}
fn types<T: RootBuilder + TypeProductBuilder + ElementTypeBuilder + 'static>() -> Vec<Set<T>> {
    let mut v = root::<T>();
    s! { v:
        |o, w| { let a = w.set_text(7); TypeProductBuilder::tag(o, a.as_str()) };
        |o, w| { let a = w.set_text(8); o.element_type(a.as_str()) };
    }
    v
}
const SETS: u64 = 47;
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_set(n: u64) {
    macro_rules! go {
        ($kw:expr, $t:ty, $base:expr; $(|$o:ident, $w:ident| $e:expr;)*) => {{
            #[allow(unused_mut)]
            let mut v: Vec<Set<$t>> = $base;
            s! { v: $(|$o, $w| $e;)* }
            run::<$t>($kw, v)
        }};
    }
    match n {
        0 => go!("IFCWALL", Wall, elem(); |o, w| { let a = w.set_ref::<WallType>(8, "IFCWALLTYPE"); o.predefined_type(a, &mut w.f) };),
        1 => go!("IFCSLAB", Slab, elem(); |o, w| { let a = w.word(8, SLAB_TYPE_ENUM); o.predefined_type(a) };),
        2 => go!("IFCROOF", Roof, elem(); |o, w| { let a = w.word::<RoofTypeEnum>(8, ROOF_TYPE_ENUM); o.predefined_type(a) };),
        3 => go!("IFCWINDOW", Window, elem();
            |o, w| { let a = w.real(8); o.overall_height(a) };
            |o, w| { let a = w.real(9); o.overall_width(a) };
            |o, w| { let a = w.word::<WindowTypeEnum>(10, WINDOW_TYPE_ENUM); o.predefined_type(a) };
            |o, w| { let a = w.word::<WindowPartitioningTypeEnum>(11, WINDOW_PARTITIONING_TYPE_ENUM); o.partitioning_type(a) };),
        4 => go!("IFCDOOR", Door, elem();
            |o, w| { let a = w.real(8); o.overall_height(a) };
            |o, w| { let a = w.real(9); o.overall_width(a) };
            |o, w| { let a = w.word::<DoorTypeEnum>(10, DOOR_TYPE_ENUM); o.predefined_type(a) };
            |o, w| { let a = w.word::<DoorOperationTypeEnum>(11, DOOR_OPERATION_TYPE_ENUM); o.operation_type(a) };),
        5 => go!("IFCOPENINGELEMENT", OpeningElement, elem(); |o, w| { let a = w.word::<OpeningElementTypeEnum>(8, OPENING_ELEMENT_TYPE_ENUM); o.predefined_type(a) };),
        6 => go!("IFCSHADINGDEVICE", ShadingDevice, elem(); |o, w| { let a = w.word(8, SHADING_DEVICE_TYPE_ENUM); o.predefined_type(a) };),
        7 => go!("IFCBUILDING", Building, spatial();
            |o, w| { let a = w.real(9); o.elevation_of_ref_height(a) };
            |o, w| { let a = w.real(10); o.elevation_of_terrain(a) };
            |o, w| { let a = w.set_ref::<PostalAddress>(11, "IFCPOSTALADDRESS"); o.building_address(a, &mut w.f) };),
        8 => go!("IFCSITE", Site, spatial();
            |o, w| { let a = ints(w, 9); o.ref_latitude(a) };
            |o, w| { let a = ints(w, 10); o.ref_longitude(a) };
            |o, w| { let a = w.real(11); o.ref_elevation(a) };
            |o, w| { let a = w.set_text(12); o.land_title_number(a.as_str()) };
            |o, w| { let a = w.set_ref::<PostalAddress>(13, "IFCPOSTALADDRESS"); o.site_address(a, &mut w.f) };),
        9 => go!("IFCBUILDINGSTOREY", Storey, spatial();),
        10 => go!("IFCSPACE", Space, spatial();
            |o, w| { let a = w.word::<SpaceTypeEnum>(9, SPACE_TYPE_ENUM); o.predefined_type(a) };
            |o, w| { let a = w.real(10); o.elevation_with_flooring(a) };),
        11 => go!("IFCPROJECT", Project, root();
            |o, w| { let a = w.set_text(4); o.object_type(a.as_str()) };
            |o, w| { let a = w.set_text(5); o.long_name(a.as_str()) };
            |o, w| { let a = w.set_text(6); o.phase(a.as_str()) };
            |o, w| { let a = w.add_ref::<GeometricRepresentationContext>(7, "IFCGEOMETRICREPRESENTATIONCONTEXT"); o.add_context(a, &mut w.f) };
            |o, w| { let a = w.set_ref::<UnitAssigment>(8, "IFCUNITASSIGNMENT"); o.unit_assignment(a, &mut w.f) };),
        12 => go!("IFCWALLTYPE", WallType, types();),
        13 => go!("IFCSLABTYPE", SlabType, types();),
        14 => go!("IFCROOFTYPE", RoofType, types();),
        15 => go!("IFCWINDOWTYPE", WindowType, types();),
        16 => go!("IFCDOORTYPE", DoorType, types();),
        17 => go!("IFCSPACETYPE", SpaceType, types();),
        18 => go!("IFCSHADINGDEVICETYPE", ShadingDeviceType, types();),
        19 => go!("IFCPERSON", Person, vec![];
            |o, w| { let a = w.set_text(0); o.id(a.as_str()) };
            |o, w| { let a = w.set_text(1); o.family_name(a.as_str()) };
            |o, w| { let a = w.set_text(2); o.given_name(a.as_str()) };
            |o, w| { let a = w.add_text(3); o.add_middle_name(a.as_str()) };
            |o, w| { let a = w.add_text(4); o.add_prefix_title(a.as_str()) };
            |o, w| { let a = w.add_text(5); o.add_suffix_title(a.as_str()) };
            |o, w| { let a = w.add_ref::<ActorRole>(6, "IFCACTORROLE"); o.add_role(a, &mut w.f) };
            |o, w| { let a = w.add_ref::<PostalAddress>(7, "IFCPOSTALADDRESS"); o.add_address(a, &mut w.f) };
            |o, w| { let a = w.add_ref::<TelecomAddress>(7, "IFCTELECOMADDRESS"); o.add_address(a, &mut w.f) };),
        20 => go!("IFCORGANIZATION", Organization, vec![];
            |o, w| { let a = w.add_ref::<ActorRole>(3, "IFCACTORROLE"); o.add_role(a, &mut w.f) };
            |o, w| { let a = w.add_ref::<PostalAddress>(4, "IFCPOSTALADDRESS"); o.add_address(a, &mut w.f) };
            |o, w| { let a = w.add_ref::<TelecomAddress>(4, "IFCTELECOMADDRESS"); o.add_address(a, &mut w.f) };),
        21 => go!("IFCPERSONANDORGANIZATION", PersonAndOrganization, vec![];
            |o, w| { let a = w.add_ref::<ActorRole>(2, "IFCACTORROLE"); o.add_role(a, &mut w.f) };),
        22 => go!("IFCOWNERHISTORY", OwnerHistory, vec![];
            |o, w| { let a = w.set_ref::<PersonAndOrganization>(0, "IFCPERSONANDORGANIZATION"); w.want[5] = w.want[0].clone(); o.owning_user(a, &mut w.f) };
            |o, w| { let a = w.set_ref::<Application>(1, "IFCAPPLICATION"); w.want[6] = w.want[1].clone(); o.owning_application(a, &mut w.f) };
            |o, w| { let a = w.word(2, ACCESS_STATE); o.state(a) };
            |o, w| { let a = time(w, 4); o.last_modified_date(a) };
            |o, w| { let a = w.set_ref::<PersonAndOrganization>(5, "IFCPERSONANDORGANIZATION"); o.last_modifying_user(a, &mut w.f) };
            |o, w| { let a = w.set_ref::<Application>(6, "IFCAPPLICATION"); o.last_modifying_application(a, &mut w.f) };),
        23 => go!("IFCMATERIAL", Material, vec![];
            |o, w| { let a = w.set_text(1); o.description(a.as_str()) };
            |o, w| { let a = w.set_text(2); o.category(a.as_str()) };),
        24 => go!("IFCMATERIALCONSTITUENT", MaterialConstituent, vec![];
            |o, w| { let a = w.set_text(0); o.name(a.as_str()) };
            |o, w| { let a = w.set_text(1); o.description(a.as_str()) };
            |o, w| { let a = w.set_ref::<Material>(2, "IFCMATERIAL"); o.material(a, &mut w.f) };
            |o, w| { let a = w.real(3); o.fraction(a) };
            |o, w| { let a = w.set_text(4); o.category(a.as_str()) };),
        25 => go!("IFCMATERIALCONSTITUENTSET", MaterialConstituentSet, vec![];
            |o, w| { let a = w.set_text(0); o.name(a.as_str()) };
            |o, w| { let a = w.set_text(1); o.description(a.as_str()) };
            |o, w| { let a = w.add_ref::<MaterialConstituent>(2, "IFCMATERIALCONSTITUENT"); o.add_constituent(a, &mut w.f) };),
        26 => go!("IFCMATERIALLAYER", MaterialLayer, vec![];
            |o, w| { let a = w.set_ref::<Material>(0, "IFCMATERIAL"); o.material(a, &mut w.f) };
            |o, w| { let a = w.set_text(3); o.name(a.as_str()) };
            |o, w| { let a = w.set_text(4); o.description(a.as_str()) };
            |o, w| { let a = w.set_text(5); o.category(a.as_str()) };
            |o, w| { let a = w.int(6); o.priority(a) };),
        27 => go!("IFCMATERIALLAYERSET", MaterialLayerSet, vec![];
            |o, w| { let a = w.add_ref::<MaterialLayer>(0, "IFCMATERIALLAYER"); o.add_layer(a, &mut w.f) };
            |o, w| { let a = w.set_text(1); o.name(a.as_str()) };
            |o, w| { let a = w.set_text(2); o.description(a.as_str()) };),
        28 => go!("IFCMATERIALLAYERSETUSAGE", MaterialLayerSetUsage, vec![];
            |o, w| { let a = w.real(4); o.reference_extent(a) };),
        29 => go!("IFCEXTRUDEDAREASOLID", ExtrudedAreaSolid, vec![];
            |o, w| { let a = w.set_ref::<Axis3D>(1, "IFCAXIS2PLACEMENT3D"); o.position(a, &mut w.f) };),
        30 => go!("IFCGEOMETRICREPRESENTATIONCONTEXT", GeometricRepresentationContext, vec![];
            |o, w| { let a = w.real(3); o.precision(a) };
            |o, w| { let a = w.set_ref::<Direction2D>(5, "IFCDIRECTION2D"); o.true_north(a, &mut w.f) };
            |o, w| { let a = w.set_ref::<Direction3D>(5, "IFCDIRECTION3D"); o.true_north(a, &mut w.f) };),
        31 => go!("IFCGEOMETRICREPRESENTATIONSUBCONTEXT", GeometricRepresentationSubContext, vec![];
            |o, w| { let a = w.real(7); o.target_scale(a) };
            |o, w| { let a = w.set_text(9); o.user_defined_target_view(a.as_str()) };),
        32 => go!("IFCLOCALPLACEMENT", LocalPlacement, vec![];
            |o, w| { let a = w.set_ref::<LocalPlacement>(0, "IFCLOCALPLACEMENT"); o.relative_to(a, &mut w.f) };),
        33 => go!("IFCARBITRARYCLOSEDPROFILEDEF", ArbitraryClosedProfileDef, vec![];
            |o, w| { let a = w.set_text(1); o.profile_name(a.as_str()) };),
        34 => go!("IFCRECTANGLEPROFILEDEF", RectangleProfileDef, vec![];
            |o, w| { let a = w.set_text(1); o.profile_name(a.as_str()) };
            |o, w| { let a = w.set_ref::<Axis2D>(2, "IFCAXIS2PLACEMENT2D"); o.position(a, &mut w.f) };
            |o, w| { let a = w.set_ref::<Axis3D>(2, "IFCAXIS2PLACEMENT3D"); o.position(a, &mut w.f) };),
        35 => go!("IFCPRODUCTDEFINITIONSHAPE", ProductDefinitionShape, vec![];
            |o, w| { let a = w.set_text(0); o.name(a.as_str()) };
            |o, w| { let a = w.set_text(1); o.description(a.as_str()) };
            |o, w| { let a = w.add_ref::<ShapeRepresentation>(2, "IFCSHAPEREPRESENTATION"); o.add_representation(a, &mut w.f) };),
        36 => go!("IFCSHAPEREPRESENTATION", ShapeRepresentation, vec![];
            |o, w| { if w.ids_only { return o; } let (a, t) = w.object::<ExtrudedAreaSolid>("IFCEXTRUDEDAREASOLID"); w.add(3, t); o.add_item(a, &mut w.f) };
            |o, w| { if w.ids_only { return o; } let (a, t) = w.object::<MappedItem>("IFCMAPPEDITEM"); w.add(3, t); o.add_item(a, &mut w.f) };
            |o, w| { if w.ids_only { return o; } let (a, t) = w.object::<PolyLine>("IFCPOLYLINE"); w.add(3, t); o.add_item(a, &mut w.f) };),
        37 => go!("IFCRELAGGREGATES", RelAggregates, root();),
        38 => go!("IFCRELASSOCIATESMATERIAL", RelAssociatesMaterial, root();
            |o, w| { let a = w.add_ref::<Wall>(4, "IFCWALL"); o.relate_obj(a, &mut w.f) };
            |o, w| { let a = w.add_ref::<SlabType>(4, "IFCSLABTYPE"); o.relate_obj(a, &mut w.f) };),
        39 => go!("IFCRELCONTAINEDINSPATIALSTRUCTURE", RelContainedInSpatialStructure, root();
            |o, w| { let a = w.add_ref::<Wall>(4, "IFCWALL"); o.relate_structure(a, &mut w.f) };
            |o, w| { let a = w.add_ref::<Window>(4, "IFCWINDOW"); o.relate_structure(a, &mut w.f) };),
        40 => go!("IFCRELDECLARES", RelDeclares, root();
            |o, w| { let a = w.add_ref::<WallType>(5, "IFCWALLTYPE"); o.relate_definition(a, &mut w.f) };),
        41 => go!("IFCRELDEFINESBYPROPERTIES", RelDefinesByProperties, root();
            |o, w| { let a = w.add_ref::<Wall>(4, "IFCWALL"); o.relate_obj(a, &mut w.f) };),
        42 => go!("IFCRELDEFINESBYTYPE", RelDefinesByType, root();
            |o, w| { let a = w.add_ref::<Roof>(4, "IFCROOF"); o.relate_obj(a, &mut w.f) };),
        43 => go!("IFCRELFILLSELEMENT", RelFillsElement, root();),
        44 => go!("IFCRELVOIDSELEMENT", RelVoidsElement, root();),
        45 => go!("IFCPROPERTYSET", PropertySet, root();),
        _ => go!("IFCPROPERTYSINGLEVALUE", PropertySingleValue, vec![];
            |o, w| { let a = w.set_text(0); PropertyBuilder::name(o, a.as_str()) };
            |o, w| { let a = w.set_text(1); PropertyBuilder::description(o, a.as_str()) };),
    }
}
fn ints(w: &mut W, at: usize) -> Vec<i64> {
    let a = [sym::u64_in(10, 99) as i64, -(sym::u64_in(10, 99) as i64), 0];
    w.want[at] = format!("({},{},0)", a[0], a[1]);
    a.to_vec()
}
fn time(w: &mut W, at: usize) -> IfcTimestamp {
    let t = (1_600_000_000 + sym::u64_in(0, 9)).to_string();
    w.want[at] = t.clone();
    record(&t)
}
/// `a` with the attributes given; the others omitted
fn made(w: &mut W, kw: &str, given: Vec<(usize, String)>) {
    let k = kind(kw);
    w.want = k.attrs.iter().map(|a| if spec::is_list(*a) && !spec::optional(*a) { "()".into() } else { "$".to_string() }).collect();
    for (i, t) in given {
        w.want[i] = t;
    }
}
fn done<T: Display>(w: W, kw: &str, o: T) {
    let g = matches!(kind(kw).attrs[0], spec::A::Guid);
    w.verify(keyword(kind(kw)), &o.to_string(), g);
}
fn dec() -> (f64, String) {
    let b = [sym::of(b"123456789"), b'.', sym::of(b"05"), b'2', b'5'];
    let s = String::from_utf8(b.to_vec()).unwrap();
    (s.parse().unwrap(), s)
}
const CREATES: u64 = 51;
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_create(n: u64) {
    let mut w = W::new();
    macro_rules! named {
        ($t:ty, $kw:expr) => {{
            let (a, t) = w.text();
            made(&mut w, $kw, vec![(2, t)]);
            done(w, $kw, <$t>::new(a.as_str()))
        }};
    }
    macro_rules! typed {
        ($t:ty, $kw:expr, $words:expr) => {{
            let (a, t) = w.text();
            let (e, m) = member($words);
            made(&mut w, $kw, vec![(2, t), (9, m.into())]);
            done(w, $kw, <$t>::new(a.as_str(), e))
        }};
    }
    // two references and a name
    macro_rules! rel {
        ($t:ident, $kw:expr, $(($at:expr, $r:ident, $rk:expr)),*) => {{
            let (a, t) = w.text();
            #[allow(unused_mut)]
            let mut g = vec![(2, t)];
            let o = $t::new(a.as_str(), $({ let (i, t) = w.given::<$r>($rk); g.push(($at, t)); i },)* &mut w.f);
            made(&mut w, $kw, g);
            done(w, $kw, o)
        }};
    }
    match n {
        0 => named!(Wall, "IFCWALL"),
        1 => named!(Slab, "IFCSLAB"),
        2 => named!(Roof, "IFCROOF"),
        3 => named!(Window, "IFCWINDOW"),
        4 => named!(Door, "IFCDOOR"),
        5 => named!(OpeningElement, "IFCOPENINGELEMENT"),
        6 => named!(ShadingDevice, "IFCSHADINGDEVICE"),
        7 => named!(Building, "IFCBUILDING"),
        8 => named!(Site, "IFCSITE"),
        9 => named!(Storey, "IFCBUILDINGSTOREY"),
        10 => named!(Space, "IFCSPACE"),
        11 => named!(Project, "IFCPROJECT"),
        12 => typed!(WallType, "IFCWALLTYPE", WALL_TYPE_ENUM),
        13 => typed!(SlabType, "IFCSLABTYPE", SLAB_TYPE_ENUM),
        14 => typed!(RoofType, "IFCROOFTYPE", ROOF_TYPE_ENUM),
        15 => typed!(SpaceType, "IFCSPACETYPE", SPACE_TYPE_ENUM),
        16 => typed!(ShadingDeviceType, "IFCSHADINGDEVICETYPE", SHADING_DEVICE_TYPE_ENUM),
        17 | 18 => {
            let (a, t) = w.text();
            if n == 17 {
                let (e, m) = member::<WindowTypeEnum>(WINDOW_TYPE_ENUM);
                let (p, q) = member::<WindowPartitioningTypeEnum>(WINDOW_PARTITIONING_TYPE_ENUM);
                made(&mut w, "IFCWINDOWTYPE", vec![(2, t), (9, m.into()), (10, q.into())]);
                done(w, "IFCWINDOWTYPE", WindowType::new(a.as_str(), e, p))
            } else {
                let (e, m) = member::<DoorTypeEnum>(DOOR_TYPE_ENUM);
                let (p, q) = member::<DoorOperationTypeEnum>(DOOR_OPERATION_TYPE_ENUM);
                made(&mut w, "IFCDOORTYPE", vec![(2, t), (9, m.into()), (10, q.into())]);
                done(w, "IFCDOORTYPE", DoorType::new(a.as_str(), e, p))
            }
        }
        19 => {
            let (a, t) = w.text();
            made(&mut w, "IFCMATERIAL", vec![(0, t)]);
            done(w, "IFCMATERIAL", Material::new(a.as_str()))
        }
        20 => {
            let i = sym::u64_in(10, 99) as usize;
            made(&mut w, "IFCMATERIALCONSTITUENT", vec![(2, format!("#{i}"))]);
            done(w, "IFCMATERIALCONSTITUENT", MaterialConstituent::new(TypedId::new(Id(i))))
        }
        21 => {
            made(&mut w, "IFCMATERIALCONSTITUENTSET", vec![]);
            done(w, "IFCMATERIALCONSTITUENTSET", MaterialConstituentSet::new())
        }
        22 => {
            let (v, t) = dec();
            let b = choice(2) == 1;
            made(&mut w, "IFCMATERIALLAYER", vec![(1, t), (2, if b { ".TRUE." } else { ".FALSE." }.into())]);
            w.real = vec![(1, v)];
            done(w, "IFCMATERIALLAYER", MaterialLayer::new(v, b))
        }
        23 => {
            made(&mut w, "IFCMATERIALLAYERSET", vec![]);
            done(w, "IFCMATERIALLAYERSET", MaterialLayerSet::new())
        }
        24 => {
            let (i, t) = w.given::<MaterialLayerSet>("IFCMATERIALLAYERSET");
            let (e, m) = member::<LayerSetDirectionEnum>(LAYER_SET_DIRECTION_ENUM);
            let (p, q) = member::<DirectionSenseEnum>(DIRECTION_SENSE_ENUM);
            let (v, _) = dec();
            let o = MaterialLayerSetUsage::new(i, e, p, v, &mut w.f);
            made(&mut w, "IFCMATERIALLAYERSETUSAGE", vec![(0, t), (1, m.into()), (2, q.into())]);
            w.real = vec![(3, v)];
            done(w, "IFCMATERIALLAYERSETUSAGE", o)
        }
        25 => {
            made(&mut w, "IFCPERSON", vec![]);
            done(w, "IFCPERSON", Person::empty())
        }
        26 => {
            let (a, ta) = w.text();
            let (b, tb) = w.text();
            let (i, d) = (choice(2) == 1, choice(2) == 1);
            made(&mut w, "IFCORGANIZATION", vec![(0, if i { tb.clone() } else { "$".into() }), (1, ta), (2, if d { "'d'".into() } else { "$".into() })]);
            done(w, "IFCORGANIZATION", Organization::new(i.then_some(b.as_str()), a.as_str(), d.then_some("d")))
        }
        27 => {
            let (i, k) = (sym::u64_in(10, 99) as usize, sym::u64_in(10, 99) as usize);
            made(&mut w, "IFCPERSONANDORGANIZATION", vec![(0, format!("#{i}")), (1, format!("#{k}"))]);
            done(w, "IFCPERSONANDORGANIZATION", PersonAndOrganization::new(TypedId::new(Id(i)), TypedId::new(Id(k))))
        }
        28 => {
            let (e, m) = member::<ChangeAction>(CHANGE_ACTION);
            made(&mut w, "IFCOWNERHISTORY", vec![(3, m.into())]);
            let t = time(&mut w, 7);
            done(w, "IFCOWNERHISTORY", OwnerHistory::new(e, t))
        }
        29 => {
            let i = sym::u64_in(10, 99) as usize;
            let (a, ta) = w.text();
            made(&mut w, "IFCAPPLICATION", vec![(0, format!("#{i}")), (1, ta), (2, "'full'".into()), (3, "'ident'".into())]);
            done(w, "IFCAPPLICATION", Application::new(TypedId::new(Id(i)), a.as_str(), "full", "ident"))
        }
        30 => {
            let (a, t) = w.text();
            let (p, i, k) = (sym::u64_in(10, 99) as usize, sym::u64_in(10, 99) as usize, sym::u64_in(10, 99) as usize);
            made(&mut w, "IFCRELAGGREGATES", vec![(2, t), (4, format!("#{p}")), (5, format!("(#{i},#{k})"))]);
            done(w, "IFCRELAGGREGATES", RelAggregates::new(a.as_str(), Id(p), [Id(i), Id(k)]))
        }
        31 => rel!(RelAssociatesMaterial, "IFCRELASSOCIATESMATERIAL", (5, MaterialLayerSetUsage, "IFCMATERIALLAYERSETUSAGE")),
        32 => rel!(RelAssociatesMaterial, "IFCRELASSOCIATESMATERIAL", (5, MaterialConstituentSet, "IFCMATERIALCONSTITUENTSET")),
        33 => rel!(RelContainedInSpatialStructure, "IFCRELCONTAINEDINSPATIALSTRUCTURE", (5, Storey, "IFCBUILDINGSTOREY")),
        34 => rel!(RelDeclares, "IFCRELDECLARES", (4, Project, "IFCPROJECT")),
        35 => rel!(RelDefinesByProperties, "IFCRELDEFINESBYPROPERTIES", (5, PropertySet, "IFCPROPERTYSET")),
        36 => rel!(RelDefinesByType, "IFCRELDEFINESBYTYPE", (5, WallType, "IFCWALLTYPE")),
        37 => rel!(RelFillsElement, "IFCRELFILLSELEMENT", (4, OpeningElement, "IFCOPENINGELEMENT"), (5, Window, "IFCWINDOW")),
        38 => rel!(RelVoidsElement, "IFCRELVOIDSELEMENT", (4, Wall, "IFCWALL"), (5, OpeningElement, "IFCOPENINGELEMENT")),
        39 => {
            let (a, ta) = w.given::<RepresentationMap>("IFCREPRESENTATIONMAP");
            let (b, tb) = w.given::<CartesianTransformationOperator3DnonUniform>("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM");
            let o = MappedItem::new(a, b, &mut w.f);
            made(&mut w, "IFCMAPPEDITEM", vec![(0, ta), (1, tb)]);
            done(w, "IFCMAPPEDITEM", o)
        }
        40 => {
            let (a, ta) = w.given::<Axis3D>("IFCAXIS2PLACEMENT3D");
            let (b, tb) = w.given::<ShapeRepresentation>("IFCSHAPEREPRESENTATION");
            let o = RepresentationMap::new(a, b, &mut w.f);
            made(&mut w, "IFCREPRESENTATIONMAP", vec![(0, ta), (1, tb)]);
            done(w, "IFCREPRESENTATIONMAP", o)
        }
        41 => {
            let (t, m) = (choice(2) == 1, choice(2) == 1);
            let (u, tu) = member::<IfcUnitEnum>(IFC_UNIT_ENUM);
            let (p, tp) = if m { member::<IfcPrefix>(IFC_PREFIX) } else { (record(".MILLI."), ".MILLI.") };
            let (q, tq) = (record::<IfcUnitName>(".METRE."), ".METRE.");
            made(&mut w, "IFCSIUNIT", vec![(0, "*".into()), (1, if t { tu } else { "$" }.into()), (2, if m { tp } else { "$" }.into()), (3, tq.into())]);
            done(w, "IFCSIUNIT", SiUnit::new(t.then_some(u), m.then_some(p), q))
        }
        42 => {
            let (a, ta) = w.given::<RectangleProfileDef>("IFCRECTANGLEPROFILEDEF");
            let (b, tb) = w.given::<Direction3D>("IFCDIRECTION3D");
            let (v, _) = dec();
            let o = ExtrudedAreaSolid::new(a, b, v, &mut w.f);
            made(&mut w, "IFCEXTRUDEDAREASOLID", vec![(0, ta), (2, tb)]);
            w.real = vec![(3, v)];
            done(w, "IFCEXTRUDEDAREASOLID", o)
        }
        43 | 44 => {
            // stored in no particular order: ids only
            let i: Vec<usize> = (0..4).map(|k| if k < 2 { sym::u64_in(10, 99) as usize } else { 70 + k }).collect();
            let (v, _) = dec();
            let p = TypedId::<Point3D>::new(Id(i[0]));
            let d = |k: usize| TypedId::<Direction3D>::new(Id(i[k]));
            let g = |k: usize| format!("#{}", i[k]);
            let at = vec![(0, g(1)), (1, g(2)), (2, g(0)), (4, g(3))];
            if n == 43 {
                let o = CartesianTransformationOperator3D::new(p, (d(1), d(2), d(3)), v, &mut w.f);
                made(&mut w, "IFCCARTESIANTRANSFORMATIONOPERATOR3D", at);
                w.real = vec![(3, v)];
                done(w, "IFCCARTESIANTRANSFORMATIONOPERATOR3D", o)
            } else {
                let which = choice(3) as usize;
                let mut s = [0.5, 2.5, 3.5];
                s[which] = v;
                let o = CartesianTransformationOperator3DnonUniform::new(p, (d(1), d(2), d(3)), (s[0], s[1], s[2]), &mut w.f);
                made(&mut w, "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", at);
                for (k, at) in [3, 5, 6].into_iter().enumerate() {
                    w.want[at] = ["0.5", "2.5", "3.5"][k].into();
                }
                w.real = vec![([3, 5, 6][which], v)];
                done(w, "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", o)
            }
        }
        45 => {
            let (e, m) = member::<DimensionCount>(DIMENSION_COUNT);
            let (a, ta) = w.given::<Axis3D>("IFCAXIS2PLACEMENT3D");
            let o = GeometricRepresentationContext::new(e, a, &mut w.f);
            made(&mut w, "IFCGEOMETRICREPRESENTATIONCONTEXT", vec![(0, "'Body'".into()), (1, "'Model'".into()), (2, m.into()), (4, ta)]);
            done(w, "IFCGEOMETRICREPRESENTATIONCONTEXT", o)
        }
        46 => {
            let (e, m) = member::<GeometricProjection>(GEOMETRIC_PROJECTION);
            let (a, ta) = w.given::<GeometricRepresentationContext>("IFCGEOMETRICREPRESENTATIONCONTEXT");
            let o = GeometricRepresentationSubContext::derive(a, e, &mut w.f);
            let i = |k| (k, "*".to_string());
            made(&mut w, "IFCGEOMETRICREPRESENTATIONSUBCONTEXT", vec![(0, "'Body'".into()), (1, "'Model'".into()), i(2), i(3), i(4), i(5), (6, ta), (8, m.into())]);
            done(w, "IFCGEOMETRICREPRESENTATIONSUBCONTEXT", o)
        }
        47 => {
            let (a, ta) = w.given::<Axis3D>("IFCAXIS2PLACEMENT3D");
            let o = LocalPlacement::new(a, &mut w.f);
            made(&mut w, "IFCLOCALPLACEMENT", vec![(1, ta)]);
            done(w, "IFCLOCALPLACEMENT", o)
        }
        48 => {
            let (e, m) = member::<ProfileType>(PROFILE_TYPE);
            if choice(2) == 0 {
                let (a, ta) = w.given::<IndexedPolyCurve>("IFCINDEXEDPOLYCURVE");
                let o = ArbitraryClosedProfileDef::new(e, a, &mut w.f);
                made(&mut w, "IFCARBITRARYCLOSEDPROFILEDEF", vec![(0, m.into()), (2, ta)]);
                done(w, "IFCARBITRARYCLOSEDPROFILEDEF", o)
            } else {
                let x = choice(2) == 0;
                let (v, _) = dec();
                let o = RectangleProfileDef::new(e, if x { v } else { 11.5 }, if x { 11.5 } else { v });
                made(&mut w, "IFCRECTANGLEPROFILEDEF", vec![(0, m.into()), (3, "11.5".into()), (4, "11.5".into())]);
                w.real = vec![(if x { 3 } else { 4 }, v)];
                done(w, "IFCRECTANGLEPROFILEDEF", o)
            }
        }
        49 => {
            let (e, m) = member::<RepresentationIdentifier>(REPRESENTATION_IDENTIFIER);
            let (y, q) = if m == "'Body'" { member::<RepresentationType>(REPRESENTATION_TYPE) } else { (record("'SweptSolid'"), "'SweptSolid'") };
            let (a, ta) = w.given::<GeometricRepresentationSubContext>("IFCGEOMETRICREPRESENTATIONSUBCONTEXT");
            let o = ShapeRepresentation::new(a, e, y, &mut w.f);
            made(&mut w, "IFCSHAPEREPRESENTATION", vec![(0, ta), (1, m.into()), (2, q.into())]);
            done(w, "IFCSHAPEREPRESENTATION", o)
        }
        _ => {
            let (a, t) = w.text();
            let i = sym::u64_in(10, 99) as usize;
            if choice(2) == 0 {
                made(&mut w, "IFCPROPERTYSET", vec![(2, t), (4, format!("(#{i},#7)"))]);
                done(w, "IFCPROPERTYSET", PropertySet::new(a.as_str(), [TypedId::new(Id(i)), TypedId::new(Id(7))]))
            } else {
                let unit = choice(2) == 1;
                made(&mut w, "IFCPROPERTYSINGLEVALUE", vec![(0, t), (2, "IFCBOOLEAN(.TRUE.)".into()), (3, if unit { format!("#{i}") } else { "$".into() })]);
                done(w, "IFCPROPERTYSINGLEVALUE", PropertySingleValue::new(a.as_str(), record("IFCBOOLEAN(.TRUE.)"), unit.then_some(Id(i))))
            }
        }
    }
}
