use crate::common::*;
use crate::p11::with;
use crate::spec::{self, *};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P16";
    job!(j, h_kind, 0..KINDS.len());
    job!(j, h_keyword_letter, 0..KINDS.len());
    job!(j, h_keyword_longer, 0..KINDS.len());
    job!(j, h_misfit, 0..KINDS.len());
    job!(j, h_alias, 0..1);
    job!(j, h_keyword_word, 0..KINDS.len());
    job!(j, h_keyword_other, 0..1);
    job!(j, h_unknown, 0..1);
}
const DUMMY: &str = "#9= IFCNOSUCHTHING(1);\n";
const ALIAS: &[(&str, &str)] = &[
    ("IFCWALLSTANDARDCASE", "IFCWALL"),
    ("IFCSLABSTANDARDCASE", "IFCSLAB"),
    ("IFCWINDOWSTANDARDCASE", "IFCWINDOW"),
    ("IFCDOORSTANDARDCASE", "IFCDOOR"),
];

fn only(f: &IFC, id: usize, kw: &str, what: &str) {
    for k in KINDS {
        check((k.is)(f, id) == (k.kw == kw), what);
    }
    check(f.data.find_all_of_type::<Dummy>().any(|(i, _)| i.id().0 == id) == kw.is_empty(), what);
}

/// the record is stored as the kind its keyword names and as nothing else, also next to a record of any other kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_kind(n: u64) {
    let k = &KINDS[n as usize];
    let o = &KINDS[choice(KINDS.len() as u64) as usize];
    let d = format!("#1= {}\n#2= {}\n{}", minimal(k, "9"), minimal(o, "9"), DUMMY);
    match load(&d) {
        None => check(false, "kind.rejected"),
        Some(f) => {
            only(&f, 1, k.kw, "kind.first");
            only(&f, 2, o.kw, "kind.second");
            only(&f, 9, "", "kind.unknown");
            eq(&f.data.to_string(), &data(&d), "kind.changed");
        }
    }
}

/// the standard-case spellings are the plain kinds
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_alias(_: u64) {
    let (a, kw) = ALIAS[choice(ALIAS.len() as u64) as usize];
    let k = kind(kw);
    let m = minimal(k, "9");
    let d = format!("#1= {}{}\n{}", a, &m[kw.len()..], DUMMY);
    match load(&d) {
        None => check(false, "alias.rejected"),
        Some(f) => {
            only(&f, 1, kw, "alias.kind");
            eq(&f.data.to_string(), &data(&format!("#1= {}\n{}", m, DUMMY)), "alias.changed");
        }
    }
}

fn opaque(rec: &str, id: &str) {
    let d = format!("#1= {}\n{}", rec, DUMMY);
    match load(&d) {
        None => check(false, id),
        Some(f) => {
            only(&f, 1, "", id);
            eq(&f.data.to_string(), &data(&d), id);
        }
    }
}
fn not_a_keyword(kw: &str) {
    for k in KINDS {
        sym::assume(kw.as_bytes() != keyword(k).as_bytes());
    }
    for (a, _) in ALIAS {
        sym::assume(kw.as_bytes() != a.as_bytes());
    }
}

const LETTERS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_abcdefghijklmnopqrstuvwxyz";

/// one letter of the keyword is any other letter, digit or underscore
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_keyword_letter(n: u64) {
    let k = &KINDS[n as usize];
    let kw = keyword(k);
    let at = choice(kw.len() as u64) as usize;
    let new = match choice(2) {
        0 => format!("{}{}{}", &kw[..at], sym::text(1, LETTERS), &kw[at + 1..]),
        _ => format!("{}{}", &kw[..at], &kw[at + 1..]),
    };
    not_a_keyword(&new);
    opaque(&format!("{}{}", new, &minimal(k, "9")[kw.len()..]), "keyword.letter");
}

/// letters before or behind the keyword
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_keyword_longer(n: u64) {
    let k = &KINDS[n as usize];
    let kw = keyword(k);
    let x = sym::text(1 + choice(6) as usize, LETTERS);
    let new = match choice(2) {
        0 => format!("{}{}", kw, x),
        _ => format!("{}{}", x, kw),
    };
    not_a_keyword(&new);
    opaque(&format!("{}{}", new, &minimal(k, "9")[kw.len()..]), "keyword.longer");
}

/// words the schema builds its keywords from, put behind the keyword, between its parts, or taken from its end
const WORDS: &[&str] = &[
    "ELEMENTEDCASE", "STANDARDCASE", "TYPE", "STYLE", "2D", "3D", "SET", "USAGE", "SETUSAGE", "PROPERTIES", "WITHOFFSETS", "OCCURRENCE", "PART", "TAPERED", "ELEMENT", "RELATIONSHIP", "LIST",
    "VALUE", "DEF", "SI", "WITHOFFSET", "WITHUNITS", "MAP", "CLOSED", "ASSEMBLY", "S",
];
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_keyword_word(n: u64) {
    let k = &KINDS[n as usize];
    let kw = keyword(k);
    let w = WORDS[choice(WORDS.len() as u64) as usize];
    let new = match choice(3) {
        0 => format!("{kw}{w}"),
        1 => format!("IFC{w}{}", &kw[3..]),
        _ if kw.ends_with(w) => kw[..kw.len() - w.len()].to_string(),
        _ => return,
    };
    if is_keyword(&new) {
        return;
    }
    opaque(&format!("{}{}", new, &minimal(k, "9")[kw.len()..]), "keyword.word");
}
fn is_keyword(new: &str) -> bool {
    KINDS.iter().any(|k| keyword(k) == new) || ALIAS.iter().any(|a| a.0 == new)
}

/// neighbours in the schema (subtypes, supertypes, siblings) with the attributes of the supported kind
#[rustfmt::skip]
const NEAR: &[(&str, &str)] = &[
    ("IFCWALL", "IFCBEAM"), ("IFCWALL", "IFCCOLUMN"), ("IFCWALL", "IFCMEMBER"), ("IFCWALL", "IFCPLATE"), ("IFCWALL", "IFCRAILING"), ("IFCWALL", "IFCRAMP"),
    ("IFCWALL", "IFCCOVERING"), ("IFCWALL", "IFCCURTAINWALL"), ("IFCWALL", "IFCBUILDINGELEMENTPROXY"), ("IFCWALL", "IFCFOOTING"), ("IFCWALL", "IFCBUILTELEMENT"),
    ("IFCSLAB", "IFCRAMPFLIGHT"), ("IFCSLAB", "IFCPAVEMENT"), ("IFCSLAB", "IFCCHIMNEY"), ("IFCROOF", "IFCSTAIR"), ("IFCROOF", "IFCPILE"),
    ("IFCSHADINGDEVICE", "IFCSANITARYTERMINAL"), ("IFCSHADINGDEVICE", "IFCMECHANICALFASTENER"), ("IFCDOOR", "IFCDOORLINING"),
    ("IFCOPENINGELEMENT", "IFCVOIDINGFEATURE"), ("IFCOPENINGELEMENT", "IFCPROJECTIONELEMENT"), ("IFCWALLTYPE", "IFCBEAMTYPE"), ("IFCWALLTYPE", "IFCPLATETYPE"),
    ("IFCSLABTYPE", "IFCCOVERINGTYPE"), ("IFCROOFTYPE", "IFCSTAIRTYPE"), ("IFCSPACE", "IFCSPATIALZONE"), ("IFCSPACETYPE", "IFCSPATIALZONETYPE"),
    ("IFCBUILDING", "IFCFACILITY"), ("IFCBUILDINGSTOREY", "IFCFACILITYPART"), ("IFCBUILDING", "IFCBRIDGE"), ("IFCSITE", "IFCSPATIALELEMENT"),
    ("IFCPROJECT", "IFCPROJECTLIBRARY"), ("IFCPROJECT", "IFCCONTEXT"), ("IFCRELAGGREGATES", "IFCRELNESTS"), ("IFCRELAGGREGATES", "IFCRELDECOMPOSES"),
    ("IFCRELVOIDSELEMENT", "IFCRELPROJECTSELEMENT"), ("IFCRELVOIDSELEMENT", "IFCRELFILLSELEMENT"), ("IFCRELFILLSELEMENT", "IFCRELVOIDS"),
    ("IFCRELDEFINESBYTYPE", "IFCRELDEFINESBYTEMPLATE"), ("IFCRELDEFINESBYTYPE", "IFCRELDEFINESBYOBJECT"), ("IFCRELDEFINESBYPROPERTIES", "IFCRELDEFINES"),
    ("IFCRELASSOCIATESMATERIAL", "IFCRELASSOCIATESCLASSIFICATION"), ("IFCRELASSOCIATESMATERIAL", "IFCRELASSOCIATESDOCUMENT"), ("IFCRELASSOCIATESMATERIAL", "IFCRELASSOCIATESPROFILE"),
    ("IFCRELCONTAINEDINSPATIALSTRUCTURE", "IFCRELREFERENCEDINSPATIALSTRUCTURE"), ("IFCRELDECLARES", "IFCRELASSIGNS"),
    ("IFCMATERIALLAYERSET", "IFCMATERIALPROFILESET"), ("IFCMATERIALLAYERSETUSAGE", "IFCMATERIALPROFILESETUSAGE"), ("IFCMATERIALCONSTITUENT", "IFCMATERIALPROFILE"),
    ("IFCEXTRUDEDAREASOLID", "IFCREVOLVEDAREASOLID"), ("IFCEXTRUDEDAREASOLID", "IFCSWEPTAREASOLID"), ("IFCPOLYLINE", "IFCPOLYLOOP"), ("IFCPOLYLINE", "IFCPOLYCURVE"),
    ("IFCRECTANGLEPROFILEDEF", "IFCROUNDEDRECTANGLEPROFILEDEF"), ("IFCRECTANGLEPROFILEDEF", "IFCELLIPSEPROFILEDEF"), ("IFCARBITRARYCLOSEDPROFILEDEF", "IFCARBITRARYOPENPROFILEDEF"),
    ("IFCARBITRARYCLOSEDPROFILEDEF", "IFCARBITRARYPROFILEDEFWITHVOIDS"), ("IFCDIRECTION3D", "IFCVECTOR"), ("IFCCARTESIANPOINT3D", "IFCPOINT"), ("IFCAXIS2PLACEMENT3D", "IFCAXIS1PLACEMENT"),
    ("IFCLOCALPLACEMENT", "IFCLINEARPLACEMENT"), ("IFCLOCALPLACEMENT", "IFCGRIDPLACEMENT"), ("IFCSHAPEREPRESENTATION", "IFCTOPOLOGYREPRESENTATION"),
    ("IFCSHAPEREPRESENTATION", "IFCSTYLEDREPRESENTATION"), ("IFCSHAPEREPRESENTATION", "IFCREPRESENTATION"), ("IFCPRODUCTDEFINITIONSHAPE", "IFCPRODUCTREPRESENTATION"),
    ("IFCMAPPEDITEM", "IFCSTYLEDITEM"), ("IFCPROPERTYSINGLEVALUE", "IFCPROPERTYBOUNDEDVALUE"), ("IFCPROPERTYSINGLEVALUE", "IFCPROPERTYENUMERATEDVALUE"),
    ("IFCPROPERTYSET", "IFCELEMENTQUANTITY"), ("IFCPROPERTYSET", "IFCPROPERTYSETTEMPLATE"), ("IFCSIUNIT", "IFCNAMEDUNIT"), ("IFCMEASUREWITHUNIT", "IFCMEASURE"),
    ("IFCPERSON", "IFCACTOR"), ("IFCORGANIZATION", "IFCORGANISATION"), ("IFCPOSTALADDRESS", "IFCADDRESS"), ("IFCTELECOMADDRESS", "IFCADDRESS"),
];
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_keyword_other(_: u64) {
    let (name, other) = NEAR[choice(NEAR.len() as u64) as usize];
    let Some(k) = KINDS.iter().find(|k| k.kw == name) else {
        sym::cover(&format!("keyword.other.absent.{name}"));
        return;
    };
    if is_keyword(other) {
        return;
    }
    opaque(&format!("{}{}", other, &minimal(k, "9")[keyword(k).len()..]), "keyword.other");
}

/// any keyword at all that is not one of the supported ones
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_unknown(_: u64) {
    let len = choice(12) as usize;
    let kw = format!("IFC{}", sym::text(len, LETTERS));
    not_a_keyword(&kw);
    opaque(&format!("{}('a',#9,1.,(2),$,*,.T.);", kw), "unknown");
}

/// a value that does not fit the attribute, a missing or an additional attribute: the record is kept as it is
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_misfit(n: u64) {
    use spec::A::*;
    let k = &KINDS[n as usize];
    let na = k.attrs.len();
    let m = minimal(k, "9");
    match choice(3) {
        0 => {
            // one attribute more
            let extra = ["$", "#9", "'a'", "1.", ".T.", "()"][choice(6) as usize];
            if k.kw == "IFCCARTESIANPOINT2D" || k.kw == "IFCDIRECTION2D" || k.kw == "IFCCARTESIANPOINT3D" || k.kw == "IFCDIRECTION3D" {
                return;
            }
            opaque(&format!("{},{});", &m[..m.len() - 2], extra), "misfit.more");
        }
        1 => {
            // one attribute less
            if na == 1 {
                return;
            }
            let drop = choice(na as u64) as usize;
            let mut s = format!("{}(", keyword(k));
            let mut first = true;
            for (i, a) in k.attrs.iter().enumerate() {
                if i == drop {
                    continue;
                }
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&plain(*a, "9"));
            }
            s.push_str(");");
            opaque(&s, "misfit.less");
        }
        _ => {
            let at = choice(na as u64) as usize;
            let bad: &[&str] = match k.attrs[at] {
                S => &["$", "*", "#9", "1.", ".T.", "('a')", "a", ""],
                OS => &["#9", "1.", ".T.", "('a')", "a", ""],
                R(_) | I => &["$", "*", "'a'", "1", ".T.", "(#9)", ""],
                OR(_) | OI => &["'a'", "1", ".T.", "(#9)", ""],
                LR(_) | LI => &["$", "*", "#9", "('a')", "(1)", "(#9", ""],
                OLR(_) | OLI => &["#9", "('a')", "(1)", "(#9", ""],
                OLS => &["'a'", "(#9)", "(1.)", "('a'", ""],
                E(_) => &["$", "*", "#9", "'a'", "1.", ".NOSUCHWORD.", "FLOOR", ""],
                OE(w) if w[0] == "1" => &["#9", "'a'", ".T.", ""],
                OE(_) => &["#9", "'a'", "1.", ".NOSUCHWORD.", "FLOOR", ""],
                X => &["$", "*", "#9", "'1.'", ".T.", "(1.)", ""],
                OX => &["#9", "'1.'", ".T.", "(1.)", ""],
                N | T => &["$", "*", "#9", "'1'", "1.", ".T.", ""],
                ON | OT => &["#9", "'1'", "1.", ".T.", ""],
                OLN => &["1", "(#9)", "('1')", ""],
                B => &["$", "*", "#9", "'T'", "1", "T", ""],
                OB => &["#9", "'T'", "1", "T", ""],
                V2 | V3 => &["$", "*", "#9", "1.", "()", "(1.)", "(1.,2.,3.,4.)", "('a','b')", ""],
                LV2 => &["$", "*", "#9", "(1.,2.)", "((1.,2.,3.))", ""],
                LV3 => &["$", "*", "#9", "(1.,2.)", "((1.,2.))", ""],
                Val => &["$", "*", "#9", "'a'", "1.", ".T.", "IFCLABEL(1.)", "IFCREAL('a')", "IFCBOOLEAN('a')", "IFCNOSUCHVALUE(1.)", ""],
                Guid => &["$", "*", "#9", "1", ""],
            };
            let v = bad[choice(bad.len() as u64) as usize];
            opaque(&with(k, at, v), "misfit.value");
        }
    }
}
