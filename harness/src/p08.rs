use crate::bld::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P08";
    job!(j, h_built_calls, 0..STEPS);
    job!(j, h_built_calls_more, 0..STEPS, true, 100000, 1500);
    job!(j, h_built_names, 0..6);
    job!(j, h_built_numbers, 0..8);
    job!(j, h_built_values, 0..5);
    job!(j, h_built_shapes, 0..7);
    job!(j, h_built_materials, 0..4);
    job!(j, h_built_tree, 0..4);
    job!(j, h_built_owner, 0..3);
    job!(j, h_built_types, 0..7);
    job!(j, h_built_sets, 0..6);
}
fn again(s: &str) {
    sym::note(s);
    match IFC::from_str(s) {
        Err(_) => check(false, "built.rejected"),
        Ok(f) => eq(&f.to_string(), s, "built.changed"),
    }
}
fn calls(first: u64, more: u64) {
    let mut a = Asked::default();
    let mut b = project("p");
    {
        let mut s = b.new_site("s0", DVec3::ZERO);
        let mut u = s.new_building("u0", DVec3::ZERO);
        let mut t = u.new_storey("t0", 2.5);
        let st = stock(&mut t, STOREY, 1, &mut a);
        step(&mut t, &st, first, 0, 0, &mut a);
        for _ in 0..more {
            step(&mut t, &st, choice(STEPS), 0, 0, &mut a);
        }
    }
    again(&b.build());
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_calls(first: u64) {
    calls(first, 1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_calls_more(first: u64) {
    calls(first, 2);
}
const NAME: &[u8] = b"abcxyzABCXYZ0189 _-.,;:()#$*/=+";
/// with the quote and the backslash, which the reader takes one by one
const QUOTED: &[u8] = b"abcxyzABCXYZ0189 _-.,;:()#$*/=+'\\";
fn name(n: u64) -> String {
    match n {
        0 | 1 => sym::text(n as usize, QUOTED),
        2 => sym::text(6, NAME),
        3 => format!("{}\u{e4}{}", sym::text(1, NAME), sym::text(1, NAME)),
        4 => format!("\u{df}{}\u{d6}", sym::text(1, NAME)),
        _ => "\u{dc}\u{fc}".into(),
    }
}
/// texts of every kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_names(n: u64) {
    sym::merge(2);
    let x = name(n);
    let at = choice(6);
    let p = |k: u64| -> &str { if k == at { &x } else { "n" } };
    let mut b = IfcProjectBuilder::new(
        ApplicationInfo { developer: Organization::new(None, p(0), None), version: p(0), name: p(0), short_name: p(0) },
        OwnerInfo { owner: Person::empty().given_name(p(0)), organization_name: p(0) },
        p(0),
    );
    {
        let mut s = b.new_site(p(1), DVec3::ZERO);
        let mut u = s.new_building(p(1), DVec3::ZERO);
        let mut t = u.new_storey(p(2), 2.5);
        let l = t.material_layer(p(3), MaterialLayer::new(0.25, true).name(p(3)));
        let set = t.material_layer_set([l]);
        let us = t.material_layer_set_usage(set, LayerSetDirectionEnum::Axis3, DirectionSenseEnum::Negative, 0.5);
        let ty = t.wall_type(set, p(4), WallTypeEnum::Shear);
        let mut w = t.vertical_wall(us, ty, p(4), VerticalWallParameter { height: 2.0, length: 4.0, placement: DVec3::X });
        {
            let mut q = w.add_properties(p(5));
            let _ = q.single_property(p(5), IfcValue::Label(LabelValue(p(5).into())), None);
            let _ = q.single_property("k", IfcValue::Identifier(IdentifierValue(p(5).into())), None);
        }
        let _ = w.finish();
    }
    again(&b.build());
}
fn num() -> f64 {
    decimal(&["", "5", "25", "0625", "7"])
}
fn decimal(fractions: &[&str]) -> f64 {
    let f = fractions[choice(fractions.len() as u64) as usize];
    let s = ["", "-"][choice(2) as usize];
    format!("{s}{}.{f}", sym::text(2, b"0123456789")).parse().unwrap()
}
/// dimensions of every kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_numbers(n: u64) {
    // lengths and thicknesses are added and halved: multiples of 1/16, for which that is exact
    let x = decimal(if matches!(n, 2 | 5 | 7) { &["", "5", "0625"] } else { &["", "5", "25", "0625", "7"] });
    let g = |k: u64, d: f64| if k == n { x } else { d };
    let mut b = project("p");
    {
        let mut s = b.new_site("s", DVec3::new(g(0, 1.0), 0.0, 0.0));
        let mut u = s.new_building("u", DVec3::new(0.0, g(0, 1.0), 0.0));
        let mut t = u.new_storey("t", g(1, 2.5));
        let l = t.material_layer("m", MaterialLayer::new(g(2, 0.25), true));
        let set = t.material_layer_set([l]);
        let us = t.material_layer_set_usage(set, LayerSetDirectionEnum::Axis3, DirectionSenseEnum::Negative, g(3, 0.5));
        let ty = t.wall_type(set, "wt", WallTypeEnum::Shear);
        let mut w = t.vertical_wall(us, ty, "w", VerticalWallParameter { height: g(4, 2.0), length: g(5, 4.0), placement: DVec3::new(1.0, g(4, 0.0), 2.0) });
        let _ = w.vertical_opening("o", OpeningParameter { height: g(6, 1.0), length: 2.0, placement: DVec3::new(g(6, 1.0), 0.0, 1.0) });
        if n == 7 {
            w.transform(TransformParameter::default().translation(DVec3::new(x, 2.0, 3.0)));
        }
        let _ = w.finish();
    }
    again(&b.build());
}
/// property values of every kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_values(n: u64) {
    sym::merge(2);
    let v = match n {
        0 => IfcValue::Bool(BoolValue((choice(2) == 1).into())),
        1 => IfcValue::Label(LabelValue(sym::text(1, QUOTED).as_str().into())),
        2 => IfcValue::Real(num().into()),
        3 => IfcValue::Identifier(IdentifierValue(sym::text(2, NAME).as_str().into())),
        _ => IfcValue::ThermalTransmittance(num().into()),
    };
    let mut b = project("p");
    {
        let mut s = b.new_site("s", DVec3::ZERO);
        let mut u = s.new_building("u", DVec3::ZERO);
        let mut t = u.new_storey("t", 2.5);
        let mut q = t.add_properties("set");
        let _ = q.single_property("k", v.clone(), None);
        let _ = q.single_property("l", v, None);
        let _ = q.finish();
    }
    again(&b.build());
}
/// the builder calls with outlines of 0..4 points
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_shapes(n: u64) {
    let k = choice(5) as usize;
    let x: f64 = format!("{}.5", sym::text(2, b"123456789")).parse().unwrap();
    let c2: Vec<DVec2> = (0..k).map(|i| DVec2::new(if i == 1 { x } else { i as f64 }, 2.0)).collect();
    let c3: Vec<DVec3> = (0..k).map(|i| DVec3::new(if i == 1 { x } else { i as f64 }, 2.0, 3.0)).collect();
    let p = DVec3::new(1.0, 2.0, x);
    let dir = [DVec3::X, DVec3::Y, DVec3::new(1.0, 2.0, 0.5), DVec3::NEG_Y][choice(4) as usize];
    let mut a = Asked::default();
    let mut b = project("p");
    {
        let mut s = b.new_site("s", DVec3::ZERO);
        let mut u = s.new_building("u", DVec3::ZERO);
        let mut t = u.new_storey("t", 2.5);
        let st = stock(&mut t, STOREY, 1, &mut a);
        let (us, g) = (st.usage[0], st.glass[0]);
        match n {
            0 => drop(t.vertical_arbitrary_wall(us, st.wall[0], "w", VerticalArbitraryWallParameter { coords: c2, placement: p })),
            1 => drop(t.arbitrary_wall(us, st.wall[0], "w", ArbitraryWallParameter { coords: c3, direction: dir, placement: p })),
            2 => drop(t.vertical_slab(us, st.slab[0], "w", VerticalSlabParameter { start: DVec2::ZERO, end: DVec2::new(3.0, 4.0), height: x, placement: p })),
            3 => {
                let mut w = t.arbitrary_slab(us, st.slab[0], "w", ArbitrarySlabParameter { coords: c3.clone(), direction: dir, placement: p });
                let _ = w.arbitrary_opening("o", ArbitraryOpeningParameter { coords: c3.clone() });
                let _ = w.arbitrary_window_with_opening(g, st.window[0], "i", ArbitraryWindowParameter { coords: c3 });
                let _ = w.rect_opening("r", OpeningParameter { height: x, length: 1.0, placement: p });
            }
            4 => drop(t.horizontal_arbitrary_slab(us, st.slab[0], "w", HorizontalArbitrarySlabParameter { coords: c2, placement: p })),
            5 => {
                let _ = t.horizontal_arbitrary_roof(us, st.roof[0], "w", HorizontalArbitraryRoofParameter { coords: c2, placement: p });
            }
            _ => {
                let _ = t.space(st.space[0], "w", SpaceParameter { coords: c2, height: x, placement: p });
            }
        }
    }
    again(&b.build());
}
/// materials with 0..3 layers and constituents, every direction and sense
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_materials(k: u64) {
    let mut b = project("p");
    {
        let mut s = b.new_site("s", DVec3::ZERO);
        let mut u = s.new_building("u", DVec3::ZERO);
        let mut t = u.new_storey("t", 2.5);
        let l: Vec<_> = (0..k).map(|i| t.material_layer("m", MaterialLayer::new(i as f64, i == 1).name("l").priority(i as i64).category("c"))).collect();
        let set = t.material_layer_set(l);
        let d = match choice(3) {
            0 => LayerSetDirectionEnum::Axis1,
            1 => LayerSetDirectionEnum::Axis2,
            _ => LayerSetDirectionEnum::Axis3,
        };
        let e = if choice(2) == 0 { DirectionSenseEnum::Positive } else { DirectionSenseEnum::Negative };
        let _ = t.material_layer_set_usage(set, d, e, num());
        let c: Vec<_> = (0..k).map(|_| t.material_constituent("m", "c")).collect();
        let _ = t.material_constituent_set(c);
    }
    again(&b.build());
}

/// projects of 0..3 sites with 0..2 buildings of 0..2 storeys, with or without an element
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_tree(n: u64) {
    let mut a = Asked::default();
    let mut b = project("p");
    for i in 0..n {
        let mut s = b.new_site(&format!("s{i}"), DVec3::new(i as f64, 0.0, -0.5));
        let kn = if i + 1 == n { choice(if n > 2 { 2 } else { 4 }) } else { n - 2 };
        for k in 0..kn {
            let mut u = s.new_building("u", DVec3::new(0.0, k as f64, 0.0));
            let qn = if k + 1 < kn { k } else if n > 2 { 1 + choice(2) * 2 } else { choice(4) };
            for q in 0..qn {
                let mut t = u.new_storey("t", q as f64 * 2.5);
                if q + 1 == qn && choice(2) == 1 {
                    let st = stock(&mut t, STOREY, 1, &mut a);
                    step(&mut t, &st, [0, 8, 11][if n > 2 { 0 } else { choice(3) as usize }], 0, 0, &mut a);
                }
            }
        }
    }
    again(&b.build());
}
/// what an owner may be
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_owner(n: u64) {
    let x = name(choice(3));
    let x = x.as_str();
    let o = |k: u64| if k == n { Some(x) } else { None };
    let mut p = Person::empty();
    match choice(7) {
        0 => {}
        1 => p = p.id(x),
        2 => p = p.family_name(x),
        3 => p = p.add_middle_name(x).add_middle_name("m"),
        4 => p = p.add_prefix_title(x),
        5 => p = p.add_suffix_title("s").add_suffix_title(x),
        _ => p = p.id("1").family_name(x).given_name("g").add_middle_name("m").add_prefix_title(x).add_suffix_title("s"),
    }
    let b = IfcProjectBuilder::new(
        ApplicationInfo { developer: Organization::new(o(0), "dev", o(1)), version: "0.1", name: "app", short_name: "a" },
        OwnerInfo { owner: p, organization_name: "org" },
        "p",
    );
    again(&b.build());
}
/// types of every kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_types(n: u64) {
    let mut b = project("p");
    {
        let mut s = b.new_site("s", DVec3::ZERO);
        let mut u = s.new_building("u", DVec3::ZERO);
        let mut t = u.new_storey("t", 2.5);
        let l = t.material_layer("m", MaterialLayer::new(0.25, false));
        let set = t.material_layer_set([l]);
        match n {
            0 => drop(t.wall_type(set, "a", { let mut v = vec![WallTypeEnum::Movable, WallTypeEnum::Parapet, WallTypeEnum::Partitioning, WallTypeEnum::Plumbingwall, WallTypeEnum::Shear, WallTypeEnum::Solidwall, WallTypeEnum::Standard, WallTypeEnum::Polygonal, WallTypeEnum::Elementedwall, WallTypeEnum::Retainingwall, WallTypeEnum::UserDefined, WallTypeEnum::NotDefined]; v.swap_remove(choice(12) as usize) })),
            1 => drop(t.slab_type(set, "a", { let mut v = vec![SlabTypeEnum::Floor, SlabTypeEnum::Roof, SlabTypeEnum::Landing, SlabTypeEnum::BaseSlab, SlabTypeEnum::UserDefined, SlabTypeEnum::NotDefined]; v.swap_remove(choice(6) as usize) })),
            2 => drop(t.roof_type(set, "a", { let mut v = vec![RoofTypeEnum::FlatRoof, RoofTypeEnum::ShedRoof, RoofTypeEnum::GableRoof, RoofTypeEnum::HipRoof, RoofTypeEnum::HippedGableRoof, RoofTypeEnum::GambrelRoof, RoofTypeEnum::MansardRoof, RoofTypeEnum::BarrelRoof, RoofTypeEnum::RainbowRoof, RoofTypeEnum::ButterflyRoof, RoofTypeEnum::PavilionRoof, RoofTypeEnum::DomeRoof, RoofTypeEnum::UserDefined, RoofTypeEnum::NotDefined]; v.swap_remove(choice(14) as usize) })),
            3 => drop(t.window_type("a", { let mut v = vec![WindowTypeEnum::Window, WindowTypeEnum::Skylight, WindowTypeEnum::Lightdome, WindowTypeEnum::UserDefined, WindowTypeEnum::NotDefined]; v.swap_remove(choice(5) as usize) }, WindowPartitioningTypeEnum::NotDefined)),
            4 => drop(t.window_type("a", WindowTypeEnum::Skylight, { let mut v = vec![WindowPartitioningTypeEnum::SinglePanel, WindowPartitioningTypeEnum::DoublePanelVertical, WindowPartitioningTypeEnum::DoublePanelHorizontal, WindowPartitioningTypeEnum::TriplePanelVertical, WindowPartitioningTypeEnum::TriplePanelHorizontal, WindowPartitioningTypeEnum::TriplePanelBottom, WindowPartitioningTypeEnum::TriplePanelTop, WindowPartitioningTypeEnum::TriplePanelLeft, WindowPartitioningTypeEnum::TriplePanelRight, WindowPartitioningTypeEnum::UserDefined, WindowPartitioningTypeEnum::NotDefined]; v.swap_remove(choice(11) as usize) })),
            5 => drop(t.space_type("a", { let mut v = vec![SpaceTypeEnum::Space, SpaceTypeEnum::Parking, SpaceTypeEnum::Gfa, SpaceTypeEnum::Internal, SpaceTypeEnum::External, SpaceTypeEnum::UserDefined, SpaceTypeEnum::NotDefined]; v.swap_remove(choice(7) as usize) })),
            _ => drop(t.shading_device_type(set, "a", { let mut v = vec![ShadingDeviceTypeEnum::Awning, ShadingDeviceTypeEnum::Parking, ShadingDeviceTypeEnum::Shutter, ShadingDeviceTypeEnum::UserDefined, ShadingDeviceTypeEnum::NotDefined]; v.swap_remove(choice(5) as usize) })),
        }
    }
    again(&b.build());
}
/// property sets of several properties, with a unit, of objects of every kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_built_sets(n: u64) {
    let mut a = Asked::default();
    let mut b = project("p");
    {
        let mut s = b.new_site("s", DVec3::ZERO);
        let mut u = s.new_building("u", DVec3::ZERO);
        let mut t = u.new_storey("t", 2.5);
        let st = stock(&mut t, STOREY, 1, &mut a);
        let unit = if choice(2) == 1 { Some(st.glass[0].id()) } else { None };
        let mut q = t.add_properties("set");
        for i in 0..choice(4) {
            let v = match (i + n) % 5 {
                0 => IfcValue::Bool(BoolValue((choice(2) == 1).into())),
                1 => IfcValue::Label(LabelValue("x".into())),
                2 => IfcValue::Real(num().into()),
                3 => IfcValue::Identifier(IdentifierValue("y".into())),
                _ => IfcValue::ThermalTransmittance(0.25.into()),
            };
            let _ = q.single_property("k", v, unit);
        }
        let q = q.finish();
        match n {
            0 => t.relate_properties_object(q, st.wall[0]),
            1 => t.relate_properties_object(q, st.window[0]),
            2 => {
                let w = t.vertical_wall(st.usage[0], st.wall[0], "w", VerticalWallParameter { height: 2.0, length: 4.0, placement: DVec3::X }).finish();
                t.relate_properties_object(q, w);
                if choice(2) == 1 {
                    t.relate_properties_object(q, w);
                }
            }
            3 => {
                let c = vec![DVec2::ZERO, DVec2::new(4.0, 0.0), DVec2::new(0.0, 4.0)];
                let w = t.space(st.space[0], "w", SpaceParameter { coords: c, height: 2.0, placement: DVec3::Y });
                t.relate_properties_object(q, w);
            }
            4 => t.relate_properties_object(q, st.shade[0]),
            _ => {}
        }
    }
    again(&b.build());
}
