use crate::bld::*;
use crate::p18::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P19";
    job!(j, h_moved, 0..ELEMENTS);
    job!(j, h_moved_among, 0..ELEMENTS);
    job!(j, h_moved_by_storey, 0..7);
    job!(j, h_moved_again, 0..7);
}
/// the transforms tried: symbolic translations, each axis alone and all of them, rotations
fn moves(how: u64) -> Move {
    moves_by(how, [1.5, -2.25, 10.125])
}
/// one component symbolic
fn any() -> [f64; 3] {
    let mut c = [3.5, -0.25, 0.0];
    let k = choice(3);
    c[k as usize] = coord(k);
    c
}
fn moves_by(how: u64, c: [f64; 3]) -> Move {
    let id = [X, Y, Z];
    let d = TransformParameter::default();
    let r = 0.8660254037844386;
    let (param, to, axes) = match how {
        0 => (d.translation(v3(c)), c, id),
        1 => (d.x_rotation(v3([3.0, 0.0, 4.0])), O, [[0.6, 0.0, 0.8], Y, Z]),
        2 => (d.y_rotation(v3([0.0, 0.0, -2.0])).translation(v3(c)), c, [X, [0.0, 0.0, -1.0], Z]),
        3 => (d.z_rotation(v3([0.0, 5.0, 12.0])).x_rotation(DVec3::ZERO), O, [X, Y, [0.0, 5.0 / 13.0, 12.0 / 13.0]]),
        4 => (d.rotation(bevy_math::DQuat::from_xyzw(0.0, 0.0, r, 0.5)).translation(v3(c)), c, [[-0.5, r, 0.0], [-r, -0.5, 0.0], Z]),
        5 => (d.y_rotation(DVec3::ZERO).z_rotation(DVec3::ZERO).translation(DVec3::ZERO), O, id),
        6 => (d.translation(DVec3::X).translation(v3(c)).x_rotation(v3([0.0, 1.0, 0.0])).x_rotation(v3([0.0, 0.0, 1.0])), c, [Z, Y, Z]),
        _ => (d.rotation(bevy_math::DQuat::from_xyzw(0.5, 0.5, 0.5, 0.5)), O, [Y, Z, X]),
    };
    Move { param, wrap: Wrap { origin: O, to, axes } }
}
fn start(q: &mut Num, k: u64) {
    if k == 2 {
        q.dir = ([0.0, -1.0, 0.0], [0.0, -1.0, 0.0]);
    }
    WINDOW.with(|c| *c.borrow_mut() = q.inner);
}
/// one element with what is attached to it
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_moved(k: u64) {
    let mut q = plain(0.0);
    let how = choice(8);
    let mut m = moves(how);
    match choice(3) {
        0 => {}
        1 => q.inner = any(),
        _ => m = moves_by(how, any()),
    }
    start(&mut q, k);
    EARLY.with(|c| c.set(choice(2) == 1));
    let mut w = vec![];
    let f = build(|t| {
        let st = stock(t, STOREY, 1, &mut Asked::default());
        element(t, &st, k, 0, 0.25, &q, Some(&m), &mut w);
    });
    verify(&f, &w);
}
/// among others which are transformed in another way or not at all
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_moved_among(k: u64) {
    sym::hash_seed(choice(2) * 4321 + 3);
    let (mut q, mut r) = (plain(0.0), plain(2.0));
    r.inner = q.inner;
    start(&mut q, k);
    let (m, o) = (moves(0), moves(choice(2) + 1));
    let other = [17, 3, 12, 11, 15][choice(5) as usize];
    let first = choice(2) == 0;
    let moved = choice(2) == 1;
    let mut w = vec![];
    let f = build(|t| {
        let st = stock(t, STOREY, 1, &mut Asked::default());
        if first {
            element(t, &st, other, 0, 0.25, &r, moved.then_some(&o), &mut w);
        }
        element(t, &st, k, 0, 0.25, &q, Some(&m), &mut w);
        if !first {
            element(t, &st, other, 0, 0.25, &r, moved.then_some(&o), &mut w);
        }
    });
    verify(&f, &w);
}
/// transforms through the storey, of the element of that number or all of what `element` makes
fn by_storey(t: &mut IfcStoreyBuilder, w: &mut [Want], m: &Move, which: usize) {
    let x = &mut w[which];
    let id = Id(x.id as usize);
    match (x.what, x.parent) {
        ("wall", _) => t.transform(TypedId::<Wall>::new(id), &m.param),
        ("slab", _) => t.transform(TypedId::<Slab>::new(id), &m.param),
        ("opening", _) => t.transform(TypedId::<OpeningElement>::new(id), &m.param),
        ("window", _) => t.transform(TypedId::<Window>::new(id), &m.param),
        ("roof", _) => t.transform(TypedId::<Roof>::new(id), &m.param),
        ("shading", _) => t.transform(TypedId::<ShadingDevice>::new(id), &m.param),
        _ => return,
    }
    x.wraps.push(m.wrap.clone());
}
const KINDS: [u64; 7] = [0, 17, 1, 11, 14, 15, 16];
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_moved_by_storey(n: u64) {
    let mut q = plain(0.0);
    start(&mut q, KINDS[n as usize]);
    let m = moves(choice(8));
    let mut w = vec![];
    let f = build(|t| {
        let st = stock(t, STOREY, 1, &mut Asked::default());
        element(t, &st, KINDS[n as usize], 0, 0.25, &q, None, &mut w);
        let which = choice(w.len() as u64) as usize;
        by_storey(t, &mut w, &m, which);
    });
    verify(&f, &w);
}
/// several transforms one after the other
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_moved_again(n: u64) {
    let mut q = plain(0.0);
    start(&mut q, KINDS[n as usize]);
    let own = choice(2) == 1;
    let first = moves(0);
    let mut w = vec![];
    let f = build(|t| {
        let st = stock(t, STOREY, 1, &mut Asked::default());
        element(t, &st, KINDS[n as usize], 0, 0.25, &q, own.then_some(&first), &mut w);
        for k in 0..2 {
            let m = moves(if k == 0 { 2 } else { choice(3) * 2 });
            let which = choice(w.len() as u64) as usize;
            by_storey(t, &mut w, &m, which);
        }
    });
    verify(&f, &w);
}
