use crate::bld::*;
use Link::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P09";
    job!(j, h_linked, 0..STEPS);
    job!(j, h_linked_more, 0..STEPS, true, 200000, 1500);
    job!(j, h_linked_names, 0..STEPS);
    job!(j, h_linked_picked, 0..PICKED.len());
    job!(j, h_linked_tree, 0..6);
}
fn finish(b: IfcProjectBuilder, a: &mut Asked, id: &str) {
    let f = read(&b.build());
    a.resolve(&f);
    a.verify(&f, id);
}
fn calls(first: u64, more: u64) {
    sym::hash_seed(choice(2) * 12345 + 1);
    let mut a = Asked::default();
    let mut b = project("p");
    a.links.extend([(Part, PROJECT, SITE), (Part, SITE, BUILDING), (Part, BUILDING, STOREY), (Properties, 0, STOREY)]);
    {
        let mut s = b.new_site("s0", DVec3::ZERO);
        let mut u = s.new_building("u0", DVec3::ZERO);
        let mut t = u.new_storey("t0", 2.5);
        let st = stock(&mut t, STOREY, 2, &mut a);
        step(&mut t, &st, first, 0, 0, &mut a);
        for _ in 0..more {
            let op = choice(STEPS);
            let ty = choice(2) as usize;
            let m = if op < 11 { choice(2) as usize } else { 0 };
            step(&mut t, &st, op, ty, m, &mut a);
        }
    }
    finish(b, &mut a, "linked");
}
/// a given call and another one on one storey
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_linked(first: u64) {
    calls(first, 1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_linked_more(first: u64) {
    calls(first, 2);
}
/// several sites, buildings and storeys; types used in another storey than the one they were made in
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_linked_tree(n: u64) {
    let mut a = Asked::default();
    let mut b = project("p");
    let (mut nu, mut nt) = (0, 0);
    let mut stocks: Vec<Stock> = vec![];
    for i in 0..1 + n / 3 {
        a.links.push((Part, PROJECT, SITE + i));
        let mut s = b.new_site(&format!("s{i}"), DVec3::ZERO);
        for _ in 0..if i == 0 { n % 3 } else { choice(2) } {
            a.links.push((Part, SITE + i, BUILDING + nu));
            let mut u = s.new_building(&format!("u{nu}"), DVec3::ZERO);
            for _ in 0..if nu == 0 { choice(3) } else { choice(2) } {
                a.links.push((Part, BUILDING + nu, STOREY + nt));
                a.links.push((Properties, 0, STOREY + nt));
                let mut t = u.new_storey(&format!("t{nt}"), 2.5);
                if stocks.is_empty() {
                    stocks.push(stock(&mut t, STOREY, 1, &mut a));
                }
                stocks[0].storey = STOREY + nt;
                if nt < 2 {
                    let op = if nt == 0 { 2 } else { [2, 8, 9, 10, 11][choice(5) as usize] };
                    step(&mut t, &stocks[0], op, 0, 0, &mut a);
                }
                nt += 1;
            }
            nu += 1;
        }
    }
    finish(b, &mut a, "tree");
}
/// arbitrary names, equal ones included; every combination of types and materials
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_linked_names(first: u64) {
    let mut a = Asked { named: Some(vec![]), ..Asked::default() };
    let mut b = project("p");
    a.links.extend([(Part, PROJECT, SITE), (Part, SITE, BUILDING), (Part, BUILDING, STOREY), (Properties, 0, STOREY)]);
    {
        let mut s = b.new_site("s0", DVec3::ZERO);
        let mut u = s.new_building("u0", DVec3::ZERO);
        let mut t = u.new_storey("t0", 2.5);
        let st = stock(&mut t, STOREY, 2, &mut a);
        let pick = || choice(2) as usize;
        step(&mut t, &st, first, pick(), pick(), &mut a);
        step(&mut t, &st, first, pick(), pick(), &mut a);
        step(&mut t, &st, [0, 4, 6, 9, 12][choice(5) as usize], pick(), 1, &mut a);
    }
    finish(b, &mut a, "named");
}
const PICKED: [u64; 6] = [0, 4, 6, 9, 10, 11];
/// the type and the material are any of those there are: one query for all of them
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_linked_picked(k: u64) {
    let op = PICKED[k as usize];
    let mut a = Asked { named: Some(vec![]), ..Asked::default() };
    let mut b = project("p");
    a.links.extend([(Part, PROJECT, SITE), (Part, SITE, BUILDING), (Part, BUILDING, STOREY), (Properties, 0, STOREY)]);
    {
        let mut s = b.new_site("s0", DVec3::ZERO);
        let mut u = s.new_building("u0", DVec3::ZERO);
        let mut t = u.new_storey("t0", 2.5);
        let st = stock(&mut t, STOREY, 3, &mut a);
        step(&mut t, &st, op, sym::u64_in(0, 2) as usize, 0, &mut a);
        step(&mut t, &st, op, 1, if op == 11 { 0 } else { sym::u64_in(0, 2) as usize }, &mut a);
    }
    finish(b, &mut a, "picked");
}
