use crate::common::*;

pub fn jobs(j: &mut Jobs) {
    j.1 = "P07";
    job!(j, h_store, 0..NOPS * STARTS);
    job!(j, h_store_loaded, 0..3);
    job!(j, h_store_ids, 0..1);
    job!(j, h_store_many, 0..NOPS);
    job!(j, h_store_sym, 0..8);
    job!(j, h_store_load_any, 0..1);
    job!(j, h_store_long, 0..NOPS * STARTS, true, 200000, 1500);
}

/// what the store is expected to hold
#[derive(Clone)]
struct Ref(Vec<(usize, u8, String)>);
impl Ref {
    fn at(&self, id: usize) -> Option<&(usize, u8, String)> {
        self.0.iter().find(|e| e.0 == id)
    }
    fn set(&mut self, id: usize, kind: u8, s: String) {
        self.0.retain(|e| e.0 != id);
        self.0.push((id, kind, s));
        self.0.sort_by_key(|e| e.0);
    }
    fn drop(&mut self, id: usize) {
        self.0.retain(|e| e.0 != id);
    }
    fn max(&self) -> usize {
        self.0.last().map_or(0, |e| e.0)
    }
}

const SET: &str = "IFCMATERIALLAYERSET((),$,$);";
fn unit(c: &str) -> MonetaryUnit {
    MonetaryUnit { currency: c.into() }
}
fn unit_text(c: &str) -> String {
    format!("IFCMONETARYUNIT('{c}');")
}

fn ids_of<T: IfcType>(f: &IFC) -> Vec<usize> {
    f.data.id_of::<T>().map(|i| i.id().0).collect()
}
fn listed<T: IfcType>(f: &IFC, r: &Ref, kind: u8, id: &str) {
    let want: Vec<&(usize, u8, String)> = r.0.iter().filter(|e| e.1 == kind).collect();
    let mut n = 0;
    for (i, v) in f.data.find_all_of_type::<T>() {
        if n >= want.len() {
            check(false, id);
            return;
        }
        check(i.id().0 == want[n].0, id);
        eq(&v.to_string(), &want[n].2, id);
        n += 1;
    }
    check(n == want.len(), id);
    let l = ids_of::<T>(f);
    check(l.len() == want.len() && l.iter().zip(&want).all(|(a, b)| *a == b.0), id);
}
/// the whole content, in every way it can be asked for
fn same(f: &IFC, r: &Ref, probes: &[usize]) {
    listed::<Dummy>(f, r, 0, "store.list.dummy");
    listed::<MonetaryUnit>(f, r, 1, "store.list.unit");
    listed::<MaterialLayerSet>(f, r, 2, "store.list.set");
    check(ids_of::<Wall>(f).is_empty(), "store.list.other");
    for p in probes {
        check(f.data.contains(&Id(*p)) == r.at(*p).is_some(), "store.contains");
    }
    for e in &r.0 {
        eq(&f.data.get_untyped(Id(e.0)).to_string(), &e.2, "store.get");
        match e.1 {
            0 => eq(&f.data.get(TypedId::<Dummy>::new(Id(e.0))).to_string(), &e.2, "store.get.typed"),
            1 => eq(&f.data.get(TypedId::<MonetaryUnit>::new(Id(e.0))).to_string(), &e.2, "store.get.typed"),
            _ => eq(&f.data.get(TypedId::<MaterialLayerSet>::new(Id(e.0))).to_string(), &e.2, "store.get.typed"),
        }
    }
    let mut d = String::new();
    for e in &r.0 {
        d.push_str(&format!("#{}= {}\n", e.0, e.2));
    }
    eq(&f.data.to_string(), &data(&d), "store.text");
}
fn old(o: Option<Box<dyn IfcType>>, r: &Ref, id: usize, what: &str) {
    match (o, r.at(id)) {
        (None, None) => {}
        (Some(v), Some(e)) => eq(&v.to_string(), &e.2, what),
        _ => check(false, what),
    }
}

const NOPS: usize = 12;
const STARTS: usize = 3;
const IDS: [usize; 2] = [3, 7];

fn step(f: &mut IFC, r: &mut Ref, op: u64, ids: [usize; 2]) {
    let letters = b"abcdefgh";
    match op {
        0 => {
            let t = sym::text(1, letters);
            let i = f.data.insert_new(unit(&t)).id().0;
            check(i >= 1 && i > r.max(), "store.new.id");
            check(r.at(i).is_none(), "store.new.used");
            r.set(i, 1, unit_text(&t));
        }
        1 => {
            let t = sym::text(1, letters);
            let i = f.data.insert_new(Dummy { s: t.clone() }).id().0;
            check(i >= 1 && i > r.max(), "store.new.id");
            r.set(i, 0, format!("{t};"));
        }
        2 | 3 => {
            let id = ids[op as usize - 2];
            let t = sym::text(1, letters);
            old(f.data.insert(Id(id), unit(&t)), r, id, "store.insert.old");
            r.set(id, 1, unit_text(&t));
        }
        4 | 5 => {
            let id = ids[op as usize - 4];
            let t = sym::text(1, letters);
            old(f.data.insert(Id(id), Dummy { s: t.clone() }), r, id, "store.insert.old");
            r.set(id, 0, format!("{t};"));
        }
        6 | 7 => {
            let id = ids[op as usize - 6];
            f.data.insert_if_not_exists::<MaterialLayerSet>(Id(id));
            if r.at(id).is_none() {
                r.set(id, 2, SET.into());
            }
        }
        8 | 9 => {
            let id = ids[op as usize - 8];
            old(f.data.remove(Id(id)), r, id, "store.remove.old");
            r.drop(id);
        }
        10 => {
            // the record with the highest id
            let id = r.max();
            old(f.data.remove(Id(id)), r, id, "store.remove.old");
            r.drop(id);
        }
        _ => {
            // change a value in place
            let id = ids[0];
            if r.at(id).map(|e| e.1) == Some(0) {
                let t = sym::text(1, letters);
                f.data.get_mut(TypedId::<Dummy>::new(Id(id))).s = t.clone();
                r.set(id, 0, format!("{t};"));
            }
        }
    }
}
fn start(k: usize) -> (IFC, Ref) {
    let mut f = IFC::default();
    let mut r = Ref(vec![]);
    // none, two, and enough for several nodes of the map
    for i in 0..[0, 2, 13][k] {
        let id = 1 + i * 2;
        let s = format!("x{i}");
        f.data.insert(Id(id), Dummy { s: s.clone() });
        r.set(id, 0, format!("{s};"));
    }
    (f, r)
}
const PROBES: &[usize] = &[0, 1, 2, 3, 4, 7, 8, 9, 26];

/// any history of three operations
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_store(n: u64) {
    let (mut f, mut r) = start(n as usize / NOPS);
    step(&mut f, &mut r, n % NOPS as u64, IDS);
    step(&mut f, &mut r, choice(NOPS as u64), IDS);
    // asking changes nothing
    if choice(2) == 1 {
        same(&f, &r, &[]);
    }
    step(&mut f, &mut r, choice(NOPS as u64), IDS);
    same(&f, &r, PROBES);
}
/// any history of five operations
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_store_long(n: u64) {
    let (mut f, mut r) = start(n as usize / NOPS);
    step(&mut f, &mut r, n % NOPS as u64, IDS);
    for _ in 0..3 {
        step(&mut f, &mut r, choice(NOPS as u64), IDS);
    }
    same(&f, &r, PROBES);
    step(&mut f, &mut r, choice(2), IDS);
    same(&f, &r, PROBES);
}
/// many records
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_store_many(n: u64) {
    let mut f = IFC::default();
    let mut r = Ref(vec![]);
    for i in 0..300usize {
        // not in the order of their ids
        let id = 1 + (i * 7) % 300 * 3;
        match i % 3 {
            0 => {
                f.data.insert(Id(id), Dummy { s: format!("x{i}") });
                r.0.push((id, 0, format!("x{i};")));
            }
            1 => {
                f.data.insert(Id(id), unit("EUR"));
                r.0.push((id, 1, unit_text("EUR")));
            }
            _ => {
                f.data.insert_if_not_exists::<MaterialLayerSet>(Id(id));
                r.0.push((id, 2, SET.into()));
            }
        }
    }
    r.0.sort_by_key(|e| e.0);
    let ids = [[1, 2], [898, 450], [301, 897]][choice(3) as usize];
    step(&mut f, &mut r, n, ids);
    step(&mut f, &mut r, choice(2), ids);
    same(&f, &r, &[0, 1, 2, 298, 450, 899, 900]);
}
/// operations on a loaded model
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_store_loaded(n: u64) {
    let recs = [
        (3, 0, "IFCX(1);".to_string()),
        (7, 1, unit_text("EUR")),
        (12, 2, SET.to_string()),
    ];
    // in any order in the file
    let o = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choice(4) as usize];
    let mut d = String::new();
    for i in o {
        d.push_str(&format!("#{}= {}\n", recs[i].0, recs[i].2));
    }
    let mut f = load(&d).expect("loads");
    let mut r = Ref(vec![]);
    for (i, k, s) in recs {
        r.set(i, k, s);
    }
    same(&f, &r, PROBES);
    step(&mut f, &mut r, choice(4) + 4 * n, IDS);
    step(&mut f, &mut r, choice(NOPS as u64), IDS);
    same(&f, &r, PROBES);
}

/// ids of any size
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_store_ids(_: u64) {
    let mut f = IFC::default();
    let a = sym::u64_in(0, u64::MAX - 2) as usize;
    let b = sym::u64_in(0, u64::MAX - 2) as usize;
    let mut r = Ref(vec![]);
    f.data.insert(Id(a), Dummy { s: "a".into() });
    r.set(a, 0, "a;".into());
    old(f.data.insert(Id(b), unit("b")), &r, b, "store.insert.old");
    r.set(b, 1, unit_text("b"));
    check(f.data.contains(&Id(a)) && f.data.contains(&Id(b)), "store.ids.contains");
    let i = f.data.insert_new(Dummy { s: "c".into() }).id().0;
    check(i >= 1 && i > a && i > b, "store.ids.new");
    r.set(i, 0, "c;".into());
    check(f.data.find_all_of_type::<Dummy>().count() == r.0.iter().filter(|e| e.1 == 0).count(), "store.ids.count");
    for e in &r.0 {
        eq(&f.data.get_untyped(Id(e.0)).to_string(), &e.2, "store.ids.get");
    }
    let mut last = None;
    for (x, _) in f.data.find_all_of_type::<Dummy>() {
        check(last.map_or(true, |l| l < x.id().0), "store.ids.order");
        last = Some(x.id().0);
    }
    f.data.remove(Id(b));
    check(!f.data.contains(&Id(b)) && (a == b || f.data.contains(&Id(a))) && f.data.contains(&Id(i)), "store.ids.removed");
}

/// histories on two ids that are any numbers, equal ones included
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_store_sym(n: u64) {
    let mut f = IFC::default();
    let mut r = Ref(vec![]);
    f.data.insert(Id(1000), Dummy { s: "x".into() });
    r.set(1000, 0, "x;".into());
    let ids = [sym::u64_in(0, u64::MAX - 4) as usize, sym::u64_in(0, u64::MAX - 4) as usize];
    step(&mut f, &mut r, 2 + n, ids);
    step(&mut f, &mut r, choice(NOPS as u64), ids);
    step(&mut f, &mut r, choice(NOPS as u64), ids);
    for i in ids {
        check(f.data.contains(&Id(i)) == r.at(i).is_some(), "store.sym.contains");
    }
    for e in &r.0 {
        check(f.data.contains(&Id(e.0)), "store.sym.contains");
        eq(&f.data.get_untyped(Id(e.0)).to_string(), &e.2, "store.sym.get");
    }
    let all: Vec<usize> = ids_of::<Dummy>(&f).into_iter().chain(ids_of::<MonetaryUnit>(&f)).chain(ids_of::<MaterialLayerSet>(&f)).collect();
    check(all.len() == r.0.len(), "store.sym.count");
}

/// ids of any digits in a file: a new record comes behind them
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_store_load_any(_: u64) {
    let x = sym::text(1 + choice(6) as usize, b"0123456789");
    let y = sym::text(1 + choice(2) as usize, b"0123456789");
    sym::assume(x.len() == 1 || x.as_bytes()[0] != b'0');
    sym::assume(y.len() == 1 || y.as_bytes()[0] != b'0');
    let d = format!("#{x}= IFCX(1);\n#{y}= IFCY(1);\n");
    let mut f = load(&d).expect("loads");
    let (a, b): (usize, usize) = (x.parse().unwrap(), y.parse().unwrap());
    check(f.data.contains(&Id(a)) && f.data.contains(&Id(b)), "store.any.contains");
    let i = f.data.insert_new(unit("b")).id().0;
    check(i >= 1 && i > a.max(b), "store.any.new");
    eq(&f.data.get_untyped(Id(b)).to_string(), "IFCY(1);", "store.any.get");
    if a != b {
        eq(&f.data.get_untyped(Id(a)).to_string(), "IFCX(1);", "store.any.get");
    }
}
