use crate::common::*;
use crate::spec::{self, *};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P03";
    job!(j, h_record, 0..KINDS.len());
}

const WORD: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-+.,:;()#$*=!?<>[]{}\"&%@~^|`/";

/// given values carry symbolic content, so that no two attributes can be exchanged unnoticed
/// (references of the attribute under focus are symbolic, the others are pairwise different)
fn given(a: A, focus: bool, next: &mut usize, out: &mut String) {
    use spec::A::*;
    let mut id = || {
        if focus {
            return format!("#90{}", sym::text(1, b"123456789"));
        }
        *next += 1;
        format!("#{}", 900 + *next)
    };
    let txt = || format!("'{}'", sym::text(2, WORD));
    let real = || match choice(4) {
        3 if focus => "0.".to_string(),
        c => format!("{}{}", sym::text(2, b"123456789"), [".", ".5", ".0625", ".25"][c as usize]),
    };
    let int = || sym::text(1, if focus { b"0123456789" } else { b"123456789" });
    let s = match a {
        S | OS => txt(),
        R(_) | OR(_) | I | OI => id(),
        LR(_) | OLR(_) | LI | OLI => format!("({},{})", id(), id()),
        OLS => format!("({},{})", txt(), txt()),
        E(w) | OE(w) => w[choice(w.len() as u64) as usize].into(),
        X | OX => real(),
        N | ON | T | OT => int(),
        OLN => format!("({},{})", int(), int()),
        B | OB => [".TRUE.", ".FALSE.", ".UNKNOWN."][choice(3) as usize].into(),
        V2 => format!("({},{})", real(), real()),
        V3 => format!("({},{},{})", real(), real(), real()),
        LV2 => format!("(({},{}),({},{}))", real(), real(), real(), real()),
        LV3 => format!("(({},{},{}))", real(), real(), real()),
        Val => match choice(5) {
            0 => ["IFCBOOLEAN(.TRUE.)", "IFCBOOLEAN(.FALSE.)", "IFCBOOLEAN(.UNKNOWN.)"][choice(3) as usize].into(),
            1 => format!("IFCLABEL({})", txt()),
            2 => format!("IFCREAL({})", real()),
            3 => format!("IFCIDENTIFIER({})", txt()),
            _ => format!("IFCTHERMALTRANSMITTANCEMEASURE({})", real()),
        },
        Guid => plain(a, ""),
    };
    out.push_str(&s);
}

/// one record of kind `k`: one attribute in every state, the others all given or all omitted
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_record(k: u64) {
    let k = &KINDS[k as usize];
    let focus = choice(k.attrs.len() as u64) as usize;
    let rest = choice(2) == 1;
    let state = if optional(k.attrs[focus]) { choice(3) } else { 0 };
    let mut d = String::from("#7= ");
    d.push_str(keyword(k));
    d.push('(');
    let mut next = 0;
    for (i, a) in k.attrs.iter().enumerate() {
        if i > 0 {
            d.push(',');
        }
        if i == focus {
            match state {
                0 => given(*a, i == focus, &mut next, &mut d),
                1 => d.push('$'),
                _ => d.push('*'),
            }
        } else if rest && !matches!(a, A::E(_) | A::OE(_) | A::B | A::OB | A::Val) {
            given(*a, i == focus, &mut next, &mut d)
        } else {
            d.push_str(&plain(*a, "901"))
        }
    }
    d.push_str(");\n");
    for i in 901..916 {
        d.push_str(&format!("#{i}= IFCNOSUCHTHING(1);\n"));
    }
    match load(&d) {
        None => check(false, "record.rejected"),
        Some(f) => {
            check((k.is)(&f, 7), "record.kind");
            eq(&f.data.to_string(), &data(&d), "record.changed");
        }
    }
}
