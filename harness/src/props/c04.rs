//! Matrix addition and subtraction equal the element-wise result.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    b: EntSpec,
    rel: u8,
    /// infinities, NaN, extreme numbers
    #[serde(default)]
    special: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (ty(), exp(), mat_spec(p, true), ent_spec(p.nmin, p.nmax, true), rel(), special())
            .prop_map(|(ty, exp, mut a, mut b, rel, special)| {
                let f = if special { no_tiny } else { tame };
                f(&mut a.e);
                f(&mut b);
                Case { ty, exp, a, b, rel, special }
            })
            .boxed()
    })
}
/// The smallest numbers vanish in sums, in an order that is not promised.
fn no_tiny(e: &mut EntSpec) {
    for x in &mut e.ents {
        for v in [&mut x.2, &mut x.3] {
            if *v == S_TINY {
                *v = 1;
            }
        }
    }
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C04",
        rule: "two random matrices of one shape (second independent, equal, negated, overlapping or empty), independent storage orders, each also with itself, infinities, NaN and extreme numbers in part of the cases, through every addition and subtraction form and ownership variant; non-trivial: both operands store at least 2 entries",
        assumptions: &["element sums are generated to be exact in the scalar type", "the entries of both operands together do not exceed the index type"],
        quick: 40_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let (ea, eb) = pair::<I, T>(&c.a, &c.b, c.rel, c.exp as i32);
    let (ma, mb) = (Model::of(&ea), Model::of(&eb));
    let plus = ma.add(&mb);
    // unsigned scalars: a difference may not exist
    let minus = if T::SIGNED { ma.sub(&mb) } else { plus.clone() };

    let csr = |m: CSR<I, T>, want: &Model<T>, what: &str, strict: bool| -> Result<(), String> {
        let o = obs_csr(&m, what)?;
        o.m.same(want, what)?;
        no_dups(&o.t, what)?;
        if strict {
            no_zeros(&o.t, what)?;
        }
        Ok(())
    };
    let csc = |m: CSC<I, T>, want: &Model<T>, what: &str| -> Result<(), String> {
        let o = obs_csc(&m, what)?;
        o.m.same(want, what)?;
        no_dups(&o.t, what)?;
        no_zeros(&o.t, what)
    };
    {
        let (a, b) = (ea.csr::<I>(), eb.csr::<I>());
        op("CSR + CSR");
        csr(&a + &b, &plus, "&CSR + &CSR", true)?;
        csr(a.clone() + &b, &plus, "CSR + &CSR", true)?;
        csr(&a + b.clone(), &plus, "&CSR + CSR", true)?;
        csr(a.clone() + b.clone(), &plus, "CSR + CSR", true)?;
        if T::SIGNED {
        op("CSR - CSR");
        csr(&a - &b, &minus, "&CSR - &CSR", true)?;
        csr(a.clone() - &b, &minus, "CSR - &CSR", true)?;
        csr(&a - b.clone(), &minus, "&CSR - CSR", true)?;
        csr(a.clone() - b.clone(), &minus, "CSR - CSR", true)?;
        }
        // a matrix and itself
        if 2 * ea.t.len() <= I::max_us() {
            op("CSR + itself");
            let twice = ma.add(&ma);
            csr(&a + &a, &twice, "&a + &a", true)?;
            if T::SIGNED {
                csr(&a - &a, &ma.sub(&ma), "&a - &a", true)?;
            }
        }
        // operands are left as they were
        same_bag(&obs_csr(&a, "left operand")?.t, &ea.t, "left operand afterwards")?;
        same_bag(&obs_csr(&b, "right operand")?.t, &eb.t, "right operand afterwards")?;
    }
    {
        let a = || ea.csc::<I>();
        let b = || eb.csc::<I>();
        op("CSC + CSC");
        csc(&a() + &b(), &plus, "&CSC + &CSC")?;
        csc(a() + &b(), &plus, "CSC + &CSC")?;
        csc(&a() + b(), &plus, "&CSC + CSC")?;
        csc(a() + b(), &plus, "CSC + CSC")?;
        if T::SIGNED {
        op("CSC - CSC");
        csc(&a() - &b(), &minus, "&CSC - &CSC")?;
        csc(a() - &b(), &minus, "CSC - &CSC")?;
        csc(&a() - b(), &minus, "&CSC - CSC")?;
        csc(a() - b(), &minus, "CSC - CSC")?;
        op("CSC::subtract");
        csc(okay(a().subtract(&b()), "CSC::subtract")?, &minus, "CSC::subtract")?;
        }
        if 2 * ea.t.len() <= I::max_us() {
            op("CSC + itself");
            let a = a();
            csc(&a + &a, &ma.add(&ma), "&CSC + itself")?;
            csc(okay(CSC::add(&a, &a), "CSC::add itself")?, &ma.add(&ma), "CSC::add itself")?;
            if T::SIGNED {
                csc(&a - &a, &ma.sub(&ma), "&CSC - itself")?;
            }
        }
        op("CSC::add");
        csc(okay(CSC::add(&a(), &b()), "CSC::add")?, &plus, "CSC::add")?;
    }
    {
        let (a, b) = (ea.coo::<I>(), eb.coo::<I>());
        op("Coo + Coo");
        csr(&a + &b, &plus, "&Coo + &Coo", false)?;
        csr(a.clone() + &b, &plus, "Coo + &Coo", false)?;
        csr(&a + b.clone(), &plus, "&Coo + Coo", false)?;
        csr(a.clone() + b.clone(), &plus, "Coo + Coo", false)?;
        if 2 * ea.t.len() <= I::max_us() {
            csr(&a + &a, &ma.add(&ma), "&Coo + itself", false)?;
        }
    }
    let overlap = ma.m.keys().any(|k| mb.m.contains_key(k));
    let cancel = ma.m.keys().any(|&(r, k)| mb.m.contains_key(&(r, k)) && (plus.get(r, k).same(T::zero()) || minus.get(r, k).same(T::zero())));
    let cov = Cov::new(ea.t.len() >= 2 && eb.t.len() >= 2)
        .class_if(overlap, "positions overlap")
        .class_if(cancel, "elements cancel")
        .class_if(c.special, "special values")
        .class_if(ea.layout == 3 && eb.layout == 3, "both canonical");
    Ok(mat_classes(cov, c.ty, &ea))
}
