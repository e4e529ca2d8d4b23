use crate::case::Case;
use crate::ctx::{self, Ctx, Verdict};
use simcore::rng::Rng;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c23;
pub mod py;

pub trait Prop {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str;
    fn quick_secs(&self) -> u64 {
        45
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case;
    /// shrunk cases have to keep the shape the check expects
    fn valid(&self, c: &Case) -> bool;
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict;
}

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = vec![
        Box::new(c01::C01),
        Box::new(c02::C02),
        Box::new(c03::C03),
        Box::new(c04::C04),
        Box::new(c05::C05),
        Box::new(c06::C06),
        Box::new(c07::C07),
        Box::new(c08::C08),
        Box::new(c09::C09),
        Box::new(c10::C10),
        Box::new(c11::C11),
        Box::new(c12::C12),
        Box::new(c13::C13),
        Box::new(c14::C14),
        Box::new(c15::C15),
        Box::new(c16::C16),
        Box::new(c17::C17),
        Box::new(c18::C18),
    ];
    // these need the build with the Python bindings
    if cfg!(feature = "python") {
        v.push(Box::new(c19::C19));
        v.push(Box::new(c20::C20));
        v.push(Box::new(c23::C23));
    }
    v
}
pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    all().into_iter().find(|p| p.id() == id)
}

/// the verdict on a case, with the defects of argmin set apart
pub fn judge(p: &dyn Prop, case: &Case, ctx: &mut Ctx) -> Verdict {
    let mut v = p.check(case, ctx);
    if let Err(e) = &mut v {
        let kind = if e.kind != "no-progress" {
            None
        } else if e.detail.starts_with(ctx::STUCK) && case.uses_line_search() {
            Some("line-search")
        } else if e.detail.starts_with(ctx::SPIN) && case.uses_newton() {
            Some("newton-cg")
        } else {
            None
        };
        // it is the local solver only if another one finishes
        if let Some(k) = kind {
            let mut other = case.clone();
            other.each_params(|p| p.solver = 0);
            match p.check(&other, ctx) {
                Err(o)
                    if matches!(
                        o.kind.as_str(),
                        "no-progress" | "hang" | "deadlock" | "died"
                    ) =>
                {
                    return Err(o);
                }
                _ => e.kind = k.into(),
            }
        }
        // recorded as findings of C14
        if matches!(e.kind.as_str(), "line-search" | "newton-cg") && p.id() != "C14" {
            ctx.probe(&format!("skipped: local solver does not end ({})", e.kind));
            v = Ok(());
        }
    }
    v
}
