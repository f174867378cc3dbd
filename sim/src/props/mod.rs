use crate::plan::Violation;
use crate::rng::Rng;
use crate::stats::Stats;
use crate::worker::rng_for;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c20;
pub mod c21;
pub mod walk;

/// Number of seeded runs on the two builds of the crate under test
pub struct Runs {
    pub std: u64,
    pub libm: u64,
}

pub trait Prop {
    const ID: &'static str;
    /// when a run counts as non-trivial, and what makes two runs distinct
    const RULE: &'static str;
    const REAL: &'static str;
    const STUB: &'static str;
    const ASSUMPTIONS: &'static [&'static str];
    type Plan: Serialize + DeserializeOwned;
    fn runs(quick: bool) -> Runs;
    fn gen(r: &mut Rng, index: u64) -> Self::Plan;
    fn exec(plan: &Self::Plan, st: &mut Stats) -> Result<(), Violation>;
}

pub trait DynProp {
    fn id(&self) -> &'static str;
    fn meta(&self) -> (&'static str, &'static str, &'static str, &'static [&'static str]);
    fn runs(&self, quick: bool) -> Runs;
    fn plan(&self, seed: u64, index: u64) -> Value;
    fn run(&self, seed: u64, index: u64, st: &mut Stats) -> Result<(), (Violation, Value)>;
    fn exec_value(&self, plan: &Value, st: &mut Stats) -> Option<Result<(), Violation>>;
    fn describe(&self, seed: u64, index: u64) -> String;
}

struct D<P>(std::marker::PhantomData<P>);

impl<P: Prop> DynProp for D<P> {
    fn id(&self) -> &'static str {
        P::ID
    }
    fn meta(&self) -> (&'static str, &'static str, &'static str, &'static [&'static str]) {
        (P::RULE, P::REAL, P::STUB, P::ASSUMPTIONS)
    }
    fn runs(&self, quick: bool) -> Runs {
        P::runs(quick)
    }
    fn plan(&self, seed: u64, index: u64) -> Value {
        serde_json::to_value(P::gen(&mut rng_for(seed, P::ID, index), index)).expect("plan")
    }
    fn run(&self, seed: u64, index: u64, st: &mut Stats) -> Result<(), (Violation, Value)> {
        let plan = P::gen(&mut rng_for(seed, P::ID, index), index);
        P::exec(&plan, st).map_err(|v| (v, serde_json::to_value(&plan).expect("plan")))
    }
    fn exec_value(&self, plan: &Value, st: &mut Stats) -> Option<Result<(), Violation>> {
        let plan: P::Plan = serde_json::from_value(plan.clone()).ok()?;
        Some(P::exec(&plan, st))
    }
    fn describe(&self, seed: u64, index: u64) -> String {
        crate::worker::describe_default(self, seed, index)
    }
}

fn dynamic<P: Prop + 'static>() -> Box<dyn DynProp> {
    Box::new(D::<P>(std::marker::PhantomData))
}

pub fn all() -> Vec<Box<dyn DynProp>> {
    vec![dynamic::<c01::C01>(), dynamic::<c02::C02>(), dynamic::<c03::C03>(), dynamic::<c04::C04>(), dynamic::<c05::C05>(), dynamic::<c06::C06>(), dynamic::<c07::C07>(), dynamic::<c08::C08>(), dynamic::<c09::C09>(), dynamic::<c10::C10>(), dynamic::<c11::C11>(), dynamic::<c12::C12>(), dynamic::<c13::C13>(), dynamic::<c20::C20>(), dynamic::<c21::C21>()]
}

pub fn find(id: &str) -> Option<Box<dyn DynProp>> {
    all().into_iter().find(|p| p.id() == id)
}
