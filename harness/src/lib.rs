//! Property-based checks of sparsetools. One module per property under `props`.
#![allow(clippy::all)]
pub mod model;
pub mod runner;
pub mod spec;
pub mod types;
pub mod trap;
pub mod prelude;
pub mod battery;
pub mod cli;
pub mod graphs;
pub mod props {
    #[cfg(feature = "c01")]
    pub mod c01;
    #[cfg(feature = "c02")]
    pub mod c02;
    #[cfg(feature = "c03")]
    pub mod c03;
    #[cfg(feature = "c04")]
    pub mod c04;
    #[cfg(feature = "c05")]
    pub mod c05;
    #[cfg(feature = "c06")]
    pub mod c06;
    #[cfg(feature = "c07")]
    pub mod c07;
    #[cfg(feature = "c08")]
    pub mod c08;
    #[cfg(feature = "c09")]
    pub mod c09;
    #[cfg(feature = "c10")]
    pub mod c10;
    #[cfg(feature = "c11")]
    pub mod c11;
    #[cfg(feature = "c12")]
    pub mod c12;
    #[cfg(feature = "c13")]
    pub mod c13;
    #[cfg(feature = "c14")]
    pub mod c14;
    #[cfg(feature = "c15")]
    pub mod c15;
    #[cfg(feature = "c16")]
    pub mod c16;
    #[cfg(feature = "c17")]
    pub mod c17;
    #[cfg(feature = "c18")]
    pub mod c18;
    #[cfg(feature = "c19")]
    pub mod c19;
    #[cfg(feature = "c20")]
    pub mod c20;
    #[cfg(feature = "c21")]
    pub mod c21;
    #[cfg(feature = "c22")]
    pub mod c22;
    #[cfg(feature = "c23")]
    pub mod c23;
    #[cfg(feature = "c24")]
    pub mod c24;
    #[cfg(feature = "c25")]
    pub mod c25;
    #[cfg(feature = "c26")]
    pub mod c26;
    #[cfg(feature = "c27")]
    pub mod c27;
    #[cfg(feature = "c29")]
    pub mod c29;
    #[cfg(feature = "c30")]
    pub mod c30;
    #[cfg(feature = "c31")]
    pub mod c31;
    #[cfg(feature = "c32")]
    pub mod c32;
    #[cfg(feature = "c33")]
    pub mod c33;
    #[cfg(feature = "c34")]
    pub mod c34;
}

pub fn all() -> Vec<Box<dyn runner::AnyProp>> {
    #[allow(unused_mut)]
    let mut v: Vec<Box<dyn runner::AnyProp>> = vec![];
    #[cfg(feature = "c01")]
    v.push(Box::new(props::c01::prop()));
    #[cfg(feature = "c02")]
    v.push(Box::new(props::c02::prop()));
    #[cfg(feature = "c03")]
    v.push(Box::new(props::c03::prop()));
    #[cfg(feature = "c04")]
    v.push(Box::new(props::c04::prop()));
    #[cfg(feature = "c05")]
    v.push(Box::new(props::c05::prop()));
    #[cfg(feature = "c06")]
    v.push(Box::new(props::c06::prop()));
    #[cfg(feature = "c07")]
    v.push(Box::new(props::c07::prop()));
    #[cfg(feature = "c08")]
    v.push(Box::new(props::c08::prop()));
    #[cfg(feature = "c09")]
    v.push(Box::new(props::c09::prop()));
    #[cfg(feature = "c10")]
    v.push(Box::new(props::c10::prop()));
    #[cfg(feature = "c11")]
    v.push(Box::new(props::c11::prop()));
    #[cfg(feature = "c12")]
    v.push(Box::new(props::c12::prop()));
    #[cfg(feature = "c13")]
    v.push(Box::new(props::c13::prop()));
    #[cfg(feature = "c14")]
    v.push(Box::new(props::c14::prop()));
    #[cfg(feature = "c15")]
    v.push(Box::new(props::c15::prop()));
    #[cfg(feature = "c16")]
    v.push(Box::new(props::c16::prop()));
    #[cfg(feature = "c17")]
    v.push(Box::new(props::c17::prop()));
    #[cfg(feature = "c18")]
    v.push(Box::new(props::c18::prop()));
    #[cfg(feature = "c19")]
    v.push(Box::new(props::c19::prop()));
    #[cfg(feature = "c20")]
    v.push(Box::new(props::c20::prop()));
    #[cfg(feature = "c21")]
    v.push(Box::new(props::c21::prop()));
    #[cfg(feature = "c22")]
    v.push(Box::new(props::c22::prop()));
    #[cfg(feature = "c23")]
    v.push(Box::new(props::c23::prop()));
    #[cfg(feature = "c24")]
    v.push(Box::new(props::c24::prop()));
    #[cfg(feature = "c25")]
    v.push(Box::new(props::c25::prop()));
    #[cfg(feature = "c26")]
    v.push(Box::new(props::c26::prop()));
    #[cfg(feature = "c27")]
    v.push(Box::new(props::c27::prop()));
    #[cfg(feature = "c29")]
    v.push(Box::new(props::c29::prop()));
    #[cfg(feature = "c30")]
    v.push(Box::new(props::c30::prop()));
    #[cfg(feature = "c31")]
    v.push(Box::new(props::c31::prop()));
    #[cfg(feature = "c32")]
    v.push(Box::new(props::c32::prop()));
    #[cfg(feature = "c33")]
    v.push(Box::new(props::c33::prop()));
    #[cfg(feature = "c34")]
    v.push(Box::new(props::c34::prop()));
    v
}
