//! One scenario per property.
use crate::runner::Property;

mod p01;
mod p02;
pub mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
pub mod p09;
pub mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;

pub static ALL: &[Property] = &[p01::PROPERTY, p02::PROPERTY, p03::PROPERTY, p04::PROPERTY, p05::PROPERTY, p06::PROPERTY, p07::PROPERTY, p08::PROPERTY, p09::PROPERTY, p10::PROPERTY, p11::PROPERTY, p12::PROPERTY, p13::PROPERTY, p14::PROPERTY, p15::PROPERTY];
