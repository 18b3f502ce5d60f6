pub mod binary;
pub mod common;
pub mod cost;
pub mod errors;
#[cfg(feature = "std")]
pub mod helpers;
pub mod position;
pub mod sparse;
pub mod sum;
pub mod xconf;

use crate::engine::Property;

#[rustfmt::skip]
pub fn all() -> Vec<Property> {
    #[allow(unused_mut)]
    let mut all = vec![
        binary::b01(), binary::b02(), binary::b03(), binary::b04(), binary::b05(), binary::b06(), binary::b07(),
        position::p01(), position::p02(),
        sparse::s01(), sparse::s02(), sparse::s03(), sparse::s04(), sparse::s05(), sparse::s06(), sparse::s07(),
        sum::m01(), sum::m02(), sum::m03(),
        common::c01(), errors::d01(), cost::e01(),
        xconf::x01(),
    ];
    #[cfg(feature = "std")]
    all.extend([helpers::h01(), helpers::h02()]);
    all
}

pub fn find(id: &str) -> Option<Property> {
    all().into_iter().find(|p| p.id == id)
}
