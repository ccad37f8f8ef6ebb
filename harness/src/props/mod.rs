//! One module per property; `pNN::prop()` lists its sub-checks.
pub mod p01; pub mod p02; pub mod p03; pub mod p04; pub mod p05; pub mod p06; pub mod p07;
pub mod p08; pub mod p09; pub mod p10; pub mod p11; pub mod p12; pub mod p13; pub mod p14;
pub mod p15; pub mod p16; pub mod p17; pub mod p18; pub mod p19; pub mod p20; 
#[cfg(feature = "hooks")] pub mod p21;
#[cfg(feature = "hooks")] pub mod p22;
#[cfg(feature = "hooks")] pub mod p23;
pub mod p24; pub mod p25; pub mod p26; pub mod p27; pub mod p28; pub mod p29; pub mod p30; pub mod p31; pub mod p32;

pub mod prelude {
    pub use crate::curve::*;
    pub use crate::engine::*;
    pub use crate::ensure;
    pub use crate::exact::*;
    pub use crate::gen::*;
    pub use crate::util::*;
    pub use rcgal::kernel::number_type::{DefaultNumberValueTrait, NumberType};
    pub use rcgal::kernel::point_2::Point2;
    pub use rcgal::kernel::segment_2::Segment2;
    pub use rcgal::kernel::vector_2::Vector2;
    pub fn sub_check(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Sub {
        Sub { name, quick, thorough, f }
    }
    pub fn close(a: f64, b: f64, tol: f64) -> bool {
        (a - b).abs() <= tol
    }
    /// relative to the larger operand
    pub fn rel(a: f64, b: f64, tol: f64) -> bool {
        (a - b).abs() <= tol * (1.0f64).max(a.abs()).max(b.abs())
    }
}

pub fn by_id(id: &str) -> Option<crate::engine::Prop> {
    Some(match id {
        "C01" => p01::prop(),
        "C02" => p02::prop(),
        "C03" => p03::prop(),
        "C04" => p04::prop(),
        "C05" => p05::prop(),
        "C06" => p06::prop(),
        "C07" => p07::prop(),
        "C08" => p08::prop(),
        "C09" => p09::prop(),
        "C10" => p10::prop(),
        "C11" => p11::prop(),
        "C12" => p12::prop(),
        "C13" => p13::prop(),
        "C14" => p14::prop(),
        "C15" => p15::prop(),
        "C16" => p16::prop(),
        "C17" => p17::prop(),
        "C18" => p18::prop(),
        "C19" => p19::prop(),
        "C20" => p20::prop(),
        "C24" => p24::prop(),
        "C25" => p25::prop(),
        "C26" => p26::prop(),
        "C27" => p27::prop(),
        "C28" => p28::prop(),
        "C29" => p29::prop(),
        "C30" => p30::prop(),
        "C31" => p31::prop(),
        "C32" => p32::prop(),
        #[cfg(feature = "hooks")]
        "C21" => p21::prop(),
        #[cfg(feature = "hooks")]
        "C22" => p22::prop(),
        #[cfg(feature = "hooks")]
        "C23" => p23::prop(),
        _ => return None,
    })
}
