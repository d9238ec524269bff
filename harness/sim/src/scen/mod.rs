//! One scenario per property.
#[cfg(feature = "stream")]
mod c01;
#[cfg(feature = "stream")]
mod c02;
#[cfg(feature = "stream")]
mod c03;
#[cfg(feature = "stream")]
mod c04;
#[cfg(feature = "rng")]
mod c05;
#[cfg(feature = "rng")]
mod c06;
#[cfg(feature = "rng")]
mod c07;
#[cfg(feature = "stream")]
mod c08;
#[cfg(feature = "stream")]
mod c09;
#[cfg(feature = "stream")]
mod c10;
#[cfg(feature = "stream")]
mod c11;
#[cfg(feature = "stream")]
mod c12;
#[cfg(all(feature = "stream", feature = "others", feature = "rng"))]
mod c13;
#[cfg(all(feature = "stream", feature = "rng"))]
mod c15;
#[cfg(feature = "rng")]
mod c16;
mod c17;
#[cfg(all(feature = "stream", feature = "others", feature = "rng"))]
mod c18;

pub fn find(prop: &str) -> Option<fn()> {
    Some(match prop {
        #[cfg(feature = "stream")]
        "C01" => c01::run,
        #[cfg(feature = "stream")]
        "C02" => c02::run,
        #[cfg(feature = "stream")]
        "C03" => c03::run,
        #[cfg(feature = "stream")]
        "C04" => c04::run,
        #[cfg(feature = "rng")]
        "C05" => c05::run,
        #[cfg(feature = "rng")]
        "C06" => c06::run,
        #[cfg(feature = "rng")]
        "C07" => c07::run,
        #[cfg(feature = "stream")]
        "C08" => c08::run,
        #[cfg(feature = "stream")]
        "C09" => c09::run,
        #[cfg(feature = "stream")]
        "C10" => c10::run,
        #[cfg(feature = "stream")]
        "C11" => c11::run,
        #[cfg(feature = "stream")]
        "C12" => c12::run,
        #[cfg(all(feature = "stream", feature = "others", feature = "rng"))]
        "C13" | "C14" => c13::run,
        #[cfg(all(feature = "stream", feature = "rng"))]
        "C15" => c15::run,
        #[cfg(feature = "rng")]
        "C16" => c16::run,
        "C17" => c17::run,
        #[cfg(all(feature = "stream", feature = "others", feature = "rng"))]
        "C18" => c18::run,
        _ => return None,
    })
}
