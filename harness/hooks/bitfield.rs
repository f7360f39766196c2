#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    use super::*;
    type T = BitField256;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/setcontracts.inc"));
    set_contracts! { rescan_verif_bitfield; }
    #[cfg(not(kani))]
    #[no_mangle]
    pub fn rescan_verif_bitfield_reversed(next: &mut dyn FnMut() -> u8) { reversed_entry(next) }
}
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif_deps { include!(concat!(env!("RESCAN_VERIF_DIR"), "/deps.inc")); }
