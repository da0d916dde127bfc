#![allow(dead_code, unused_imports)]
mod acc;
#[cfg(feature = "exact")]
mod exact;
mod ctx;
#[cfg(feature = "misc")]
mod misc;
mod gen;
mod vp;

macro_rules! entry {
    ($f:literal, $n:ident, $b:expr) => {
        #[cfg(feature = $f)]
        #[export_name = concat!(stringify!($n), "_SHARD")]
        pub extern "C" fn $n() {
            $b()
        }
    };
}
entry!("acc", vp_decode, acc::decode);
entry!("acc", vp_encode, acc::encode);
entry!("exact", vp_shuffle, exact::shuffle);
entry!("exact", vp_repack, exact::repack);
entry!("exact", vp_rotate, exact::rotate);
entry!("exact", vp_mirror, exact::mirror);
entry!("exact", vp_pack30, exact::pack30);
entry!("exact", vp_gbr, exact::gbr);
entry!("exact", vp_f16conv, exact::f16conv);
entry!("exact", vp_ycgco_dec, exact::ycgco_dec);
entry!("exact", vp_ycgco_enc, exact::ycgco_enc);
entry!("exact", vp_rdp_enc, exact::rdp_enc);
entry!("exact", vp_rdp_dec, exact::rdp_dec);
entry!("misc", vp_safe, misc::safe);
entry!("misc", vp_keep, misc::keep);
entry!("misc", vp_reject, misc::reject);
entry!("misc", vp_pair, misc::pair);
entry!("misc", vp_builds, misc::builds);
entry!("misc", vp_gray_dec, misc::gray_dec);
entry!("misc", vp_gray_enc, misc::gray_enc);
entry!("misc", vp_premul, misc::premul);
entry!("misc", vp_legal, misc::legal);
