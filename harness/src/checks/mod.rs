use crate::report::Run;
mod bn;
mod cmp;
mod dif;
mod hdr;
mod ivc;
mod shp;
mod structs;
mod utilc;
pub fn dispatch(id: &str, r: &Run) -> i32 {
    match id {
        "C06" => dif::c06(r),
        "C07" => dif::c07(r),
        "C01" => hdr::c01(r),
        "C02" => hdr::c02(r),
        "C03" => hdr::c03(r),
        "C22" => ivc::c22(r),
        "C04" => shp::c04(r),
        "C05" => cmp::c05(r),
        "C09" => bn::c09(r),
        "C10" => bn::c10(r),
        "C11" => bn::c11(r),
        "C12" => bn::c12(r),
        "C13" => structs::c13(r),
        "C14" => structs::c14(r),
        "C15" => utilc::c15(r),
        "C16" => structs::c16(r),
        "C17" => structs::c17(r),
        "C18" => structs::c18(r),
        "C19" => utilc::c19(r),
        "C20" => bn::c20(r),
        "C08" => cmp::c08(r),
        _ => {
            println!("unknown property {}", id);
            2
        }
    }
}
