//! Runs one scenario under the rules of its property.
use crate::scn::*;
use crate::wcmd::*;

pub fn exec(cx: &Cx, s: &Scn) -> Outcome {
    let lib = s.variant.starts_with("lib");
    if s.variant.starts_with("multi") {
        return crate::multi::exec_multi(cx, s);
    }
    if s.variant.starts_with("host-") && !std::path::Path::new(&cx.env.stdfs).exists() {
        return Outcome::default();
    }
    if s.prop == "C21" || s.prop == "C22" {
        return crate::desk::exec_c21(cx, s);
    }
    match s.prop.as_str() {
        "C01" | "C03" if lib => crate::libsim::exec_write_lib(s, false),
        "C02" if lib => crate::libsim::exec_write_lib(s, true),
        "C01" | "C03" => exec_write(cx, s, false),
        "C02" => exec_write(cx, s, true),
        "C04" => crate::rcmd::exec_c04(cx, s),
        "C05" => exec_c05(cx, s),
        "C06" => exec_c06(cx, s),
        "C07" => exec_c07(cx, s),
        "C08" => crate::rcmd::exec_c08(cx, s),
        "C09" => crate::rcmd::exec_c09(cx, s),
        "C10" => crate::rcmd::exec_c10(cx, s),
        "C11" => crate::rcmd::exec_c11(cx, s),
        "C12" if lib => crate::libsim::exec_write_lib(s, true),
        "C12" if s.variant == "foreign" => crate::rcmd::exec_c12_foreign(cx, s),
        "C12" => crate::rcmd::exec_c12(cx, s),
        "C13" => crate::build::exec_c13(cx, s),
        "C14" | "C15" | "C16" => crate::fusek::exec_fuse(cx, s),
        "C17" => crate::libsim::exec_c17(s),
        "C18" => crate::build::exec_c18(cx, s),
        "C19" if lib && !s.faults.is_empty() => crate::libsim::exec_c19_faulty(s),
        "C19" if lib => crate::libsim::exec_write_lib(s, false),
        "C19" => exec_write(cx, s, false),
        "C25" => crate::pages::exec_c25(cx, s),
        "C24" => crate::args::exec_c24(cx, s),
        "C23" => crate::devs::exec_c23(cx, s),
        "C20" => crate::fusek::exec_c20(cx, s),
        p => panic!("unknown property {}", p),
    }
}
