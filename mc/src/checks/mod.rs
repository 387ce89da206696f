use crate::util::*;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c08;
mod c10;
mod c11;
mod c14;
mod c15;
mod c06;
mod c20;
mod c21;
mod c19;
mod c27;
mod c13;
mod c12;
mod c09;
mod c16;
mod c17;
mod c28;
mod c18;
mod c22;
mod c26;
mod c23;
mod c25;
mod c24;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
mod c34;
mod c35;
mod c36;
mod c37;
mod probe;

pub type Verdict = Option<(&'static str, &'static str, bool)>;

pub fn dispatch(prop: &str) -> Verdict {
    Some(match prop {
        "PROBE" => { probe::run_check(); return None }
        "C01" => c01::run_check(),
        "C02" => c02::run_check(),
        "C03" => c03::run_check(),
        "C04" => c04::run_check(),
        "C05" => c05::run_check(),
        "C07" => c07::run_check(),
        "C08" => c08::run_check(),
        "C14" => c14::run_check(),
        "C15" => c15::run_check(),
        "C10" => c10::run_check(),
        "C11" => c11::run_check(),
        "C06" => c06::run_check(),
        "C20" => c20::run_check(),
        "C21" => c21::run_check(),
        "C19" => c19::run_check(),
        "C27" => c27::run_check(),
        "C13" => c13::run_check(),
        "C12" => c12::run_check(),
        "C09" => c09::run_check(),
        "C16" => c16::run_check(),
        "C17" => c17::run_check(),
        "C28" => c28::run_check(),
        "C18" => c18::run_check(),
        "C22" => c22::run_check(),
        "C26" => c26::run_check(),
        "C23" => c23::run_check(),
        "C25" => c25::run_check(),
        "C24" => c24::run_check(),
        "C29" => c29::run_check(),
        "C30" => c30::run_check(),
        "C31" => c31::run_check(),
        "C32" => c32::run_check(),
        "C33" => c33::run_check(),
        "C34" => c34::run_check(),
        "C35" => c35::run_check(),
        "C36" => c36::run_check(),
        "C37" => c37::run_check(),
        _ => return None,
    })
}
#[allow(dead_code)]
pub fn tier<T>(quick: T, thorough: T) -> T {
    if run().thorough {
        thorough
    } else {
        quick
    }
}
