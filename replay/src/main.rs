// Bounded replay: runs the real crate against executable definitions of the
// properties. It never proves anything; it looks for failing inputs.
mod core;
mod p_shape;
mod p_tensor;
mod p_map;
mod p_array;
mod p_init;
mod p_linalg;
mod p_math;
mod p_misc;

use crate::core::*;

#[global_allocator]
static A: alloc_track::Tracking = alloc_track::Tracking;
mod alloc_track;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let budget = std::env::var("REPLAY_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 240.0 } else { 25.0 });
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(seed, thorough, budget);
    watchdog();
    match id.as_str() {
        "C01" => p_tensor::c01(&mut c),
        "C02" => p_shape::c02(&mut c),
        "C03" => p_shape::c03(&mut c),
        "C04" => p_tensor::c04(&mut c),
        "C05" => p_tensor::c05(&mut c),
        "C06" => p_map::c06(&mut c),
        "C07" => p_map::c07(&mut c),
        "C08" => p_map::c08(&mut c),
        "C09" => p_map::c09(&mut c),
        "C10" => p_array::c10(&mut c),
        "C11" => p_array::c11(&mut c),
        "C12" => p_array::c12(&mut c),
        "C13" => p_array::c13(&mut c),
        "C14" => p_init::c14(&mut c),
        "C15" => p_init::c15(&mut c),
        "C16" => p_init::c16(&mut c),
        "C17" => p_linalg::c17(&mut c),
        "C18" => p_linalg::c18(&mut c),
        "C19" => p_misc::c19(&mut c),
        "C20" => p_misc::c20(&mut c),
        "C21" => p_misc::c21(&mut c),
        "C22" => p_misc::c22(&mut c),
        "C23" => p_misc::c23(&mut c),
        "C24" => p_math::c24(&mut c),
        "C25" => p_math::c25(&mut c),
        "C26" => p_math::c26(&mut c),
        "C27" => p_misc::c27(&mut c),
        "C28" => p_misc::c28(&mut c),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2); }
    }
    let code = c.report(&id);
    std::process::exit(code);
}
