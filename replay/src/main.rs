//! Bounded exploration and replay of the properties against the real crate.
//! usage: vreplay PROP --seed S --tier quick|thorough [--only FAMILY INDEX] [--budget SECONDS] [--journal FILE]
mod bristol;
mod bundled;
mod circ;
mod codec;
mod ints;
mod model;
mod util;
use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--dump" {
        if let Err(e) = bundled::dump(&args[2]) {
            eprintln!("{}", e);
            std::process::exit(3);
        }
        return;
    }
    let mut cx = Ctx { prop: args[1].clone(), seed: 1, thorough: false, hints: Vec::new(), only: None, stats: Default::default(), start: std::time::Instant::now(), budget_s: 1e9, journal: None, running: std::sync::Mutex::new(vec![None; 8]) };
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--hint" => { let (a, b) = args[i + 1].split_once('=').unwrap(); cx.hints.push((a.to_string(), b.to_string())); i += 2 }
            "--seed" => { cx.seed = args[i + 1].parse().unwrap(); i += 2 }
            "--tier" => { cx.thorough = args[i + 1] == "thorough"; i += 2 }
            "--budget" => { cx.budget_s = args[i + 1].parse().unwrap(); i += 2 }
            "--journal" => { cx.journal = Some(std::fs::File::create(&args[i + 1]).unwrap()); i += 2 }
            "--only" => { cx.only = Some((args[i + 1].clone(), args[i + 2].parse().unwrap())); i += 3 }
            a => panic!("unknown argument {}", a),
        }
    }
    install_hook();
    let cx: &'static Ctx = Box::leak(Box::new(cx));
    watchdog(cx);
    match cx.prop.as_str() {
        "C01" => circ::c01(cx),
        "C02" => circ::c02(cx),
        "C03" => circ::c03(cx),
        "C04" => circ::c04(cx),
        "C05" => circ::c05(cx),
        "C06" => bristol::c06(cx),
        "C07" => bristol::c07(cx),
        "C08" => bristol::c08(cx),
        "C09" => bristol::c09(cx),
        "C10" => ints::c10(cx),
        "C11" => ints::c11(cx),
        "C12" => ints::c12(cx),
        "C13" => ints::c13(cx),
        "C14" => ints::c14(cx),
        "C15" => ints::c15(cx),
        "C16" => codec::c16(cx),
        "C17" => codec::c17(cx),
        "C18" => bundled::c18(cx),
        "C19" => ints::c19(cx),
        p => panic!("unknown property {}", p),
    }
    let st = std::mem::take(&mut *cx.stats.lock().unwrap());
    let mut o = String::from("{");
    o.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"skipped\":{},\"wall_s\":{:.2},", st.evaluations, st.nontrivial.len(), st.skipped, cx.start.elapsed().as_secs_f64()));
    o.push_str("\"families\":{");
    o.push_str(&st.per_family.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&st.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"fails\":[");
    let mut fails = st.fails;
    fails.sort_by(|a, b| (&a.family, a.index).cmp(&(&b.family, b.index)));
    o.push_str(&fails.iter().map(|f| format!("{{\"family\":{},\"index\":{},\"key\":{},\"detail\":{}}}", json_str(&f.family), f.index, json_str(&f.key), json_str(&f.detail))).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    println!("{}", o);
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
