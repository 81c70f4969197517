// Bounded contract checks of the real code, one group per property; also replays a recorded failure.
mod h; mod p_base; mod p_fhe; mod p_oram; mod t;
use t::T;
fn run(prop: &str, t: &mut T) {
    match prop {
        "C01" => p_oram::c01(t), "C02" => p_oram::c02(t), "C03" => p_oram::c03(t), "C04" => p_oram::c04(t), "C05" => p_oram::c05(t), "C06" => p_oram::c06(t), "C07" => p_oram::c07(t), "C08" => p_oram::c08(t),
        "C09" => p_base::c09(t), "C10" => p_base::c10(t), "C11" => p_base::c11(t), "C12" => p_base::c12(t), "C13" => p_base::c13(t), "C20" => p_base::c20(t), "C21" => p_base::c21(t), "C22" => p_base::c22(t), "C23" => p_base::c23(t),
        "C14" => p_fhe::c14(t), "C15" => p_fhe::c15(t), "C16" => p_fhe::c16(t), "C17" => p_fhe::c17(t), "C18" => p_fhe::c18(t), "C19" => p_fhe::c19(t),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2) }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let (mut seed, mut only, mut props, mut thorough) = (1u64, None, vec![], false);
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() { "--seed" => { i += 1; seed = a[i].parse().unwrap() } "--only" => { i += 1; only = Some(a[i].clone()) } "--thorough" => thorough = true, p => props.push(p.to_string()) }
        i += 1;
    }
    for p in props {
        let t0 = std::time::Instant::now();
        let mut t = T::new(&p, seed, thorough, only.clone());
        run(&p, &mut t);
        let j = serde_json::json!({ "property": p, "seed": seed, "evaluations": t.evals, "distinct": t.distinct.len(), "wall_s": t0.elapsed().as_secs_f64(),
            "subs": t.subs.iter().map(|(n, c)| serde_json::json!({"name": n, "checks": c})).collect::<Vec<_>>(), "samples": t.samples,
            "fails": t.fails.iter().map(|f| serde_json::json!({"sub": f.sub, "message": f.msg})).collect::<Vec<_>>() });
        println!("{}", j);
    }
}
