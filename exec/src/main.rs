mod compaction;
mod container;
mod expanded;
mod expansion;
mod flat;
mod labels;
mod maps;
mod codes;
#[cfg(feature = "http")]
mod http;
mod loading;
mod processor;
mod rdf;
mod refexp;
mod gen;
mod unordered;
mod keyword;
mod lang;
mod refcomp;
mod refctx;
mod ctxs;
mod run;
mod util;
mod values;
use run::Run;
use serde_json::json;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let mut seed = 1u64;
    let mut thorough = false;
    let mut out = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => { seed = args[i + 1].parse().unwrap_or(1); i += 1 }
            "--tier" => { thorough = args[i + 1] == "thorough"; i += 1 }
            "--out" => { out = Some(args[i + 1].clone()); i += 1 }
            "--trace" => { *run::TRACE.lock().unwrap() = Some(args[i + 1].clone()); i += 1 }
            a => panic!("unknown argument {a}"),
        }
        i += 1;
    }
    std::panic::set_hook(Box::new(|i| if run::CURRENT.try_lock().map_or(false, |c| c.is_none()) { eprintln!("driver: {i}") }));
    let work = move || {
        let mut r = Run::new(seed, thorough);
        match prop.as_str() {
            "P01" => container::run(&mut r),
            "P02" => lang::run(&mut r),
            "P03" => values::run(&mut r),
            "P06" => ctxs::chains(&mut r),
            "P07" => ctxs::terms(&mut r),
            "P08" => ctxs::protected(&mut r),
            "P09" => ctxs::imports(&mut r),
            "P18" => ctxs::iris(&mut r),
            "P05" => unordered::run(&mut r),
            "P17" => expansion::run(&mut r),
            "P13" => labels::run(&mut r),
            "P30" => maps::run(&mut r),
            "P14" => flat::run(&mut r),
            "P15" => rdf::run(&mut r),
            "P12" => expanded::run(&mut r),
            "P19" => compaction::terms(&mut r),
            "P26" => compaction::run(&mut r),
            "P28" => processor::run(&mut r),
            "P21" => loading::run(&mut r),
            #[cfg(feature = "http")]
            "P20" => http::run(&mut r),
            "P29" => codes::run(&mut r),
            "P04" => keyword::run(&mut r),
            p => {
                eprintln!("no executable contract for {p}");
                std::process::exit(2)
            }
        }
        r
    };
    let out2 = out.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let c = run::CURRENT.lock().unwrap().clone();
        if let Some((clause, input, t)) = c {
            if t.elapsed().as_secs() > 60 {
                let v = json!({"evaluations": 1, "distinct": 1, "clauses": {}, "samples": [], "failures": [{
                    "signature": format!("{clause} :: {input}"), "clause": clause, "input": input, "expected": "an answer", "got": "no answer within 60 s"}]});
                if let Some(o) = &out2 {
                    std::fs::write(o, v.to_string()).unwrap();
                }
                std::process::exit(0);
            }
        }
    });
    // deep recursion in the code under test must not be mistaken for a failure of the driver
    let r = std::thread::Builder::new().stack_size(512 << 20).spawn(work).unwrap().join().unwrap();
    let v = json!({
        "evaluations": r.evaluations, "failing": r.failing(),
        "distinct": r.distinct(),
        "clauses": r.clauses,
        "samples": r.samples,
        "failures": r.failures.iter().map(|f| json!({
            "signature": f.signature, "clause": f.clause, "input": f.input, "expected": f.expected, "got": f.got
        })).collect::<Vec<_>>(),
    });
    let s = serde_json::to_string_pretty(&v).unwrap();
    match out {
        Some(o) => std::fs::write(o, s).unwrap(),
        None => println!("{s}"),
    }
}
