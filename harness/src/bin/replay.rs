//! replay FILE: run a harness natively on recorded inputs.
//! Exit status: 0 no failure, 10 a check failed, 12 invalid memory use, 77 inputs outside of the assumptions,
//! 78 too few inputs, 101/134 a panic, 139 an invalid access.
use harness::sym::native::*;

fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("file")).expect("readable file");
    let mut entry = String::new();
    let mut run = Run { params: vec![], inputs: vec![], next: 0, extend: 0, property: String::new() };
    for l in text.lines() {
        let mut w = l.split_whitespace();
        let k = w.next().unwrap_or("");
        match k {
            "entry" => entry = w.next().unwrap_or("").into(),
            "property" => run.property = w.next().unwrap_or("").into(),
            "params" => run.params = w.map(|x| x.parse().unwrap()).collect(),
            "extend" => run.extend = w.next().unwrap_or("0").parse().unwrap(),
            "inputs" => run.inputs.extend(w.map(|x| x.parse::<u64>().unwrap())),
            _ => (),
        }
    }
    *RUN.lock().unwrap() = Some(run);
    let Some((_, f)) = harness::HARNESSES.iter().find(|h| h.0 == entry) else { std::process::exit(79) };
    // Output streams allocate on first use
    println!("START");
    f();
    println!("END");
}
