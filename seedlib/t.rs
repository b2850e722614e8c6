mod eu_eval;
fn main() {
    let src = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    match eu_eval::eval(&src, "json", std::env::var("H").ok().and_then(|x| x.parse().ok()).unwrap_or(256)) { Ok(s) => println!("{}", s), Err(e) => { println!("ERR {}", e); std::process::exit(1) } }
}
