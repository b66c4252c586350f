mod derived;
mod estree;
mod events;
mod generate;
mod layout;
mod operators;
mod program;
mod pump;
mod reports;
mod trees;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let only = std::env::var("CONFORM_ONLY").ok().map(|s| s.parse().unwrap());
    match args.get(0).map(|s| &s[..]) {
        Some("replay") => program::replay(&args[1..], only),
        Some("pump") => pump::replay(&args[1..], only),
        Some("derived") => derived::replay(&args[1..], only),
        Some("operators") => operators::replay(&args[1..], only),
        Some("estree") => estree::replay(&args[1..], only),
        Some("reports") => reports::replay(&args[1..], only),
        Some("trees") => trees::replay(&args[1..], only),
        Some("inputs") => generate::inputs(args[1].parse().unwrap(), args[2].parse().unwrap(), &args[3]),
        Some("show") => {
            for s in &args[1..] {
                for e in &["script", "strict", "module", "program"] {
                    match program::parse(e, s) {
                        Ok(Ok((t, _))) => {
                            let l = t.lin();
                            println!("{} {:?}: {}", e, s, l.events.iter().map(|e| format!("{} {:?}", e.name, e.payload)).collect::<Vec<_>>().join(", "));
                        }
                        Ok(r) => println!("{} {:?}: {}", e, s, program::show(&r)),
                        Err(p) => println!("{} {:?}: PANIC {}", e, s, p),
                    }
                }
            }
        }
        _ => panic!("usage: conform-parse replay ..."),
    }
}
