mod buffer;
mod chars;
mod json;
mod parts;
mod pump;
mod real;
mod tokens;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let only = std::env::var("CONFORM_ONLY").ok().map(|s| s.parse().unwrap());
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    match args.get(0).map(|s| &s[..]) {
        Some("replay") => tokens::replay(&args[1..], only),
        Some("pump") => pump::replay(&args[1..], only),
        Some("sessions") => tokens::sessions(num(1), &args[2..], only),
        Some("inputs") => tokens::inputs(num(1), num(2) as usize, &args[3]),
        Some("buffer") => buffer::replay(&args[1..], only),
        Some("buffer-record") => buffer::record(num(1), num(2) as usize, &args[3]),
        Some("chars") => chars::sweep(&args[1], only),
        Some("parts") => parts::replay(&args[1..], only),
        Some("json") => json::replay(&args[1..], only),
        _ => panic!("usage: conform-lex replay|inputs|buffer|buffer-record|chars|json ..."),
    }
}
