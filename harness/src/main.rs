mod engine;
mod gens;
mod mine;
mod oracle;
mod props;
mod sutx;

use engine::Tier;

macro_rules! dispatch {
    ($id:expr, $f:ident, $args:tt ; $($name:literal => $ty:ty),* $(,)?) => {
        match $id { $( $name => engine::$f::<$ty> $args, )* other => { eprintln!("unknown property {}", other); 2 } }
    };
}

macro_rules! all {
    ($id:expr, $f:ident, $args:tt) => {
        dispatch!($id, $f, $args ;
            "C01" => props::orbit::C01, "C02" => props::orbit::C02, "C03" => props::orbit::C03, "C04" => props::orbit::C04,
            "C05" => props::orbit::C05, "C12" => props::orbit::C12, "C19" => props::orbit::C19, "C20" => props::orbit::C20,
            "C21" => props::orbit::C21, "C28" => props::orbit::C28, "C23" => props::stage::C23, "C24" => props::stage::C24, "C25" => props::chain::C25, "C26" => props::chain::C26, "C27" => props::extreme::C27,
            "C06" => props::text::C06, "C07" => props::text::C07, "C08" => props::text::C08, "C09" => props::text::C09, "C10" => props::text::C10,
            "C11" => props::timep::C11, "C22" => props::timep::C22,
            "C13" => props::geom::C13, "C14" => props::geom::C14, "C15" => props::geom::C15, "C16" => props::geom::C16, "C17" => props::geom::C17, "C18" => props::geom::C18, "C29" => props::geom::C29,
        )
    };
}

fn main() {
    // panics of the code under test are outcomes, not messages
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("literals") => { print!("{}", mine::dump()); 0 }
        Some("replay") => {
            let path = &args[2];
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("replay is JSON");
            let id = v["property"].as_str().unwrap_or("").to_string();
            all!(id.as_str(), replay, (&v, path))
        }
        Some(id) => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
            all!(id, supervise, (tier, seed))
        }
        None => { eprintln!("usage: vharness <property> | replay <file>"); 2 }
    };
    std::process::exit(code);
}
