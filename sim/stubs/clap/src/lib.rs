pub use sim_macros::Parser;
pub trait Parser: Sized {
    fn parse() -> Self;
}
pub trait FromFlag {
    fn from_flag(flag: &str) -> Self;
}
fn find(flag: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == flag).and_then(|i| a.get(i + 1).cloned())
}
impl FromFlag for Option<String> {
    fn from_flag(flag: &str) -> Self {
        find(flag)
    }
}
impl FromFlag for String {
    fn from_flag(flag: &str) -> Self {
        find(flag).unwrap_or_else(|| {
            eprintln!("{flag} is required");
            std::process::exit(2)
        })
    }
}
