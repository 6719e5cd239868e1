//! C32: walkers that cross threads. Every case is a generated multi-threaded program over pieces of common constructions;
//! it runs natively, under ThreadSanitizer and under Miri (which decides about data races).
mod auto;
mod case;
mod drive;
mod sys;

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: sys::Counting = sys::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = match a.first().map(|s| s.as_str()) {
        Some("run") => drive::run(&a[1..]),
        Some("cases") => drive::cases(&a[1..]),
        Some("exec") => drive::exec(&a[1..]),
        _ => 2,
    };
    std::process::exit(r);
}
