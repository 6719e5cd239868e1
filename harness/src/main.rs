fn main() { std::process::exit(vt::driver::main()) }
