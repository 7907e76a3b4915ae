mod common;
mod ops;
mod props;
mod report;
mod rt;

fn main() {
    // Capturing a backtrace for every error dominates the run time.
    std::env::set_var("RUST_BACKTRACE", "0");
    report::main()
}
