fn main() {
    harness::cli::main(harness::all())
}
