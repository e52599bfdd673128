fn main() {
    hqgen::generate();
}
