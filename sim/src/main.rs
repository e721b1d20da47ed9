fn main() {
    crevice_sim::run()
}
