fn main() {
    kv::export::main_with(vec![], kv::cgeo::contracts::<kv::logic::Cv>());
}
