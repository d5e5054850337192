fn main() {
    kv::export::main_with(kv::cgeo::contracts::<kv::sym::Sym>(), vec![]);
}
