fn main() {
    kv::export::main_with(kv::cmath::contracts::<kv::sym::Sym>(), kv::cmath::contracts::<kv::logic::Cv>());
}
