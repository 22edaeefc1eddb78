mod cl;
mod ffi;
mod prim;
mod primes;
fn main() {
    primes::link_anchor();
    let mut all = cl::checks();
    all.extend(ffi::checks());
    all.extend(prim::checks());
    simcore::main_with(all);
}
