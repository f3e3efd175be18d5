fn main() {
    for s in ["getrandom", "clock_gettime", "gettimeofday", "time", "getpid"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={s}");
    }
}
