fn main() {
    for s in ["syscall", "sched_yield", "nanosleep", "clock_nanosleep", "clock_gettime", "memcmp", "bcmp"] {
        println!("cargo:rustc-link-arg=-Wl,--wrap={s}");
    }
    println!("cargo:rustc-link-arg=-no-pie");
    println!("cargo:rerun-if-changed=build.rs");
}
