//! Native replay: replay ENTRY PARAMS(csv) INPUT(hex)
//! exit 0: the harness finished with every assertion true; 1: an assertion failed or the code panicked;
//! 5: an assumption of the harness does not hold for this input.
use std::sync::Mutex;
static INPUT: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
static PARAMS: Mutex<Vec<u64>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn vse_bytes(p: *mut u8, n: usize) {
    let mut g = INPUT.lock().unwrap();
    for i in 0..n {
        let v = g.0.get(g.1 + i).copied().unwrap_or(0);
        unsafe { *p.add(i) = v }
    }
    g.1 += n;
}
#[no_mangle]
pub extern "C" fn vse_assume(c: bool) {
    if !c {
        println!("REPLAY assume-failed");
        std::process::exit(5);
    }
}
#[no_mangle]
pub extern "C" fn vse_assert(c: bool, id: u32) {
    if !c {
        println!("REPLAY assertion at harness line {} is false", id);
        std::process::exit(1);
    }
}
#[no_mangle]
pub extern "C" fn vse_reach(_: u64) {}
#[no_mangle]
pub extern "C" fn vse_param(i: u64) -> u64 {
    PARAMS.lock().unwrap().get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn vse_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn vse_merge(_: bool) {}
#[no_mangle]
pub extern "C" fn vse_log(t: u64, v: u64) {
    println!("LOG {} {:#x}", t, v);
}

#[no_mangle]
pub extern "C" fn vse_raw_write(fd: i32, p: *const u8, n: usize) -> isize {
    let r: isize;
    unsafe { std::arch::asm!("syscall", inlateout("rax") 1isize => r, in("rdi") fd as isize, in("rsi") p, in("rdx") n, lateout("rcx") _, lateout("r11") _) }
    r
}
/// As in the executor: nothing may ask for more than 6 GiB.
struct Limit;
unsafe impl std::alloc::GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        limit(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        limit(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        limit(n);
        std::alloc::System.realloc(p, l, n)
    }
}
fn limit(n: usize) {
    if n > 6 << 30 {
        println!("REPLAY allocation of {} bytes", n);
        std::process::exit(1);
    }
}
#[global_allocator]
static GLOBAL: Limit = Limit;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    *PARAMS.lock().unwrap() = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.strip_prefix("0x").map_or_else(|| s.parse().unwrap(), |h| u64::from_str_radix(h, 16).unwrap())).collect();
    let h = a.get(3).cloned().unwrap_or_default();
    INPUT.lock().unwrap().0 = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    let name = a[1].clone();
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        match vharness::BASE.iter().chain(vharness::HOOKED).chain(vharness::HOOKED_LZ).chain(vharness::HOOKED_BOTH).find(|e| e.0 == name) {
            Some(e) => (e.1)(),
            None => {
                println!("no entry {}", name);
                std::process::exit(4)
            }
        }
    });
    match r.unwrap().join() {
        Ok(_) => {
            println!("REPLAY ok");
            std::process::exit(0)
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            println!("REPLAY panic: {}", m.unwrap_or_default());
            std::process::exit(1)
        }
    }
}
