//! How many processors the map believes there are, which is the number of the shards of its length.

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Calls `f` on a thread that may run on `n` processors, or as many as there are.
pub fn with<R>(n: usize, f: impl FnOnce() -> R) -> R {
    let mut old = [0u64; 16];
    if n <= 1 || unsafe { sched_getaffinity(0, 128, old.as_mut_ptr()) } < 0 {
        return f();
    }
    let mut new = old;
    let mut count = new.iter().map(|x| x.count_ones() as usize).sum::<usize>();
    for i in 0..1024 {
        if count < n && new[i / 64] & (1 << (i % 64)) == 0 {
            let mut try_ = new;
            try_[i / 64] |= 1 << (i % 64);
            // A processor that does not exist is ignored.
            if unsafe { sched_setaffinity(0, 128, try_.as_ptr()) } == 0 {
                let mut now = [0u64; 16];
                unsafe { sched_getaffinity(0, 128, now.as_mut_ptr()) };
                if now == try_ {
                    new = try_;
                    count += 1;
                } else {
                    break;
                }
            }
        }
        if count >= n {
            break;
        }
    }
    let r = f();
    unsafe { sched_setaffinity(0, 128, old.as_ptr()) };
    r
}
