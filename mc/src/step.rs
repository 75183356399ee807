//! A controlled scheduler for machine code: two threads run under the processor's trap flag, so that every single
//! instruction is a point where the scheduler may switch. Accesses to memory a thread does not own are decoded from
//! the instruction, so that switches are only tried where they can matter (accesses to locations that both threads
//! touch and one of them writes); between these, interleavings are equivalent.
use std::{
    alloc::Layout,
    cell::Cell,
    sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst},
};

// ---------------------------------------------------------------------------------------------------------------
// arenas: while one is active, the thread allocates there and nowhere else

pub const ARENA_SIZE: usize = 32 << 20;
static ARENA_LO: AtomicUsize = AtomicUsize::new(0);
static ARENA_HI: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ARENA: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[inline]
pub fn in_arenas(p: usize) -> bool {
    let hi = ARENA_HI.load(std::sync::atomic::Ordering::Relaxed);
    p < hi && p >= ARENA_LO.load(std::sync::atomic::Ordering::Relaxed)
}
#[inline]
pub fn arena_active() -> bool {
    ARENA.try_with(|a| a.get().0 != 0).unwrap_or(false)
}
#[inline]
pub fn arena_alloc(l: Layout) -> Option<*mut u8> {
    ARENA
        .try_with(|a| {
            let (next, end) = a.get();
            if next == 0 {
                return None;
            }
            let p = (next + l.align() - 1) & !(l.align() - 1);
            if p + l.size() > end {
                // out of arena: a call that needs this much is not part of the catalogue
                unsafe { libc::_exit(97) }
            }
            a.set((p + l.size(), end));
            Some(p as *mut u8)
        })
        .unwrap_or(None)
}
/// Maps the arenas, once, before anything is forked.
pub fn map_arenas() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            3 * ARENA_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        ARENA_LO.store(p as usize, SeqCst);
        ARENA_HI.store(p as usize + 3 * ARENA_SIZE, SeqCst);
    });
}
fn arena_range(i: usize) -> (usize, usize) {
    let lo = ARENA_LO.load(SeqCst) + i * ARENA_SIZE;
    (lo + 64, lo + ARENA_SIZE)
}
/// runs f with all its allocations in the set-up arena
pub fn in_setup_arena<R>(f: impl FnOnce() -> R) -> R {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let (lo, hi) = arena_range(2);
    ARENA.with(|a| a.set((lo.max(NEXT.load(SeqCst)), hi)));
    let r = f();
    NEXT.store(ARENA.with(|a| a.get().0), SeqCst);
    ARENA.with(|a| a.set((0, 0)));
    r
}

// ---------------------------------------------------------------------------------------------------------------
// child processes: every execution starts from a process in which the library has never run

pub const SHARED_WORDS: usize = 1 << 16;
thread_local! {
    static SHARED: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
}
pub enum End {
    Ok,
    Hang,
    Died(i32),
}
/// what a process that hangs ends with
const HUNG: i32 = 97;
/// Ends the process when it has used its time, or has done nothing since the last look (a deadlock). The time is the
/// processor's, as other processes may make everything slow.
extern "C" fn out_of_time(_: i32) {
    static LAST: AtomicUsize = AtomicUsize::new(0);
    static LOOKS: AtomicUsize = AtomicUsize::new(0);
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        let now = t.tv_sec as usize * 1000 + t.tv_nsec as usize / 1_000_000;
        let limit = CHILD_SECONDS.load(SeqCst);
        if now > limit * 1000 || now < LAST.swap(now, SeqCst) + 5 && LOOKS.fetch_add(1, SeqCst) > 1 {
            libc::_exit(HUNG);
        }
        libc::alarm(10);
    }
}
static CHILD_SECONDS: AtomicUsize = AtomicUsize::new(0);
/// Forks, runs `f` on a zeroed shared buffer in the child, for at most so many seconds of processor time, and returns
/// the buffer.
pub fn in_child(seconds: u32, f: impl FnOnce(&mut [u64])) -> (End, Vec<u64>) {
    unsafe {
        let mut buf = SHARED.with(|s| s.get());
        if buf.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SHARED_WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            buf = p as *mut u64;
            SHARED.with(|s| s.set(buf));
        }
        let words = std::slice::from_raw_parts_mut(buf, SHARED_WORDS);
        // words[0]: number of words in use
        let used = (words[0] as usize + 1).min(SHARED_WORDS);
        words[..used].fill(0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            CHILD_SECONDS.store(seconds as usize, SeqCst);
            libc::signal(libc::SIGALRM, out_of_time as *const () as libc::sighandler_t);
            libc::alarm(10);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(words)));
            libc::_exit(if r.is_ok() { 0 } else { 98 });
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let n = (words[0] as usize + 1).min(SHARED_WORDS);
        let out = words[..n].to_vec();
        let end = if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == HUNG {
            End::Hang
        } else if libc::WIFSIGNALED(status) {
            End::Died(libc::WTERMSIG(status))
        } else if libc::WEXITSTATUS(status) != 0 {
            End::Died(1000 + libc::WEXITSTATUS(status))
        } else {
            End::Ok
        };
        (end, out)
    }
}

// ---------------------------------------------------------------------------------------------------------------
// instruction decoder: which memory does the instruction at `ip` touch?

#[derive(Clone, Copy, Default, Debug)]
pub struct Access {
    pub addr: u64,
    pub write: bool,
    pub wide: bool,
    pub some: bool,
}
/// registers in the order of their numbers
pub type Regs = [u64; 16];

/// # Safety
/// `ip` must point to readable code
pub unsafe fn decode(ip: *const u8, r: &Regs) -> [Access; 2] {
    let none = [Access::default(); 2];
    let one = |addr: u64, write: bool, wide: bool| [Access { addr, write, wide, some: true }, Access::default()];
    let mut p = ip;
    let (mut rex, mut opsize, mut seg, mut f3) = (0u8, false, false, false);
    loop {
        match *p {
            0x66 => opsize = true,
            0xF3 => f3 = true,
            0xF2 | 0xF0 | 0x2E | 0x36 | 0x3E | 0x26 | 0x67 => {}
            0x64 | 0x65 => seg = true,
            _ => break,
        }
        p = p.add(1);
    }
    if *p & 0xF0 == 0x40 {
        rex = *p;
        p = p.add(1);
    }
    let op = *p;
    p = p.add(1);
    // immediate bytes after the operand, for rip-relative addresses
    let iz = if opsize { 2 } else { 4 };
    let (mut imm, mut wide) = (0usize, false);
    let write;
    let mut vex_x = false;
    let mut vex_b = false;
    match op {
        0xC5 | 0xC4 | 0x62 => {
            wide = true;
            let mut map = 1;
            match op {
                0xC5 => p = p.add(1),
                0xC4 => {
                    let b = *p;
                    vex_x = b & 0x40 == 0;
                    vex_b = b & 0x20 == 0;
                    map = b & 0x1F;
                    p = p.add(2);
                }
                _ => {
                    let b = *p;
                    vex_x = b & 0x40 == 0;
                    vex_b = b & 0x20 == 0;
                    map = b & 0x7;
                    p = p.add(3);
                }
            }
            let o = *p;
            p = p.add(1);
            if map == 1 && o == 0x77 {
                return none;
            }
            if map == 3 || (map == 1 && matches!(o, 0x70..=0x73 | 0xC2 | 0xC4..=0xC6)) {
                imm = 1;
            }
            // loads: everything but the store forms
            write = !(map != 1 || !matches!(o, 0x11 | 0x13 | 0x17 | 0x29 | 0x2B | 0x7E | 0x7F | 0xD6 | 0xE7)) || map == 3 || map > 3;
        }
        0x0F => {
            let o = *p;
            p = p.add(1);
            match o {
                0x38 => {
                    let o3 = *p;
                    p = p.add(1);
                    write = o3 == 0xF1 && !f3;
                    wide = true;
                }
                0x3A => {
                    let o3 = *p;
                    p = p.add(1);
                    imm = 1;
                    write = (0x14..=0x17).contains(&o3);
                    wide = true;
                }
                0x05 | 0x0B | 0x31 | 0xA2 | 0x77 | 0x80..=0x8F | 0xA0 | 0xA1 | 0xA8 | 0xA9 | 0xC8..=0xCF | 0x0D | 0x18..=0x1F | 0x06 | 0x09 => {
                    return none
                }
                _ => {
                    wide = matches!(o, 0x10..=0x17 | 0x28..=0x2F | 0x50..=0x7F | 0xC2 | 0xC6 | 0xD0..=0xFF);
                    if matches!(o, 0x70..=0x73 | 0xC2 | 0xC4..=0xC6 | 0xA4 | 0xAC | 0xBA) {
                        imm = 1;
                    }
                    write = match o {
                        0x7E => !f3,
                        0xBA => (*p >> 3) & 7 != 4,
                        0x11 | 0x13 | 0x17 | 0x29 | 0x2B | 0x7F | 0xD6 | 0xE7 | 0x90..=0x9F | 0xAB | 0xB3 | 0xBB | 0xB0 | 0xB1 | 0xC0 | 0xC1
                        | 0xC3 | 0xC7 | 0xA4 | 0xA5 | 0xAC | 0xAD | 0xAE => true,
                        _ => false,
                    };
                }
            }
        }
        0x00..=0x3F => {
            if op & 7 >= 4 {
                return none;
            }
            write = op & 7 < 2 && op < 0x38;
        }
        0x63 => write = false,
        0x69 => {
            imm = iz;
            write = false
        }
        0x6B => {
            imm = 1;
            write = false
        }
        0x80 | 0x81 | 0x83 => {
            imm = if op == 0x81 { iz } else { 1 };
            write = (*p >> 3) & 7 != 7;
        }
        0x84 | 0x85 | 0x8A | 0x8B | 0x8E => write = false,
        0x86..=0x89 | 0x8C | 0x8F => write = true,
        0xA4 | 0xA5 => {
            return [
                Access { addr: r[7], write: true, wide: true, some: true },
                Access { addr: r[6], write: false, wide: true, some: true },
            ]
        }
        0xA6 | 0xA7 => {
            return [
                Access { addr: r[7], write: false, wide: true, some: true },
                Access { addr: r[6], write: false, wide: true, some: true },
            ]
        }
        0xAA | 0xAB => return one(r[7], true, true),
        0xAC | 0xAD => return one(r[6], false, false),
        0xAE | 0xAF => return one(r[7], false, false),
        0xC0 | 0xC1 => {
            imm = 1;
            write = true
        }
        0xD0..=0xD3 | 0xD8..=0xDF => write = true,
        0xC6 => {
            imm = 1;
            write = true
        }
        0xC7 => {
            imm = iz;
            write = true
        }
        0xF6 | 0xF7 => {
            let x = (*p >> 3) & 7;
            if x < 2 {
                imm = if op == 0xF6 { 1 } else { iz };
            }
            write = x == 2 || x == 3;
        }
        0xFE | 0xFF => write = (*p >> 3) & 7 < 2,
        // lea, push, pop, branches, moves between registers: nothing but the thread's own stack
        _ => return none,
    }
    // operand
    let m = *p;
    let (mode, rm) = (m >> 6, m & 7);
    if mode == 3 || seg {
        return none;
    }
    p = p.add(1);
    let b_ext = if rex & 1 != 0 || vex_b { 8 } else { 0 };
    let x_ext = if rex & 2 != 0 || vex_x { 8 } else { 0 };
    let mut addr: u64 = 0;
    let mut disp32 = mode == 2;
    let mut rip = false;
    if rm == 4 {
        let sib = *p;
        p = p.add(1);
        let index = ((sib >> 3) & 7) as usize + x_ext;
        let base = (sib & 7) as usize;
        if index != 4 {
            addr = addr.wrapping_add(r[index] << (sib >> 6));
        }
        if base == 5 && mode == 0 {
            disp32 = true;
        } else {
            addr = addr.wrapping_add(r[base + b_ext]);
        }
    } else if rm == 5 && mode == 0 {
        disp32 = true;
        rip = true;
    } else {
        addr = r[rm as usize + b_ext];
    }
    if disp32 {
        addr = addr.wrapping_add((p as *const i32).read_unaligned() as i64 as u64);
        p = p.add(4);
    } else if mode == 1 {
        addr = addr.wrapping_add(*p as i8 as i64 as u64);
        p = p.add(1);
    }
    if rip {
        addr = addr.wrapping_add(p as u64 + imm as u64);
    }
    one(addr, write, wide)
}

// ---------------------------------------------------------------------------------------------------------------
// the two threads

/// locations are 8-byte granules; any location in the other thread's own memory counts as this one
pub const FOREIGN: u64 = 1;
const TABLE: usize = 1 << 13;
const WAITING: u32 = 1;
const DONE: u32 = 2;

struct Thread {
    state: AtomicU32,
    steps: AtomicU64,
    /// accesses to conflict locations so far
    points: AtomicU32,
    stack_lo: AtomicUsize,
    stack_hi: AtomicUsize,
    tid: AtomicU32,
    digest: AtomicU64,
    panicked: AtomicBool,
    seen: [AtomicU64; TABLE],
    seen_n: AtomicU32,
}
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const NEW: Thread = Thread {
    state: AtomicU32::new(0),
    steps: AtomicU64::new(0),
    points: AtomicU32::new(0),
    stack_lo: AtomicUsize::new(0),
    stack_hi: AtomicUsize::new(0),
    tid: AtomicU32::new(0),
    digest: AtomicU64::new(0),
    panicked: AtomicBool::new(false),
    seen: [ZERO; TABLE],
    seen_n: AtomicU32::new(0),
};
static THREADS: [Thread; 2] = [NEW; 2];
static TURN: AtomicUsize = AtomicUsize::new(usize::MAX);
static NEXT_SWITCH: AtomicUsize = AtomicUsize::new(0);
static FORCED: AtomicU32 = AtomicU32::new(0);
static mut RO: [(u64, u64); 256] = [(0, 0); 256];
static RO_N: AtomicUsize = AtomicUsize::new(0);
static mut CONFLICTS: Vec<u64> = Vec::new();
static mut SWITCHES: Vec<u32> = Vec::new();
/// a thread that executes this many instructions without an end while the other waits is taken to spin on a lock
const SPIN_LIMIT: u64 = 3_000_000;

/// whether the thread is blocked in the kernel (async-signal-safe)
unsafe fn asleep(tid: u32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let (mut i, mut t) = (25, tid);
    while i >= 16 {
        path[i] = b'0' + (t % 10) as u8;
        t /= 10;
        i -= 1;
    }
    // the kernel knows the directory without leading zeros
    let first = (16..25).find(|&k| path[k] != b'0').unwrap_or(25);
    path.copy_within(first.., 16);
    let fd = libc::open(path.as_ptr() as *const libc::c_char, libc::O_RDONLY);
    if fd < 0 {
        return false;
    }
    let mut buf = [0u8; 128];
    let n = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, 127);
    libc::close(fd);
    let text = &buf[..n.max(0) as usize];
    text.iter().position(|c| *c == b')').and_then(|k| text.get(k + 2)) == Some(&b'S')
}

fn wait_for_turn(me: usize) {
    let other = &THREADS[1 - me];
    let mut last = other.steps.load(SeqCst);
    let (mut rounds, mut quiet) = (0u64, 0u64);
    loop {
        if TURN.load(SeqCst) == me || other.state.load(SeqCst) == DONE {
            break;
        }
        rounds += 1;
        if rounds < 200 {
            std::hint::spin_loop();
            continue;
        }
        unsafe {
            if rounds < 2000 {
                libc::sched_yield();
            } else {
                libc::usleep(50);
                let now = other.steps.load(SeqCst);
                if now == last {
                    quiet += 1;
                } else {
                    quiet = 0;
                    last = now;
                }
                // the other thread sleeps, or has not moved for very long: it is blocked on something this thread holds
                if now > SPIN_LIMIT || quiet > 20_000 || quiet % 4 == 3 && asleep(other.tid.load(SeqCst)) {
                    FORCED.fetch_add(1, SeqCst);
                    break;
                }
            }
        }
    }
    TURN.store(me, SeqCst);
}

fn read_only(addr: u64) -> bool {
    let n = RO_N.load(std::sync::atomic::Ordering::Relaxed);
    #[allow(static_mut_refs)]
    let ro = unsafe { &RO[..n] };
    let i = ro.partition_point(|x| x.1 <= addr);
    i < n && ro[i].0 <= addr
}

unsafe extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let me = ME.with(|m| m.get());
    if me > 1 {
        return;
    }
    let t = &THREADS[me];
    t.steps.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let u = &*(ctx as *const libc::ucontext_t);
    let g = &u.uc_mcontext.gregs;
    let q = |i: i32| g[i as usize] as u64;
    let regs: Regs = [
        q(libc::REG_RAX),
        q(libc::REG_RCX),
        q(libc::REG_RDX),
        q(libc::REG_RBX),
        q(libc::REG_RSP),
        q(libc::REG_RBP),
        q(libc::REG_RSI),
        q(libc::REG_RDI),
        q(libc::REG_R8),
        q(libc::REG_R9),
        q(libc::REG_R10),
        q(libc::REG_R11),
        q(libc::REG_R12),
        q(libc::REG_R13),
        q(libc::REG_R14),
        q(libc::REG_R15),
    ];
    let acc = decode(q(libc::REG_RIP) as *const u8, &regs);
    let mut conflict = false;
    for a in acc {
        if !a.some {
            continue;
        }
        let addr = a.addr as usize;
        if addr >= t.stack_lo.load(std::sync::atomic::Ordering::Relaxed) && addr < t.stack_hi.load(std::sync::atomic::Ordering::Relaxed) {
            continue;
        }
        let (lo, hi) = arena_range(me);
        if addr >= lo && addr < hi {
            continue;
        }
        if read_only(a.addr) {
            continue;
        }
        let o = arena_range(1 - me);
        let foreign = addr >= o.0 && addr < o.1;
        for k in 0..=(a.wide as u64) {
            let granule = if foreign { FOREIGN } else { (a.addr >> 3) + k };
            note(t, granule, a.write);
            #[allow(static_mut_refs)]
            if foreign || CONFLICTS.binary_search(&granule).is_ok() {
                conflict = true;
            }
        }
    }
    if conflict {
        let k = t.points.fetch_add(1, SeqCst);
        #[allow(static_mut_refs)]
        let (i, switches) = (NEXT_SWITCH.load(SeqCst), &SWITCHES);
        // switch number i takes the turn from the thread that has it
        if i < switches.len() && TURN.load(SeqCst) == me && k == switches[i] && THREADS[1 - me].state.load(SeqCst) != DONE {
            NEXT_SWITCH.store(i + 1, SeqCst);
            t.state.store(WAITING, SeqCst);
            TURN.store(1 - me, SeqCst);
            wait_for_turn(me);
            t.state.store(0, SeqCst);
        }
    }
}

fn note(t: &Thread, granule: u64, write: bool) {
    let v = granule << 1 | write as u64;
    let mut h = (v.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize % TABLE;
    if t.seen_n.load(SeqCst) as usize > TABLE - 64 {
        return;
    }
    loop {
        match t.seen[h].load(std::sync::atomic::Ordering::Relaxed) {
            0 => {
                t.seen[h].store(v, SeqCst);
                t.seen_n.fetch_add(1, SeqCst);
                return;
            }
            x if x == v => return,
            _ => h = (h + 1) % TABLE,
        }
    }
}

#[inline(always)]
unsafe fn trap_on() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
#[inline(always)]
unsafe fn trap_off() {
    std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
}

unsafe fn stack_of_this_thread() -> (usize, usize) {
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    let (mut lo, mut size) = (std::ptr::null_mut(), 0usize);
    libc::pthread_getattr_np(libc::pthread_self(), &mut attr);
    libc::pthread_attr_getstack(&attr, &mut lo, &mut size);
    libc::pthread_attr_destroy(&mut attr);
    // thread-local storage lies at the end of the same mapping, or just behind it
    (lo as usize, lo as usize + size + 4096)
}

fn load_maps() {
    let text = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let mut n = 0;
    for l in text.lines() {
        let mut w = l.split_whitespace();
        let (Some(range), Some(perm)) = (w.next(), w.next()) else { continue };
        if perm.as_bytes()[1] == b'w' || n == 256 {
            continue;
        }
        let (a, b) = range.split_once('-').expect("range");
        unsafe { RO[n] = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap()) };
        n += 1;
    }
    RO_N.store(n, SeqCst);
}

pub type Job<'a> = &'a (dyn Fn() -> u64 + Sync);

/// Runs both jobs under the scheduler, in the current (child) process. `start` runs first and is preempted before its
/// `switches[0]`-th access to a conflict location, the other then before its `switches[1]`-th, and so on.
/// `stepped[i]`: whether thread i runs under the trap flag at all.
/// Fills `out` (see `Run::read`).
pub fn run_pair(jobs: [Job; 2], start: usize, conflicts: &[u64], switches: &[u32], stepped: [bool; 2], out: &mut [u64]) {
    unsafe {
        load_maps();
        CONFLICTS = conflicts.to_vec();
        SWITCHES = switches.to_vec();
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigemptyset(&mut sa.sa_mask);
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    std::thread::scope(|s| {
        for i in 0..2 {
            let job = jobs[i];
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(s, move || {
                    let t = &THREADS[i];
                    let (lo, hi) = unsafe { stack_of_this_thread() };
                    t.stack_lo.store(lo, SeqCst);
                    t.stack_hi.store(hi, SeqCst);
                    t.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
                    ME.with(|m| m.set(i));
                    t.state.store(WAITING, SeqCst);
                    while TURN.load(SeqCst) != i {
                        unsafe { libc::sched_yield() };
                    }
                    t.state.store(0, SeqCst);
                    ARENA.with(|a| a.set(arena_range(i)));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        if stepped[i] {
                            unsafe { trap_on() };
                        }
                        let d = job();
                        unsafe { trap_off() };
                        d
                    }));
                    unsafe { trap_off() };
                    ARENA.with(|a| a.set((0, 0)));
                    ME.with(|m| m.set(usize::MAX));
                    match r {
                        Ok(d) => t.digest.store(d, SeqCst),
                        Err(_) => t.panicked.store(true, SeqCst),
                    }
                    t.state.store(DONE, SeqCst);
                    TURN.store(1 - i, SeqCst);
                })
                .unwrap();
        }
        while THREADS.iter().any(|t| t.state.load(SeqCst) != WAITING) {
            unsafe { libc::sched_yield() };
        }
        TURN.store(start, SeqCst);
    });
    let mut w = 1;
    let mut put = |v: u64| {
        out[w] = v;
        w += 1;
        out[0] = (w - 1) as u64;
    };
    put(NEXT_SWITCH.load(SeqCst) as u64);
    put(FORCED.load(SeqCst) as u64);
    for t in &THREADS {
        put(t.digest.load(SeqCst));
        put(t.panicked.load(SeqCst) as u64);
        put(t.steps.load(SeqCst));
        put(t.points.load(SeqCst) as u64);
        put(t.seen_n.load(SeqCst) as u64);
        for x in &t.seen {
            let v = x.load(SeqCst);
            if v != 0 {
                put(v);
            }
        }
    }
}

#[derive(Debug, Default, Clone)]
pub struct Side {
    pub digest: u64,
    pub panicked: bool,
    pub steps: u64,
    pub points: u64,
    /// granule << 1 | written
    pub seen: Vec<u64>,
}
#[derive(Debug, Default, Clone)]
pub struct Run {
    pub reached: u64,
    pub forced: u64,
    pub side: [Side; 2],
}
impl Run {
    pub fn read(out: &[u64]) -> Option<Run> {
        let mut it = out.iter().skip(1).copied();
        let mut r = Run { reached: it.next()?, forced: it.next()?, ..Default::default() };
        for s in &mut r.side {
            s.digest = it.next()?;
            s.panicked = it.next()? != 0;
            s.steps = it.next()?;
            s.points = it.next()?;
            let n = it.next()?;
            for _ in 0..n {
                s.seen.push(it.next()?);
            }
        }
        Some(r)
    }
}

/// locations both sides touch and at least one writes
pub fn conflicts(a: &[u64], b: &[u64]) -> Vec<u64> {
    let touched = |s: &[u64]| s.iter().map(|v| v >> 1).collect::<std::collections::BTreeSet<_>>();
    let written = |s: &[u64]| s.iter().filter(|v| *v & 1 == 1).map(|v| v >> 1).collect::<std::collections::BTreeSet<_>>();
    let (ta, tb, wa, wb) = (touched(a), touched(b), written(a), written(b));
    ta.intersection(&tb).filter(|g| wa.contains(g) || wb.contains(g)).copied().collect()
}
