//! C26: the same calls in different surroundings, what they answer, and
//! whether the library asked the system for anything meanwhile: this program
//! defines the functions through which the standard library would ask.
#![allow(invalid_runtime_symbol_definitions)]
use pkh::table::*;
use pkh::util::*;
use poker::{box_cards, card, cards, deck, Card, Eval, Evaluator, ParseCardError};
use rand::{rngs::StdRng, SeedableRng};
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

// -- asking -------------------------------------------------------------------
static IN: AtomicBool = AtomicBool::new(false);
static ASKED: [AtomicUsize; 5] = [const { AtomicUsize::new(0) }; 5];
const ENVIRONMENT: usize = 0;
const CLOCK: usize = 1;
const FILES: usize = 2;
const PROCESS: usize = 3;
const NETWORK: usize = 4;
fn asked(what: usize) {
    if IN.load(SeqCst) { ASKED[what].fetch_add(1, SeqCst); }
}
extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: c_int) -> c_int;
    fn sigaction(sig: c_int, new: *const SigAction, old: *mut SigAction) -> c_int;
    fn seteuid(u: u32) -> c_int;
    fn waitpid(p: c_int, status: *mut c_int, options: c_int) -> c_int;
    static mut environ: *mut *mut c_char;
}
fn real(name: &'static str) -> *mut c_void {
    let next = -1isize as *mut c_void;
    // SAFETY: a constant, terminated name
    let p = unsafe { dlsym(next, name.as_ptr() as *const c_char) };
    assert!(!p.is_null(), "no {}", name);
    p
}
macro_rules! watched {
    ($($what:expr => $name:ident($($arg:ident: $t:ty),*) -> $ret:ty;)*) => { $(
        /// # Safety
        /// As the function of the C library it passes on to.
        #[no_mangle]
        pub unsafe extern "C" fn $name($($arg: $t),*) -> $ret {
            asked($what);
            let f: unsafe extern "C" fn($($t),*) -> $ret = std::mem::transmute(real(concat!(stringify!($name), "\0")));
            f($($arg),*)
        }
    )* }
}
watched! {
    ENVIRONMENT => getenv(n: *const c_char) -> *mut c_char;
    ENVIRONMENT => secure_getenv(n: *const c_char) -> *mut c_char;
    ENVIRONMENT => setenv(n: *const c_char, v: *const c_char, o: c_int) -> c_int;
    ENVIRONMENT => unsetenv(n: *const c_char) -> c_int;
    CLOCK => clock_gettime(c: c_int, t: *mut c_void) -> c_int;
    CLOCK => gettimeofday(t: *mut c_void, z: *mut c_void) -> c_int;
    CLOCK => time(t: *mut c_void) -> c_long;
    FILES => open(p: *const c_char, f: c_int, m: u32) -> c_int;
    FILES => open64(p: *const c_char, f: c_int, m: u32) -> c_int;
    FILES => openat(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int;
    FILES => openat64(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int;
    FILES => opendir(p: *const c_char) -> *mut c_void;
    FILES => stat64(p: *const c_char, b: *mut c_void) -> c_int;
    FILES => statx(d: c_int, p: *const c_char, f: c_int, m: u32, b: *mut c_void) -> c_int;
    FILES => readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize;
    FILES => getcwd(b: *mut c_char, n: usize) -> *mut c_char;
    FILES => chdir(p: *const c_char) -> c_int;
    FILES => isatty(f: c_int) -> c_int;
    PROCESS => getpid() -> c_int;
    PROCESS => getppid() -> c_int;
    PROCESS => getuid() -> u32;
    PROCESS => fork() -> c_int;
    PROCESS => gethostname(b: *mut c_char, n: usize) -> c_int;
    NETWORK => socket(d: c_int, t: c_int, p: c_int) -> c_int;
    NETWORK => getaddrinfo(n: *const c_char, s: *const c_char, h: *const c_void, r: *mut *mut c_void) -> c_int;
}

// -- the environment as a page that tells when it is read -----------------------
#[repr(C)]
struct SigAction { handler: usize, mask_or_flags: [usize; 19] }
const PAGES: usize = 1 << 20;
static PAGE: AtomicUsize = AtomicUsize::new(0);
extern "C" fn touched(_: c_int, info: *const usize, _: *mut c_void) {
    let page = PAGE.load(SeqCst);
    // SAFETY: si_addr is the third word of siginfo
    let at = unsafe { *info.add(2) };
    if page == 0 || at < page || at >= page + PAGES {
        // not ours: let it happen again
        let plain = SigAction { handler: 0, mask_or_flags: [0; 19] };
        unsafe { sigaction(11, &plain, std::ptr::null_mut()) };
        return
    }
    asked(ENVIRONMENT);
    unsafe { mprotect(page as *mut c_void, PAGES, 3) };
}
fn guard_environment() {
    // SAFETY: single-threaded, before the calls; the old block stays as it is
    unsafe {
        let page = mmap(std::ptr::null_mut(), PAGES, 3, 0x22, -1, 0) as *mut *mut c_char;
        assert!(page as isize > 0);
        let mut i = 0;
        while !(*environ.add(i)).is_null() && i < PAGES / 8 - 1 { *page.add(i) = *environ.add(i); i += 1; }
        environ = page;
        PAGE.store(page as usize, SeqCst);
        let mut act = SigAction { handler: touched as extern "C" fn(c_int, *const usize, *mut c_void) as usize, mask_or_flags: [0; 19] };
        act.mask_or_flags[16] = 4; // SA_SIGINFO
        assert_eq!(sigaction(11, &act, std::ptr::null_mut()), 0);
    }
}
fn within<T>(f: impl FnOnce() -> T) -> T {
    let page = PAGE.load(SeqCst);
    unsafe { mprotect(page as *mut c_void, PAGES, 0) };
    IN.store(true, SeqCst);
    let r = f();
    IN.store(false, SeqCst);
    unsafe { mprotect(page as *mut c_void, PAGES, 3) };
    r
}

// -- the calls ------------------------------------------------------------------
struct Said { h: DefaultHasher, n: usize, first: String }
impl Said {
    fn say(&mut self, what: std::fmt::Arguments) {
        let mut s = String::new();
        let _ = s.write_fmt(what);
        s.hash(&mut self.h);
        self.n += 1;
        if self.n == 1 { self.first = s }
    }
}
fn hand(rng: &mut Rng, n: usize) -> Vec<Card> {
    let mut all: [usize; 52] = std::array::from_fn(|i| i);
    (0..n).map(|i| { let j = rng.range(i, 51); all.swap(i, j); card(all[i]) }).collect()
}
fn text(rng: &mut Rng) -> String {
    if rng.chance(1, 3) { return name(rng.below(52)) }
    (0..rng.range(0, 6)).map(|_| *rng.pick(&['A', 's', 'T', '1', '0', 'x', 'é', '♠', '9', ' ', 'h', 'a', 'S', 'İ'])).collect()
}
/// This one does ask for randomness, which may come from a file, anew for
/// each process.
const OWN: &str = "shuffle without a generator";
const KINDS: [(&str, usize); 13] = [
    ("evaluate five", 40_000), ("evaluate six to nine", 6_000), ("evaluate ten to sixteen", 150), ("evaluate most of the deck", 2),
    ("refuse hands", 8_000), ("compare and name", 8_000), ("parse", 8_000), ("parse batches", 2_000), ("walk decks", 1_000),
    ("shuffle", 1_000), (OWN, 1_000), ("construct", 4_000), ("make and clone evaluators", 12),
];
macro_rules! say { ($s:expr, $($a:tt)*) => { $s.say(format_args!($($a)*)) } }
fn calls(ev: &Evaluator, rng: &mut Rng, kind: &str, n: usize, s: &mut Said) {
    // a result as text; the library is not asked to write the debugging form
    let told = |r: Result<Eval, poker::EvalError>| match r { Ok(e) => format!("{} {} {:?}", e, e.class(), class_triple(e.class())), Err(e) => {
        // in which order repeated cards are listed is open
        let (m, mut words) = (e.to_string(), vec![]);
        words.extend(m.split_whitespace());
        words.sort();
        words.join(" ")
    } };
    match kind {
        "evaluate five" => for _ in 0..n { say!(s, "{}", told(ev.evaluate(hand(rng, 5)))) },
        "evaluate six to nine" => for _ in 0..n { let k = rng.range(6, 9); say!(s, "{}", told(ev.evaluate(hand(rng, k)))) },
        "evaluate ten to sixteen" => for _ in 0..n { let k = rng.range(10, 16); say!(s, "{}", told(ev.evaluate(hand(rng, k)))) },
        "evaluate most of the deck" => for _ in 0..n { let k = rng.range(24, 32); say!(s, "{}", told(ev.evaluate(hand(rng, k)))) },
        "refuse hands" => for _ in 0..n {
            let k = rng.range(0, 60);
            let h: Vec<Card> = if rng.chance(1, 4) { hand(rng, k.min(4)) } else { (0..k).map(|_| card(rng.below(52))).chain([card(0), card(0)]).collect() };
            say!(s, "{}", told(ev.evaluate(h)))
        },
        "compare and name" => {
            let es: Vec<Eval> = (0..200).filter_map(|i| ev.evaluate(hand(rng, 5 + i % 2)).ok()).collect();
            for _ in 0..n {
                let (a, b) = (*rng.pick(&es), *rng.pick(&es));
                let mut h = DefaultHasher::new();
                a.hash(&mut h);
                say!(s, "{:?} {} {} {} {} {} {:?}", a.cmp(&b), a == b, a.is_better_than(b), a.max(b), a.is_royal_flush(), h.finish(), predicates(a))
            }
        }
        "parse" => for _ in 0..n {
            let t = text(rng);
            match t.parse::<Card>() {
                Ok(c) => say!(s, "{} {} {:?} {} {}", c, c.rank_suit_string(), c, c.unique_integer(), c.cmp(&card(20)) as i32),
                Err(e) => say!(s, "{}", e),
            }
            let mut cs = t.chars();
            match Card::try_from_chars(cs.next().unwrap_or('?'), cs.next().unwrap_or('?')) { Ok(c) => say!(s, "{}", c), Err(e) => say!(s, "{}", e) }
        },
        "parse batches" => for _ in 0..n {
            let ts: Vec<String> = (0..rng.range(0, 12)).map(|_| text(rng)).collect();
            let all: Vec<Result<Card, ParseCardError>> = Card::parse_to_iter(&ts).collect();
            say!(s, "{}", all.iter().map(|r| match r { Ok(c) => name_of(*c), Err(e) => e.to_string() }).collect::<String>());
            match cards!(ts.join(" ")).try_collect::<Vec<Card>>() { Ok(v) => say!(s, "{:?}", names_of(&v)), Err(e) => say!(s, "{}", e) }
        },
        "walk decks" => for _ in 0..n {
            let mut a = deck::generate();
            for _ in 0..rng.below(8) { let k = rng.below(20); say!(s, "{:?}", a.nth(k).map(name_of)) }
            say!(s, "{:?}", names_of(&a.collect::<Vec<Card>>()))
        },
        "shuffle" => for _ in 0..n {
            let mut r = StdRng::seed_from_u64(rng.next());
            say!(s, "{:?} {:?}", names_of(&deck::shuffled_with(&mut r)), names_of(&deck::shuffled_with(&mut r)))
        },
        OWN => for _ in 0..n {
            let mut d: Vec<usize> = deck::shuffled().into_iter().map(number_of).collect();
            d.sort();
            say!(s, "{:?}", d)
        },
        "construct" => for _ in 0..n {
            let k = rng.range(1, 7);
            let (a, t) = (hand(rng, k), name(rng.below(52)));
            let c = box_cards!(a, cards!(Ace of Spades, Two of Clubs), [card!(Ten of Hearts)]);
            say!(s, "{:?} {}", names_of(&c), card!(t).map(name_of).unwrap_or_else(|e| e.to_string()))
        },
        "make and clone evaluators" => for i in 0..n {
            let e = match i % 3 { 0 => Evaluator::new(), 1 => Evaluator::default(), _ => ev.clone() };
            let h = hand(rng, 5 + i % 3);
            say!(s, "{} {}", told(e.evaluate(h)), e == *ev)
        },
        _ => unreachable!("{}", kind),
    }
}

/// What the library must not do: does it show?
fn peek(what: &str) -> usize {
    match what {
        "a variable" => std::env::var("POKER").map(|v| v.len()).unwrap_or(0),
        "all variables" => std::env::vars_os().count(),
        "a program's name" => std::env::current_exe().map(|p| p.as_os_str().len()).unwrap_or(0),
        "the directory" => std::env::current_dir().map(|p| p.as_os_str().len()).unwrap_or(0),
        "the clock" => std::time::Instant::now().elapsed().subsec_nanos() as usize,
        "the date" => std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as usize).unwrap_or(0),
        "a file" => std::fs::read("/nonexistent").map(|b| b.len()).unwrap_or(0),
        "whether a file exists" => std::path::Path::new("/nonexistent").exists() as usize,
        "a terminal" => std::io::IsTerminal::is_terminal(&std::io::stdin()) as usize,
        "the process" => std::process::id() as usize,
        "a network" => std::net::UdpSocket::bind("127.0.0.1:0").is_ok() as usize,
        _ => unreachable!(),
    }
}

fn script(seed: u64, rounds: usize, lines: &mut Vec<String>, made: &mut u64) {
    let ev = within(Evaluator::new);
    for round in 0..rounds {
        for (i, &(kind, n)) in KINDS.iter().enumerate() {
            let mut s = Said { h: DefaultHasher::new(), n: 0, first: String::new() };
            let mut rng = Rng::new(seed, (1 + round * KINDS.len() + i) as u64);
            for a in &ASKED { a.store(0, SeqCst) }
            let control = std::env::args().find_map(|a| a.strip_prefix("--peek=").map(String::from));
            within(|| {
                calls(&ev, &mut rng, kind, n, &mut s);
                if let Some(what) = &control { std::hint::black_box(peek(what)); }
            });
            *made += s.n as u64;
            if kind == OWN { for what in [FILES, PROCESS] { ASKED[what].store(0, SeqCst) } }
            let a: Vec<usize> = ASKED.iter().map(|a| a.load(SeqCst)).collect();
            lines.push(json!({"op": "calls", "of": format!("{} #{}", kind, round), "out": {"answers": s.n, "first": s.first, "all": format!("{:016x}", s.h.finish())},
                "asked": {"environment": a[ENVIRONMENT], "clock": a[CLOCK], "files": a[FILES], "process": a[PROCESS], "network": a[NETWORK]}}).to_string());
        }
    }
}

struct WhileUnwinding<'a>(u64, usize, &'a mut Vec<String>, &'a mut u64);
impl Drop for WhileUnwinding<'_> {
    fn drop(&mut self) { script(self.0, self.1, self.2, self.3) }
}

fn main() {
    // out trace surroundings seed rounds [--peek=what to look at, for the control]
    let args: Vec<String> = std::env::args().collect();
    let (surroundings, seed, rounds) = (args[3].clone(), args[4].parse::<u64>().unwrap(), args[5].parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let rep = Report::new(&args[1]);
    let (mut lines, mut made) = (vec![json!({"op": "enter", "surroundings": surroundings}).to_string()], 0);
    let _ = guard(|| panic!("once"));
    guard_environment();
    if surroundings == "a forked child" {
        let _ = Evaluator::new();
        // SAFETY: nothing else runs yet
        let p = unsafe { fork() };
        if p > 0 {
            let mut status = 0;
            unsafe { waitpid(p, &mut status, 0) };
            if status & 127 != 0 { std::process::abort() }
            std::process::exit(status >> 8 & 255);
        }
    }
    if surroundings == "another user" { let _ = unsafe { seteuid(65534) }; }
    let done = match surroundings.as_str() {
        "unwinding" => {
            let r = guard(|| {
                let _w = WhileUnwinding(seed, rounds, &mut lines, &mut made);
                panic!("as planned")
            });
            match r { Err(p) if p.contains("as planned") => Ok(()), Err(p) => Err(p), Ok(()) => Ok(()) }
        }
        "another thread" => std::thread::scope(|s| std::thread::Builder::new().name("poker".into()).stack_size(256 << 10).spawn_scoped(s, || guard(|| script(seed, rounds, &mut lines, &mut made))).unwrap().join().unwrap()),
        _ => guard(|| script(seed, rounds, &mut lines, &mut made)),
    };
    IN.store(false, SeqCst);
    if surroundings == "another user" { let _ = unsafe { seteuid(0) }; }
    if let Err(p) = done { rep.violation(json!({"what": "the library panicked", "surroundings": surroundings, "message": p})); }
    rep.add(made);
    std::fs::write(&args[2], lines.join("\n") + "\n").expect("cannot write the trace");
    rep.sample(json!({"surroundings": surroundings, "first": lines.get(1)}));
    rep.write();
    std::process::exit(if rep.nviol.load(SeqCst) > 0 { 1 } else { 0 });
}
