//! Bounded, executable counterpart of the contracts: runs programs on the real compiler and interpreter of /repo and
//! compares them with independently computed expectations. It is used to turn a rejected obligation into a failing
//! input, and as a stand-in (labelled bounded) for what is outside the reach of the provers.
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use cordy_sys::{compiler, SourceView};
use cordy_sys::vm::{ExitType, VirtualMachine};

#[allow(dead_code)] mod gen;
mod props;

#[derive(Debug, Clone)]
pub enum Expect {
    /// The program ends normally, with exactly this output
    Out(String),
    /// The program outputs the first, then fails with an error report which contains the second
    Err(String, String),
    /// The program fails with an error report that contains the text (compile or runtime error), whatever it prints
    Fail(String),
    /// No expectation apart from: no crash, and the same with and without optimization
    Same,
    /// The program either outputs this, or fails without any output
    OutOrFail(String),
    /// The program ends normally with exactly this output, and everything it allocated is released at its end
    Freed(String),
    /// The program does the same as another: both fail (after the same output), or both end normally with the same output
    As(String),
}

#[derive(Debug, Clone)]
pub struct Case { pub src: String, pub expect: Expect }

pub struct Ctx { pub thorough: bool, pub seed: u64, pub extra: Vec<i64> }

pub type Sink<'a> = &'a mut dyn FnMut(Case);

/// Result of running a program: its output, and the error report, if any.
fn run(src: &str, opt: bool) -> Result<(String, Option<String>), String> {
    catch_unwind(AssertUnwindSafe(|| {
        let view = SourceView::new(String::from("<t>"), String::from(src));
        let compile = match compiler::compile(opt, &view) {
            Err(e) => return (String::new(), Some(format!("Compile Error:\n{}", e.join("\n")))),
            Ok(c) => c
        };
        let out = Buf(Rc::new(RefCell::new(Vec::new())));
        let mut vm = VirtualMachine::with(compile, view, out.clone());
        let result: ExitType = vm.run_until_completion();
        let err = if let ExitType::Error(ref e) = result { Some(vm.view().format(e)) } else { None };
        let text = String::from_utf8_lossy(&out.0.borrow()).to_string();
        (text, err)
    })).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|u| u.to_string())).unwrap_or_default();
        format!("the interpreter panicked: {}", m)
    })
}

#[derive(Clone)]
struct Buf(Rc<RefCell<Vec<u8>>>);
impl Write for Buf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Counts live allocations, and refuses to release anything twice. For C11, released memory is also overwritten, and kept
/// from being used again for a while.
mod memory {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::*};

    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static POISON: AtomicBool = AtomicBool::new(false);
    const ALIVE: u64 = 0x1a1b_1c1d_2a2b_2c2d;
    const FREED: u64 = 0x9a9b_9c9d_aaab_acad;
    const KEEP: usize = 4096;
    const NONE: AtomicUsize = AtomicUsize::new(0);
    static QUEUE: [AtomicUsize; KEEP] = [NONE; KEEP];
    static NEXT: AtomicUsize = AtomicUsize::new(0);

    pub struct Memory;
    // The header of a block: its size and alignment, and whether it is alive
    fn head(align: usize) -> usize { align.max(32) }
    unsafe fn release(p: *mut u8) {
        let (size, align) = (*(p.sub(32) as *const usize), *(p.sub(24) as *const usize));
        System.dealloc(p.sub(head(align)), Layout::from_size_align_unchecked(size + head(align), head(align)))
    }
    unsafe impl GlobalAlloc for Memory {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let h = head(l.align());
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
            if p.is_null() { return p }
            let p = p.add(h);
            *(p.sub(32) as *mut usize) = l.size();
            *(p.sub(24) as *mut usize) = l.align();
            *(p.sub(8) as *mut u64) = ALIVE;
            LIVE.fetch_add(1, SeqCst);
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let state = p.sub(8) as *mut u64;
            if *state != ALIVE || *(p.sub(32) as *const usize) != l.size() { std::process::abort() }
            *state = FREED;
            LIVE.fetch_sub(1, SeqCst);
            if !POISON.load(Relaxed) { return release(p) }
            // Looks like a tagged pointer to nowhere, and like counts which never reach zero
            std::ptr::write_bytes(p, 0xdd, l.size());
            let old = QUEUE[NEXT.fetch_add(1, SeqCst) % KEEP].swap(p as usize, SeqCst);
            if old != 0 { release(old as *mut u8) }
        }
    }
}
#[global_allocator] static MEMORY: memory::Memory = memory::Memory;

const COMPILE: &str = "Compile Error:\n";

fn check(case: &Case) -> Result<(), String> {
    let mut first: Option<(String, Option<String>)> = None;
    for opt in [false, true] {
        let how = if opt { "with optimization" } else { "without optimization" };
        let (out, err) = run(&case.src, opt).map_err(|e| format!("{}: {}", how, e))?;
        // A constant expression which always fails is reported when compiling with optimization: with the same message
        let folded = opt && matches!(&first, Some((_, Some(e))) if !e.starts_with(COMPILE)) && err.as_ref().map(|e| e.starts_with(COMPILE)).unwrap_or(false);
        let ok = match &case.expect {
            Expect::Out(e) | Expect::Freed(e) => err.is_none() && &out == e,
            Expect::Err(o, e) => (folded || &out == o) && err.as_ref().map(|u| u.contains(e.as_str())).unwrap_or(false),
            Expect::Fail(e) => err.as_ref().map(|u| e.split(" or ").any(|x| u.contains(x))).unwrap_or(false),
            Expect::Same => true,
            Expect::OutOrFail(e) => if err.is_none() { &out == e } else { out.is_empty() },
            Expect::As(other) => { let (o, e) = run(other, opt)?; e.is_some() == err.is_some() && (o == out || folded) },
        };
        if !ok {
            if let (Expect::Out(e) | Expect::Freed(e), None) = (&case.expect, &err) {
                let k = e.lines().zip(out.lines()).position(|(a, b)| a != b).unwrap_or(e.lines().count().min(out.lines().count()));
                return Err(format!("{}: output line {}: expected {:?}, got {:?}", how, k + 1, e.lines().nth(k), out.lines().nth(k)))
            }
            return Err(format!("{}: expected {:?}, got output {:?} and error {:?}", how, case.expect, out, err))
        }
        if let Expect::Freed(_) = case.expect {
            // A second run, such that nothing is initialized for the first time
            drop((out, err));
            let before = memory::LIVE.load(Ordering::SeqCst);
            let (out, err) = run(&case.src, opt)?;
            let after = memory::LIVE.load(Ordering::SeqCst) - (out.capacity() > 0) as i64;
            if before != after { return Err(format!("{}: {} allocations are not released when the program ends", how, after - before)) }
            if first.is_none() { first = Some((out, err)) }
            continue
        }
        match &first {
            None => first = Some((out, err)),
            Some(u) => {
                let same = if folded {
                    let m = |e: &Option<String>| e.as_ref().unwrap().strip_prefix(COMPILE).unwrap_or(e.as_ref().unwrap()).lines().next().map(String::from);
                    m(&u.1) == m(&err)
                } else {
                    // Neither compiles: optimization may report constant expressions which fail besides
                    let compile = |e: &Option<String>| e.as_ref().map(|e| e.starts_with(COMPILE)).unwrap_or(false);
                    u.0 == out && u.1 == err || compile(&u.1) && compile(&err)
                };
                if !same { return Err(format!("without optimization: {:?}, with optimization: {:?}", u, (out, err))) }
            }
        }
    }
    Ok(())
}

// ===== Driver ===== //

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c)
        }
    }
    r.push('"');
    r
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static STARTED: AtomicU64 = AtomicU64::new(0);
const LIMIT_MS: u64 = 20_000;

fn failure(i: u64, case: &Case, why: &str) -> String {
    format!("{{\"index\": {}, \"program\": {}, \"expected\": {}, \"failure\": {}}}", i, json(&case.src), json(&format!("{:?}", case.expect)), json(why))
}

fn ctx() -> Ctx {
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    Ctx {
        thorough: env("VERIF_TIER") == "thorough",
        seed: env("VERIF_SEED").parse().unwrap_or(1),
        extra: env("REPLAY_EXTRA").split(',').filter_map(|u| u.trim().parse().ok()).collect(),
    }
}

/// Runs the cases of one shard. Prints a line `FAIL {json}` on the first failing case, `DONE n` at the end.
fn shard(id: &str, k: u64, n: u64, progress: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let begin = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let (c, s) = (CURRENT.load(Ordering::SeqCst), STARTED.load(Ordering::SeqCst));
        if c != u64::MAX && begin.elapsed().as_millis() as u64 > s + LIMIT_MS && CURRENT.load(Ordering::SeqCst) == c {
            std::process::exit(3);
        }
    });
    let file = std::fs::File::create(progress).unwrap();
    memory::POISON.store(id == "C11", Ordering::SeqCst);
    let id = id.to_string();
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
        use std::os::unix::fs::FileExt;
        let ctx = ctx();
        let (mut i, mut done, mut failed) = (0u64, 0u64, false);
        let mut sample: Option<String> = None;
        props::generate(&id, &ctx, &mut |case: Case| {
            let mine = i % n == k;
            i += 1;
            if !mine || failed { return }
            file.write_at(&(i - 1).to_le_bytes(), 0).unwrap();
            STARTED.store(begin.elapsed().as_millis() as u64, Ordering::SeqCst);
            CURRENT.store(i - 1, Ordering::SeqCst);
            let r = check(&case);
            CURRENT.store(u64::MAX, Ordering::SeqCst);
            done += 1;
            if sample.is_none() || done % 997 == 0 { sample = Some(case.src.clone()); }
            if let Err(why) = r {
                failed = true;
                println!("FAIL {}", failure(i - 1, &case, &why));
            }
        });
        if let Some(s) = sample { println!("SAMPLE {}", json(&s)); }
        println!("DONE {}", done);
    }).unwrap();
    t.join().unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "--shard" => shard(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
        "--show" => {
            // Prints, or runs, the one case of the given index
            let want: u64 = args[3].parse().unwrap();
            let mut i = 0;
            props::generate(&args[2], &ctx(), &mut |case: Case| { if i == want { println!("{}", failure(i, &case, "")) } i += 1; });
        },
        "--run" => {
            let src = std::fs::read_to_string(&args[2]).unwrap();
            for opt in [false, true] { println!("{:?}", run(&src, opt)); }
        },
        id => parent(id, &args[2]),
    }
}

/// Runs all shards as separate processes, such that a crash (stack overflow, memory, endless loop) is contained, and
/// attributed to its case. Output: one line of json.
fn parent(id: &str, dir: &str) {
    let exe = std::env::current_exe().unwrap();
    let n = std::thread::available_parallelism().map(|u| u.get()).unwrap_or(4).min(8);
    let mut children = Vec::new();
    for k in 0..n {
        let progress = format!("{}/progress.{}.{}", dir, id, k);
        let child = std::process::Command::new("sh")
            .arg("-c").arg("ulimit -v 4000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(&exe)
            .args(["--shard", id, &k.to_string(), &n.to_string(), &progress])
            .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
        children.push((child, progress));
    }
    let (mut total, mut fail, mut samples): (u64, Option<String>, Vec<String>) = (0, None, Vec::new());
    for (child, progress) in children {
        let out = child.wait_with_output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut done = false;
        for line in text.lines() {
            if let Some(f) = line.strip_prefix("FAIL ") { fail.get_or_insert(f.to_string()); }
            if let Some(f) = line.strip_prefix("SAMPLE ") { if samples.len() < 4 { samples.push(f.to_string()) } }
            if let Some(f) = line.strip_prefix("DONE ") { total += f.parse::<u64>().unwrap(); done = true; }
        }
        if !done && !text.contains("FAIL ") && fail.is_none() {
            let b = std::fs::read(&progress).unwrap_or_default();
            let i = u64::from_le_bytes(b.get(0..8).and_then(|u| u.try_into().ok()).unwrap_or([0xff; 8]));
            let why = if out.status.code() == Some(3) { format!("the program did not end within {} s", LIMIT_MS / 1000) } else { format!("the interpreter crashed: {}", out.status) };
            let mut j = 0;
            let mut f = None;
            props::generate(id, &ctx(), &mut |case: Case| { if j == i { f = Some(failure(i, &case, &why)) } j += 1; });
            fail = f.or(Some(format!("{{\"failure\": {}}}", json(&why))));
        }
        let _ = std::fs::remove_file(&progress);
    }
    println!("{{\"evaluations\": {}, \"samples\": [{}], \"fail\": {}}}", total, samples.join(", "), fail.unwrap_or("null".to_string()));
}
