//! C12: conversions and integer functions, against 128-bit arithmetic and definitions of their own
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

fn quote(s: &str) -> String { format!("'{}'", s.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")) }
/// The number a text denotes
fn number(s: &str, radix: u32) -> Option<i64> {
    let (neg, t) = match s.chars().next()? { '-' => (true, &s[1..]), '+' => (false, &s[1..]), _ => (false, s) };
    if t.is_empty() { return None }
    let mut x: i128 = 0;
    for c in t.chars() {
        let d = match c { '0'..='9' => c as u32 - 48, 'a'..='z' => c as u32 - 87, 'A'..='Z' => c as u32 - 55, _ => return None };
        if d >= radix { return None }
        x = (x * radix as i128 + d as i128).min(1 << 70);
    }
    let x = if neg { -x } else { x };
    if x < MIN as i128 || x > MAX as i128 { None } else { Some(x as i64) }
}
fn digits(mut x: i128, radix: i128) -> String { let mut r = Vec::new(); loop { r.push(b"0123456789abcdef"[(x % radix) as usize]); x /= radix; if x == 0 { break } } r.reverse(); String::from_utf8(r).unwrap() }
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
fn isqrt(n: i128) -> i128 { let (mut lo, mut hi) = (0i128, 1 << 32); while hi - lo > 1 { let m = (lo + hi) / 2; if m * m <= n { lo = m } else { hi = m } } lo }
fn complex(x: i64, y: i64) -> String { let i = if y == MIN { format!("(-{}i - 1i)", MAX) } else if y < 0 { format!("(-{}i)", -y) } else { format!("{}i", y) }; format!("({} + {})", lit(x), i) }

/// Checks a list of (expression, expected text by repr) in one program
fn all(sink: Sink, pre: &str, tests: &[(String, String)]) {
    for part in tests.chunks(40) {
        let mut src = pre.to_string(); let mut out = String::new();
        for (e, r) in part { src += &format!("print(repr({e}))\n"); out += r; out.push('\n'); }
        sink(Case { src, expect: Expect::Out(out) });
    }
}
fn fail(sink: Sink, e: String, message: &str) { sink(Case { src: format!("print('-')\nprint({e})"), expect: Expect::Err("-\n".into(), message.into()) }); }

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    let n = if ctx.thorough { 30000 } else { 500 };
    let mut ints = edges();
    for k in 0..62 { for d in [-1, 0, 1] { ints.push((1i64 << k) + d); ints.push(-(1i64 << k) + d.max(if k == 61 { 0 } else { d })); } }
    for r in [1i64 << 31, 3037000499, 2147483647, 46341, 65536, 1 << 20, 94906267, 94906266, 1518500249, 2147483646] { for d in [-1, 0, 1] { if let Some(x) = r.checked_mul(r) { if x <= MAX - 1 { ints.push(x + d); } } } }
    for _ in 0..n { ints.push(rng.int()); let r = rng.range(0, 1 << 31) - 1; for d in [-1, 0, 1] { let x = r * r + d; if x <= MAX && x >= MIN { ints.push(x); } } }
    for x in &ctx.extra { ints.push(wrap(*x as i128)); }

    // One argument
    let mut tests = Vec::new();
    for &x in &ints {
        let l = lit(x); let q = format!("'{x}'");
        tests.push((format!("int({q})"), x.to_string())); tests.push((format!("int(str({l}))"), x.to_string())); tests.push((format!("int({l})"), x.to_string())); tests.push((format!("str({l})"), format!("'{x}'")));
        tests.push((format!("abs({l})"), wrap((x as i128).abs()).to_string())); tests.push((format!("real({l})"), x.to_string())); tests.push((format!("imag({l})"), "0".into()));
        if x >= 0 {
            let (h, b) = (digits(x as i128, 16), digits(x as i128, 2));
            tests.push((format!("hex({l})"), format!("'{h}'"))); tests.push((format!("bin({l})"), format!("'{b}'"))); tests.push((format!("hex(hex({l}))"), x.to_string())); tests.push((format!("bin(bin({l}))"), x.to_string()));
            tests.push((format!("hex('{}')", h.to_uppercase()), x.to_string())); tests.push((format!("hex('-{h}')"), (-x).to_string())); tests.push((format!("bin('-{b}')"), (-x).to_string())); tests.push((format!("int('+00{x}')"), x.to_string()));
            tests.push((format!("sqrt({l})"), isqrt(x as i128).to_string()));
        } else if rng.chance(20) { fail(sink, format!("sqrt({l})"), "to be non-negative"); }
        let y = *rng.pick(&ints); let c = complex(x, y);
        tests.push((format!("real({c})"), x.to_string())); tests.push((format!("imag({c})"), y.to_string()));
        tests.push((format!("(real(abs({c})), imag(abs({c})))"), format!("({}, {})", wrap((x as i128).abs()), wrap((y as i128).abs()))));
    }
    rng.shuffle(&mut tests);
    all(sink, "", &tests);
    all(sink, "", &[("int(nil)", "0"), ("int(true)", "1"), ("int(false)", "0"), ("abs(true)", "1"), ("abs(false)", "0"), ("sqrt(true)", "1"), ("sqrt(false)", "0"), ("real(true)", "1"), ("real(false)", "0"), ("imag(true)", "0"), ("gcd(true, 3)", "1"), ("gcd(false, 3)", "3"), ("lcm(true, 3)", "3"), ("sum(true, true, 3)", "5"), ("int(true, 7)", "1"), ("int(nil, 7)", "0"), ("int(-3, 7)", "-3"), ("min(int)", "-4611686018427387904"), ("max(int)", "4611686018427387903"), ("ord(char(true))", "1")].map(|(a, b)| (a.to_string(), b.to_string())));
    for e in ["int([1])", "int(int)", "int(1i)", "int(fn() -> 1)", "abs(nil)", "abs('1')", "abs([1])", "sqrt(nil)", "sqrt('4')", "sqrt(4i)", "sqrt([4])", "real(nil)", "real('1')", "imag([1])", "gcd('1', 2)", "gcd(2, '1')", "gcd(2i, 3)", "lcm('1', 2)", "lcm(2, nil)", "lcm(2, 3i)", "hex(true)", "hex(nil)", "hex(2i)", "hex([1])", "bin(false)", "bin(nil)", "char('a')", "char(nil)", "char(2i)", "ord(1)", "ord(nil)", "ord([1])", "ord('')", "ord('ab')", "ord('né')", "sum('a', 'b')", "sum(1, nil)", "sum(1, 'a')", "sum(3, 2i)", "gcd([])", "lcm([])", "min([])", "max([])", "gcd(set())", "min(range(0))", "max('')"] {
        for variables in [false, true] { fail(sink, if variables { format!("(fn(f) -> f())(fn() -> {e})") } else { e.to_string() }, ""); }
    }
    all(sink, "", &[("sum([])".into(), "0".into()), ("sum(set())".into(), "0".into()), ("gcd([5])".into(), "5".into()), ("gcd([-5])".into(), "5".into()), ("lcm([-5])".into(), "5".into()), ("gcd([0])".into(), "0".into()), ("lcm([0])".into(), "0".into()), (format!("gcd([{}])", lit(MIN)), MIN.to_string()), (format!("lcm([{}])", lit(MIN)), MIN.to_string()), (format!("gcd({}, {})", lit(MIN), lit(MIN)), MIN.to_string()), (format!("gcd({}, 0)", lit(MIN)), MIN.to_string())]);

    // Texts
    let mut tests = Vec::new();
    let pieces = ["", "0", "1", "12", "7", "9", "a", "f", "F", "g", "z", "-", "+", "_", " ", "\n", "\t", ".", "0x", "0b", "x", "e", "4611686018427387903", "4611686018427387904", "4611686018427387905", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "3fffffffffffffff", "4000000000000000", "8000000000000000", "ffffffffffffffff", "10000000000000000", "١", "²", "é", "-4611686018427387904", "-4611686018427387905", "000000000000000000000000000", "100000000000000000000000000000000000000000000000000000000000000", "11111111111111111111111111111111111111111111111111111111111111"];
    for a in pieces { for b in pieces { for c in ["", "-", "3", "_", " "] {
        if !c.is_empty() && !rng.chance(if ctx.thorough { 2 } else { 8 }) { continue }
        let t = format!("{c}{a}{b}"); let q = quote(&t);
        for (f, radix) in [("int", 10), ("hex", 16), ("bin", 2)] {
            if radix != 10 && !rng.chance(2) { continue }
            match number(&t, radix) {
                Some(x) => { tests.push((format!("{f}({q})"), x.to_string())); if radix == 10 { tests.push((format!("int({q}, 'default')"), x.to_string())); } }
                None => {
                    if radix == 10 { tests.push((format!("int({q}, 'default')"), "'default'".into())); }
                    if ctx.thorough || rng.chance(12) { fail(sink, format!("{f}({q})"), "Cannot convert '"); }
                }
            }
        }
    } } }
    all(sink, "", &tests);

    // Characters
    let mut codes: Vec<u32> = (1..0x300).chain([0x3b1, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]).collect();
    for _ in 0..n { codes.push(1 + rng.below(0x10ffff) as u32); }
    let mut tests = Vec::new();
    for c in codes {
        match char::from_u32(c) {
            Some(ch) => { tests.push((format!("(ord(char({c})), len(char({c})))"), format!("({c}, 1)"))); if !ch.is_control() { tests.push((format!("(ord({0}), char(ord({0})) == {0}, char({c}) == {0})", quote(&ch.to_string())), format!("({c}, true, true)"))); } }
            None => fail(sink, format!("char({c})"), "to a character"),
        }
    }
    all(sink, "", &tests);
    for c in [0i64, -1, -65, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0xffffffff, 1 << 32, (1 << 32) + 65, (1 << 33) + 0x1f600, MAX, MIN, MIN + 65, (1 << 61) + 97, -(1 << 32) + 97] { for e in [format!("char({})", lit(c)), format!("[{}] . map(char)", lit(c))] { fail(sink, e, &format!("ValueError: Cannot convert int {c} to a character")); } }

    // Several arguments
    let mut tests = Vec::new();
    let small: Vec<i64> = (-30..=30).collect();
    for _ in 0..n {
        let k = 1 + rng.below(5) as usize;
        let base = rng.range(1, 1 << 20);
        let xs: Vec<i64> = (0..k).map(|_| match rng.below(4) { 0 => rng.int(), 1 => *rng.pick(&small), 2 => base * rng.range(-1000, 1000), _ => *rng.pick(&ints) }).collect();
        let args: Vec<String> = xs.iter().map(|x| lit(*x)).collect(); let list = args.join(", ");
        let mut call = |f: &str, rng: &mut Rng, r: i128| {
            let r = wrap(r).to_string();
            tests.push((match rng.below(if k > 1 { 6 } else { 4 }) { 0 => format!("{f}([{list}])"), 1 => format!("[{list}] . {f}"), 2 => format!("{f}(vector([{list}]))"), 3 => format!("{f}([{list}] . map(+ 0))"), 4 => format!("{f}({list})"), _ => format!("{f}(...[{list}])") }, r));
        };
        call("gcd", &mut rng, xs.iter().fold(0, |a, b| gcd(a, *b as i128)));
        let (mut m, mut fits) = (xs[0].abs() as i128, true);
        for x in &xs[1..] { if m == 0 || *x == 0 { m = 0 } else { m = m / gcd(m, *x as i128) * (*x as i128).abs(); } if m >= 1 << 63 { fits = false; break } }
        if fits { call("lcm", &mut rng, m); } else { sink(Case { src: format!("print(lcm([{list}]) is int)"), expect: Expect::Out("true\n".into()) }); }
        call("sum", &mut rng, xs.iter().map(|x| *x as i128).sum());
        call("min", &mut rng, *xs.iter().min().unwrap() as i128);
        call("max", &mut rng, *xs.iter().max().unwrap() as i128);
    }
    for a in -12..=12i64 { for b in -12..=12i64 { tests.push((format!("(gcd({a}, {b}), lcm({a}, {b}), min({a}, {b}), max({a}, {b}), sum({a}, {b}))"), format!("({}, {}, {}, {}, {})", gcd(a as i128, b as i128), if a * b == 0 { 0 } else { (a * b).abs() as i128 / gcd(a as i128, b as i128) }, a.min(b), a.max(b), a + b))); } }
    all(sink, "", &tests);
}
