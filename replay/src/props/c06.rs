//! C06: indexing and slicing, against Python's definition
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

/// Python's slice.indices
fn slice(n: i128, a: Option<i64>, b: Option<i64>, c: i64) -> Vec<usize> {
    let c = c as i128; let (lo, hi) = if c > 0 { (0, n) } else { (-1, n - 1) };
    let f = |x: Option<i64>, absent: i128| match x { None => absent, Some(x) => { let x = x as i128; let y = if x < 0 { x + n } else { x }; y.max(lo).min(hi) } };
    let (mut i, stop) = if c > 0 { (f(a, 0), f(b, n)) } else { (f(a, n - 1), f(b, -1)) };
    let mut v = Vec::new();
    while if c > 0 { i < stop } else { i > stop } { v.push(i as usize); i += c; }
    v
}
const CHARS: [char; 8] = ['a', 'b', 'é', '日', '😀', 'Z', '\u{301}', '\u{7ff}'];

struct Seq { src: String, items: Vec<String>, kind: u8 }
impl Seq {
    fn new(kind: u8, n: usize, rng: &mut Rng) -> Seq {
        if kind == 2 {
            let cs: Vec<char> = (0..n).map(|_| *rng.pick(&CHARS)).collect();
            Seq { src: format!("'{}'", cs.iter().collect::<String>()), items: cs.iter().map(|c| c.to_string()).collect(), kind }
        } else {
            let xs: Vec<String> = (0..n).map(|i| (i as i64 * 10 + rng.range(0, 9)).to_string()).collect();
            Seq { src: format!("{}([{}])", if kind == 0 { "list" } else { "vector" }, xs.join(", ")), items: xs, kind }
        }
    }
    fn show(&self, ix: &[usize]) -> String {
        let v: Vec<&str> = ix.iter().map(|i| self.items[*i].as_str()).collect();
        match self.kind { 0 => format!("[{}]", v.join(", ")), 1 => format!("({})", v.join(", ")), _ => v.concat() }
    }
}
fn o(x: Option<i64>) -> String { x.map(lit).unwrap_or_default() }
fn n(x: Option<i64>) -> String { x.map(lit).unwrap_or("nil".into()) }

fn slices(s: &Seq, abc: &[(Option<i64>, Option<i64>, Option<i64>)], sink: Sink) {
    let mut src = format!("let x = {}\nprint(len(x))\n", s.src); let mut out = format!("{}\n", s.items.len());
    for (k, (a, b, c)) in abc.iter().enumerate() {
        let (p, q, r) = (o(*a), o(*b), o(*c)); let tail = if c.is_some() || k % 2 == 0 { format!(":{r}") } else { String::new() };
        let w = s.show(&slice(s.items.len() as i128, *a, *b, c.unwrap_or(1)));
        src += &format!("print(x[{p}:{q}{tail}])\n"); out += &format!("{w}\n");
        // as a function, and with computed or nil bounds
        match k % 4 {
            0 => { src += &format!("print(x . [{p}:{q}{tail}])\n"); out += &format!("{w}\n"); },
            1 => { src += &format!("let a = {}\nlet b = {}\nlet c = {}\nprint(x[a:b:c], [x] . map([a:b:c]) . len)\n", n(*a), n(*b), n(*c)); out += &format!("{w} 1\n"); src = src.replace("let a =", "a =").replace("let b =", "b =").replace("let c =", "c ="); },
            2 => { src += &format!("print({}[{p}:{q}{tail}] == x[{p}:{q}{tail}])\n", s.src); out += "true\n"; },
            _ => {}
        }
    }
    src = format!("let a, b, c\n{src}print(x == {})\n", s.src); out += "true\n";
    sink(Case { src, expect: Expect::Out(out) });
}

fn indexes(s: &Seq, rng: &mut Rng, sink: Sink) {
    let len = s.items.len() as i64; let q = |x: &str| if s.kind == 2 { x.to_string() } else { x.to_string() };
    let mut src = format!("let x = {}\nprint(len(x), bool(x))\n", s.src); let mut out = format!("{len} {}\n", len > 0);
    for i in -len..len { src += &format!("print(x[{}])\n", lit(i)); out += &format!("{}\n", q(&s.items[(if i < 0 { i + len } else { i }) as usize])); }
    sink(Case { src: src.clone(), expect: Expect::Out(out.clone()) });
    for i in [len, len + 1, -len - 1, -len - 2, MAX, MIN, MAX - len, MIN + len, rng.int().max(len), 1 << 32, -(1 << 32), (1 << 32) + len - 1] {
        sink(Case { src: format!("{src}x[{}]\nprint('no')", lit(i)), expect: Expect::Err(out.clone(), "out of bounds".into()) });
        if s.kind != 2 { sink(Case { src: format!("{src}x[{}] = 1\nprint('no')", lit(i)), expect: Expect::Err(out.clone(), "out of bounds".into()) }); }
    }
    for bad in ["nil", "'a'", "[]", "1i", "print"] { sink(Case { src: format!("{src}let j = {bad}\nx[j]\nprint('no')"), expect: Expect::Err(out.clone(), "TypeError".into()) }); }
    if len > 0 { sink(Case { src: format!("{src}print(x[true and (0 == 0)] == x[{}])", if len > 1 { 1 } else { 0 }), expect: if len > 1 { Expect::Out(format!("{out}true\n")) } else { Expect::Err(out.clone(), "out of bounds".into()) } }); }
    if s.kind == 2 {
        sink(Case { src: format!("{src}x[0] = 'a'\nprint('no')"), expect: if len > 0 { Expect::Err(out.clone(), "TypeError".into()) } else { Expect::Err(out.clone(), "out of bounds".into()) } });
        return
    }
    // Assignment, with and without an operator, to each position
    let mut items = s.items.clone(); let mut src = format!("let x = {}\nlet y = x\nlet z = [...x]\n", s.src); let mut out = String::new();
    for i in -len..len {
        let p = (if i < 0 { i + len } else { i }) as usize;
        if rng.bool() { let v = rng.int(); src += &format!("x[{}] = {}\n", lit(i), lit(v)); items[p] = v.to_string(); }
        else { let v = rng.range(-99, 99); let w = wrap(items[p].parse::<i64>().unwrap() as i128 + v as i128); src += &format!("x[{}] += {}\n", lit(i), lit(v)); items[p] = w.to_string(); }
        src += "print(x, x == y, len(z))\n";
        out += &format!("{} true {len}\n", if s.kind == 0 { format!("[{}]", items.join(", ")) } else { format!("({})", items.join(", ")) });
    }
    src += "print(z)\n"; out += &format!("[{}]\n", s.items.join(", "));
    sink(Case { src, expect: Expect::Out(out) });
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    // All bounds around the ends, for each length and kind
    for len in 0..=if ctx.thorough { 6 } else { 4usize } { for kind in 0..3 {
        let s = Seq::new(kind, len, &mut rng); let l = len as i64;
        let mut bounds: Vec<Option<i64>> = (-l - 2..=l + 2).map(Some).collect(); bounds.push(None);
        for c in [None, Some(1), Some(2), Some(3), Some(-1), Some(-2), Some(-3), Some(l + 1), Some(-l - 1)] {
            if c == Some(0) { continue }
            let mut abc = Vec::new();
            for a in &bounds { for b in &bounds { abc.push((*a, *b, c)); } }
            if !ctx.thorough { let k = rng.below(3) as usize; abc = abc.into_iter().skip(k).step_by(3).collect(); }
            slices(&s, &abc, sink);
        }
    } }
    // Bounds and steps of any size
    let e = edges();
    for i in 0..if ctx.thorough { 3000 } else { 150 } {
        let k = rng.below(12) as usize; let s = Seq::new((i % 3) as u8, k, &mut rng); let l = s.items.len() as i64;
        let mut abc = Vec::new();
        for _ in 0..12 {
            let mut p = || match rng.below(5) { 0 => None, 1 => Some(rng.int()), 2 => Some(*rng.pick(&e)), 3 => if ctx.extra.is_empty() { Some(rng.range(-l - 1, l + 1)) } else { Some(wrap(*rng.pick(&ctx.extra) as i128)) }, _ => Some(rng.range(-l - 1, l + 1)) };
            let (a, b) = (p(), p()); let mut c = p(); if c == Some(0) { c = None }
            abc.push((a, b, c));
        }
        slices(&s, &abc, sink);
        if i % 5 == 0 { indexes(&s, &mut rng, sink); }
    }
    for kind in 0..3 { for len in 0..3 { let s = Seq::new(kind, len, &mut rng); indexes(&s, &mut rng, sink);
        for sl in ["[::0]", "[1:2:0]", "[:-1:0]"] { sink(Case { src: format!("let x = {}\nprint('a')\nlet z = 0\nx{sl}\nprint('b')", s.src), expect: Expect::Err("a\n".into(), "ValueError".into()) }); }
        for sl in ["['a':]", "[:'a']", "[::'a']", "[[]::]", "[:1i:2]"] { sink(Case { src: format!("let x = {}\nprint('a')\nx{sl}\nprint('b')", s.src), expect: Expect::Err("a\n".into(), "TypeError".into()) }); }
    } }
    for bad in ["nil", "1", "{1}", "range(3)", "print", "1i", "true"] { for op in ["[:]", "[0:1]"] { sink(Case { src: format!("let x = {bad}\nprint('a')\nx{op}\nprint('b')"), expect: Expect::Err("a\n".into(), "TypeError".into()) }); } }
    for bad in ["nil", "1", "{1}", "range(3)", "print", "1i", "true"] { sink(Case { src: format!("let x = {bad}\nprint('a')\nx[0]\nprint('b')"), expect: Expect::Err("a\n".into(), "TypeError".into()) }); }
}
