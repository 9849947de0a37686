//! C19: argument lists and literals with unrolled parts, nested at random; and nothing left behind
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, Debug, PartialEq)]
enum V { Int(i64), Str(String), List(Vec<V>), Vector(Vec<V>), Set(Vec<V>), Dict(Vec<(V, V)>)}
use V::*;
fn join(v: &[V]) -> String { v.iter().map(show).collect::<Vec<_>>().join(", ") }
fn show(v: &V) -> String {
    match v {
        Int(i) => i.to_string(), Str(s) => format!("'{s}'"), List(v) => format!("[{}]", join(v)), Vector(v) => format!("({})", join(v)), Set(v) => format!("{{{}}}", join(v)),
        Dict(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{}: {}", show(k), show(x))).collect::<Vec<_>>().join(", "))
    }
}
fn elements(v: &V) -> Vec<V> {
    match v { List(v) | Vector(v) | Set(v) => v.clone(), Dict(v) => v.iter().map(|(k, x)| Vector(vec![k.clone(), x.clone()])).collect(), Str(s) => s.chars().map(|c| Str(c.to_string())).collect(), _ => unreachable!() }
}
fn uniq(v: Vec<V>) -> Vec<V> { let mut r = Vec::new(); for x in v { if !r.contains(&x) { r.push(x) } } r }
fn put(d: &mut Vec<(V, V)>, k: V, x: V) { match d.iter_mut().find(|(q, _)| *q == k) { Some(e) => e.1 = x, None => d.push((k, x)) } }

struct G<'a> { rng: &'a mut Rng, next: i64, log: Vec<i64> }
impl G<'_> {
    /// A leaf which records that, and when, it is evaluated
    fn leaf(&mut self) -> (String, V) {
        self.next += 1; let n = self.next; self.log.push(n);
        let v = if self.rng.chance(6) { n % 3 } else { n };
        (if v == n { format!("t({n})") } else { format!("t({n}, {v})") }, Int(v))
    }
    fn parts(&mut self, depth: u32, max: u64, hashed: bool) -> (Vec<String>, Vec<V>) {
        let n = if self.rng.chance(20) { 40 } else { self.rng.below(max + 1) };
        let (mut s, mut v) = (Vec::new(), Vec::new());
        for _ in 0..n {
            if self.rng.chance(3) {
                let (a, b) = self.iterable(if n > 10 { 0 } else { depth.saturating_sub(1) }, hashed); s.push(format!("...{a}")); v.extend(elements(&b));
            } else if hashed || depth == 0 || n > 10 || self.rng.bool() { let (a, b) = self.leaf(); s.push(a); v.push(b); }
            else { let (a, b) = self.expr(depth - 1); s.push(a); v.push(b); }
        }
        (s, v)
    }
    /// Something to unroll. hashed: the elements are to be used as keys
    fn iterable(&mut self, depth: u32, hashed: bool) -> (String, V) {
        match self.rng.below(if hashed { 6 } else { 8 }) {
            0 => ("[]".into(), List(vec![])),
            1 => { let n = self.rng.range(0, 4); (format!("range({n})"), List((0..n).map(Int).collect())) },
            2 => { let s: String = "abcdé日".chars().take(self.rng.below(7) as usize).collect(); (format!("'{s}'"), Str(s)) },
            3 | 4 => { let (s, v) = self.parts(depth, 3, hashed); (format!("[{}]", s.join(", ")), List(v)) },
            5 => { let (s, v) = self.parts(depth, 3, hashed); (format!("v({})", s.join(", ")), Vector(v)) },
            6 => self.set(depth),
            _ => self.dict(depth),
        }
    }
    fn set(&mut self, depth: u32) -> (String, V) {
        let (mut s, mut v) = self.parts(depth, 4, true);
        let (a, b) = self.leaf(); s.push(a); v.push(b); // so that it is not taken for a dict, or vice versa
        (format!("{{{}}}", s.join(", ")), Set(uniq(v)))
    }
    fn dict(&mut self, depth: u32) -> (String, V) {
        let mut s = Vec::new(); let mut d = Vec::new();
        let n = self.rng.below(5);
        for _ in 0..n {
            match self.rng.below(4) {
                0 if depth > 0 => { let (a, b) = self.dict(depth - 1); s.push(format!("...{a}")); if let Dict(b) = b { for (k, x) in b { put(&mut d, k, x) } } },
                1 => { let m = self.rng.below(3); let mut q = Vec::new(); for i in 0..m { let (a, k) = self.leaf(); let (b, x) = self.leaf(); q.push(if i % 2 == 0 { format!("[{a}, {b}]") } else { format!("v({a}, {b})") }); put(&mut d, k, x); } s.push(format!("...[{}]", q.join(", "))); },
                _ => { let (a, k) = self.leaf(); let (b, x) = if depth > 0 { self.expr(depth - 1) } else { self.leaf() }; s.push(format!("{a}: {b}")); put(&mut d, k, x); }
            }
        }
        let (a, k) = self.leaf(); let (b, x) = self.leaf(); s.push(format!("{a}: {b}")); put(&mut d, k, x);
        (format!("{{{}}}", s.join(", ")), Dict(d))
    }
    fn expr(&mut self, depth: u32) -> (String, V) {
        if depth == 0 { return self.leaf() }
        let d = depth - 1;
        match self.rng.below(16) {
            0 => self.leaf(),
            1 | 2 => { let (s, v) = self.parts(d, 5, false); (format!("[{}]", s.join(", ")), List(v)) },
            3 => { let (mut s, mut v) = self.parts(d, 3, false); let (a, b) = self.leaf(); s.push(a); v.push(b); (format!("({},)", s.join(", ")), Vector(v)) },
            4 => self.set(d),
            5 => self.dict(d),
            6 | 7 => { let (s, v) = self.parts(d, 5, false); (format!("v({})", s.join(", ")), Vector(v)) },
            8 => { // a call with a partial function, the arguments of either part unrolled or not
                let (s1, v1) = self.expr(d); let (s3, v3) = self.expr(d); let (s4, v4) = self.parts(d, 3, false);
                let mut all = vec![s3]; all.extend(s4);
                (if self.rng.bool() { format!("f({s1})({})", all.join(", ")) } else { format!("f(...[{s1}])(...[], {})", all.join(", ")) }, List(vec![v1, v3, Vector(v4)]))
            },
            9 => { let (s, v) = self.parts(d, 4, false); (format!("list(v({}))", s.join(", ")), List(v)) },
            10 => { let (s, v) = self.parts(d, 4, false); (format!("len(v({}))", s.join(", ")), Int(v.len() as i64)) },
            11 => { let (a, x) = self.expr(d); let (b, y) = self.expr(d); (format!("([{a}] + [{b}])"), List(vec![x, y])) },
            12 => { let (a, x) = self.expr(d); let (b, y) = self.expr(d); let (c, z) = self.expr(d); (if self.rng.bool() { format!("({a} . h({b}, ...[{c}]))") } else { format!("({a} . h({b}, {c}))") }, List(vec![y, z, x])) },
            13 => { let (a, x) = self.expr(d); (format!("(if t(0) == 0 then {a} else v(...[1, 2], 3))").replace("t(0) == 0", "true"), x) },
            14 => { let (a, x) = self.leaf(); let (s, v) = self.parts(d, 4, false); let mut w = v; w.insert(0, x); (format!("[{a}, {}][:]", s.join(", ")).replace(", ]", "]"), List(w)) },
            _ => { let (s, v) = self.parts(d, 4, false); (format!("[{}] . map(t0)", s.join(", ")), List(v)) },
        }
    }
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed);
    let pre = "let log = []\nfn t(i, x?) {\nlog . push(i)\nreturn if x == nil then i else x }\nfn v(*a) -> a\nfn f(a, b, *c) -> [a, b, c]\nfn h(a, b, c) -> [a, b, c]\nfn t0(x) -> x\n";
    for round in 0..if ctx.thorough { 20000 } else { 2500 } {
        let mut src = pre.to_string(); let mut out = String::new();
        let local = round % 3 == 1; let looped = round % 3 == 2;
        if local { src += "fn main(p, q) {\nlet z = 3\n"; }
        if looped { src += "let z = 3\nfor k in range(2) {\nlet y = 4\n"; }
        let mut body = String::new(); let mut want = String::new();
        for i in 0..1 + rng.below(3) {
            let depth = 1 + rng.below(4) as u32;
            let mut g = G { rng: &mut rng, next: 0, log: vec![] };
            let (s, v) = g.expr(depth);
            let log = g.log.clone();
            match i % 3 { 0 => { body += &format!("log = []\nlet r{i} = {s}\nprint(repr(r{i}))\n"); want += &show(&v); want += "\n"; }, 1 => { body += &format!("log = []\n{s}\nprint(repr({s}), [repr({s}), 1][1])\n"); want += &format!("{} 1\n", show(&v)); }, _ => { body += &format!("log = []\nprint(1, repr({s}), 2)\n"); want += &format!("1 {} 2\n", show(&v)); } }
            let times = if i % 3 == 1 { 3 } else { 1 };
            { body += "print(log)\n"; want += &format!("[{}]\n", std::iter::repeat(&log).take(times).flatten().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")); }
        }
        src += &body; out += &want;
        if local { src += "print(p, q, z)\nreturn z\n}\nprint([0, main(1, 2), main(...[8], 9)])\n"; out = format!("{out}1 2 3\n{out}8 9 3\n[0, 3, 3]\n"); }
        else if looped { src += "print(y, k, z)\n}\nprint(z)\n"; out = format!("{out}4 0 3\n{out}4 1 3\n3\n"); }
        sink(Case { src, expect: Expect::Out(out) });
    }
    // sizes around powers of two
    for n in [0usize, 1, 2, 3, 15, 16, 17, 255, 256, 257, 511, 1023, 1025] {
        let xs: Vec<i64> = (0..n as i64).map(|i| i * 3 - 7).collect(); let s = xs.iter().map(|x| lit(*x)).collect::<Vec<_>>().join(", "); let w = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
        let d = xs.iter().map(|x| format!("{}: {}", lit(*x), lit(-x))).collect::<Vec<_>>().join(", "); let dw = xs.iter().map(|x| format!("{x}: {}", -x)).collect::<Vec<_>>().join(", ");
        let half = xs.iter().enumerate().map(|(i, x)| if i % 5 == 3 { format!("...[{}]", lit(*x)) } else if i % 7 == 2 { format!("{}, ...[]", lit(*x)) } else { lit(*x) }).collect::<Vec<_>>().join(", ");
        sink(Case { src: format!("fn v(*a) -> list(a)\nprint([{s}])\nprint(v({s}))\nprint([{half}])\nprint(v({half}))\nprint(list(set([{half}])))\n{}print([{{{d}}}], len({{{d}}}))\n", if n > 0 { format!("print({{{half}}})\n") } else { String::new() }),
            expect: Expect::Out(format!("[{w}]\n[{w}]\n[{w}]\n[{w}]\n[{w}]\n{}[{{{dw}}}] {n}\n", if n > 0 { format!("{{{w}}}\n") } else { String::new() })) });
    }
    // what can not be unrolled is an error
    for x in ["1", "nil", "true", "len", "1.5i"] { if x == "1.5i" { continue } for e in ["[1, ...X]", "v(1, ...X, 2)", "{1, ...X}", "{1: 2, ...X}", "(0, ...X)"] {
        sink(Case { src: format!("fn v(*a) -> a\nlet x = {x}\nprint(1)\n{}\nprint(2)", e.replace('X', "x")), expect: Expect::Err("1\n".into(), "to be an iterable".into()) });
    } }
    for x in ["[1]", "[[1]]", "[[1, 2, 3]]", "'ab'", "[{1, 2}]"] { sink(Case { src: format!("let x = {x}\nprint(1)\nlet d = {{1: 2, ...x}}\nprint(2)"), expect: Expect::Err("1\n".into(), "".into()) }); }
}
