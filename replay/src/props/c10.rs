//! C10: random nestings of control structures and expressions, traced, against an interpreter of the structure
use std::cell::Cell;
use std::rc::Rc;
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, Debug)]
enum E {
    V(u32, i64), Local(u32), And(Vec<E>), Or(Vec<E>), If(Box<B>, Box<E>, Box<E>), Bin(char, Box<E>, Box<E>), At(Vec<E>, usize),
    Call(usize, Vec<E>), Spread(Vec<E>), Inc(u32, Box<E>), Dot(usize, Vec<E>),
}
#[derive(Clone, Debug)]
enum B { C(u32), Not(Box<B>), And(Vec<B>), Or(Vec<B>), Chain(Vec<E>, Vec<&'static str>), Const(bool), If(Box<B>, Box<B>, Box<B>) }
#[derive(Clone, Debug)]
enum S {
    T(u32), Print(E), PrintB(B), Bare(B, E, E), Let(u32, E), Set(u32, E), If(Vec<(B, Vec<S>)>, Option<Vec<S>>), While(B, Vec<S>, Option<Vec<S>>),
    Do(Vec<S>, Option<B>, Option<Vec<S>>), Loop(Vec<S>), For(u32, Vec<E>, Vec<S>, Option<Vec<S>>), For2(u32, u32, Vec<(E, E)>, Vec<S>, Option<Vec<S>>),
    Break, Continue, Ret(E), RetIf(B, E), Assert(B, E), Capture(E), Def(usize, Rc<F>), CallAll,
}
#[derive(Clone, Debug)]
struct F { params: Vec<u32>, body: Vec<S> }

enum Stop { Break, Continue, Ret(i64), Exit, Assert(i64) }
type R<T> = Result<T, Stop>;
struct I<'a> { out: String, n: i64, bits: Vec<bool>, fs: &'a [(usize, F)], cs: Vec<(E, Env)> }
/// Variables and nested functions in scope, the innermost last
#[derive(Clone, Default)]
struct Env { v: Vec<(u32, Rc<Cell<i64>>)>, f: Vec<(usize, Rc<F>, Rc<Env>)> }
impl Env {
    fn push(&mut self, x: u32, v: i64) { self.v.push((x, var(v))) }
    fn mark(&self) -> (usize, usize) { (self.v.len(), self.f.len()) }
    fn reset(&mut self, k: (usize, usize)) { self.v.truncate(k.0); self.f.truncate(k.1) }
}
fn var(v: i64) -> Rc<Cell<i64>> { Rc::new(Cell::new(v)) }
const FUEL: i64 = 60;

impl I<'_> {
    fn t(&mut self, k: u32) -> R<()> { self.out.push_str(&format!("{k}\n")); self.n += 1; if self.n > FUEL { Err(Stop::Exit) } else { Ok(()) } }
    fn set(env: &Env, x: u32, v: i64) { env.v.iter().rev().find(|u| u.0 == x).unwrap().1.set(v) }
    fn get(env: &Env, x: u32) -> i64 { env.v.iter().rev().find(|u| u.0 == x).unwrap().1.get() }
    fn call(&mut self, f: usize, args: &[E], env: &mut Env) -> R<i64> {
        let mut vs = Vec::new();
        for a in args { vs.push(self.e(a, env)?) }
        self.enter(f, vs, env)
    }
    fn enter(&mut self, f: usize, vs: Vec<i64>, env: &Env) -> R<i64> {
        let nested = env.f.iter().rev().find(|u| u.0 == f).cloned();
        let (mut inner, fun) = match &nested {
            Some((_, fun, outer)) => { let mut inner = (**outer).clone(); inner.f.push((f, fun.clone(), outer.clone())); (inner, &**fun) }
            None => (Env::default(), &self.fs.iter().find(|u| u.0 == f).unwrap().1)
        };
        for (x, v) in fun.params.iter().zip(vs) { inner.push(*x, v) }
        match self.block(&fun.body, &mut inner) { Err(Stop::Ret(v)) => Ok(v), Err(e) => Err(e), Ok(()) => unreachable!() }
    }
    fn e(&mut self, e: &E, env: &mut Env) -> R<i64> {
        Ok(match e {
            E::V(k, x) => { self.t(*k)?; *x }
            E::Local(x) => Self::get(env, *x),
            E::And(es) => { let mut v = 0; for e in es { v = self.e(e, env)?; if v == 0 { break } } v }
            E::Or(es) => { let mut v = 0; for e in es { v = self.e(e, env)?; if v != 0 { break } } v }
            E::If(c, a, b) => if self.b(c, env)? { self.e(a, env)? } else { self.e(b, env)? },
            E::Bin(op, a, b) => { let (x, y) = (self.e(a, env)?, self.e(b, env)?); wrap(match op { '+' => x as i128 + y as i128, '-' => x as i128 - y as i128, '&' => (x & y) as i128, _ => (x as i128).wrapping_mul(y as i128) }) }
            E::At(es, i) => { let mut vs = Vec::new(); for e in es { vs.push(self.e(e, env)?) } vs[*i] }
            E::Spread(es) => { let mut s = 0i128; for e in es { s += self.e(e, env)? as i128 } wrap(s) }
            E::Call(f, args) => self.call(*f, args, env)?,
            E::Dot(f, args) => { let x = self.e(&args[0], env)?; self.enter(*f, vec![x], env)? }
            E::Inc(x, e) => { let v = self.e(e, env)?; Self::set(env, *x, v); v }
        })
    }
    fn b(&mut self, b: &B, env: &mut Env) -> R<bool> {
        Ok(match b {
            B::C(k) => { self.t(*k)?; self.bits[self.n as usize % self.bits.len()] }
            B::Const(b) => *b,
            B::Not(b) => !self.b(b, env)?,
            B::And(bs) => { for b in bs { if !self.b(b, env)? { return Ok(false) } } true }
            B::Or(bs) => { for b in bs { if self.b(b, env)? { return Ok(true) } } false }
            B::If(c, x, y) => if self.b(c, env)? { self.b(x, env)? } else { self.b(y, env)? },
            B::Chain(es, ops) => {
                let mut x = self.e(&es[0], env)?;
                for (e, op) in es[1..].iter().zip(ops) {
                    let y = self.e(e, env)?;
                    if !(match *op { "<" => x < y, "<=" => x <= y, ">" => x > y, ">=" => x >= y, "==" => x == y, _ => x != y }) { return Ok(false) }
                    x = y;
                }
                true
            }
        })
    }
    fn block(&mut self, ss: &[S], env: &mut Env) -> R<()> {
        let k = env.mark();
        let r = ss.iter().try_for_each(|s| self.s(s, env));
        env.reset(k);
        r
    }
    /// One pass of a loop body: whether to go on
    fn pass(&mut self, body: &[S], env: &mut Env) -> R<bool> { match self.block(body, env) { Ok(()) | Err(Stop::Continue) => Ok(true), Err(Stop::Break) => Ok(false), Err(e) => Err(e) } }
    fn otherwise(&mut self, e: &Option<Vec<S>>, env: &mut Env) -> R<()> { if let Some(e) = e { self.block(e, env)? } Ok(()) }
    fn all(&mut self) -> R<()> {
        let mut vs = Vec::new();
        for (e, mut env) in self.cs.clone() { vs.push(self.e(&e, &mut env)?.to_string()) }
        self.out.push_str(&format!("[{}]\n", vs.join(", ")));
        Ok(())
    }
    fn s(&mut self, s: &S, env: &mut Env) -> R<()> {
        match s {
            S::T(k) => self.t(*k)?,
            S::Print(e) => { let v = self.e(e, env)?; self.out.push_str(&format!("{v}\n")) }
            S::PrintB(b) => { let v = self.b(b, env)?; self.out.push_str(&format!("{v}\n")) }
            S::Bare(c, a, b) => { if self.b(c, env)? { self.e(a, env)?; } else { self.e(b, env)?; } }
            S::Let(x, e) => { let v = self.e(e, env)?; env.push(*x, v) }
            S::Set(x, e) => { let v = self.e(e, env)?; Self::set(env, *x, v) }
            S::If(cs, e) => { for (c, b) in cs { if self.b(c, env)? { return self.block(b, env) } } self.otherwise(e, env)? }
            S::While(c, b, e) => loop {
                if !self.b(c, env)? { self.otherwise(e, env)?; break }
                if !self.pass(b, env)? { break }
            },
            S::Do(b, c, e) => loop {
                // continue in a do-while goes on with the start of the body
                match self.block(b, env) { Ok(()) => {}, Err(Stop::Continue) => continue, Err(Stop::Break) => break, Err(e) => return Err(e) }
                match c { Some(c) => if self.b(c, env)? { continue }, None => {} }
                self.otherwise(e, env)?;
                break
            },
            S::Loop(b) => while self.pass(b, env)? {},
            S::For(x, es, b, e) => {
                let mut vs = Vec::new(); for e in es { vs.push(self.e(e, env)?) }
                let k = env.mark(); let mut broke = false;
                for v in vs { env.push(*x, v); let r = self.pass(b, env); env.reset(k); if !r? { broke = true; break } }
                if !broke { self.otherwise(e, env)? }
            }
            S::For2(x, y, es, b, e) => {
                let mut vs = Vec::new(); for (a, c) in es { let p = self.e(a, env)?; vs.push((p, self.e(c, env)?)) }
                let k = env.mark(); let mut broke = false;
                for (v, w) in vs { env.push(*x, v); env.push(*y, w); let r = self.pass(b, env); env.reset(k); if !r? { broke = true; break } }
                if !broke { self.otherwise(e, env)? }
            }
            S::Capture(e) => self.cs.push((e.clone(), env.clone())),
            S::Def(f, fun) => { let outer = Rc::new(env.clone()); env.f.push((*f, fun.clone(), outer)) }
            S::CallAll => self.all()?,
            S::Break => return Err(Stop::Break),
            S::Continue => return Err(Stop::Continue),
            S::Ret(e) => { let v = self.e(e, env)?; return Err(Stop::Ret(v)) }
            S::RetIf(c, e) => if self.b(c, env)? { let v = self.e(e, env)?; return Err(Stop::Ret(v)) },
            // the message is evaluated only when the assertion fails
            S::Assert(c, m) => if !self.b(c, env)? { let v = self.e(m, env)?; return Err(Stop::Assert(v)) },
        }
        Ok(())
    }
}

// ----- source ----- //
fn csv(es: &[E], sep: &str) -> String { es.iter().map(et).collect::<Vec<_>>().join(sep) }
fn et(e: &E) -> String {
    match e {
        E::V(k, x) => format!("v({k}, {})", lit(*x)),
        E::Local(x) => format!("x{x}"),
        E::And(es) => format!("({})", csv(es, " and ")), E::Or(es) => format!("({})", csv(es, " or ")),
        E::If(c, a, b) => format!("(if {} then {} else {})", bt(c), et(a), et(b)),
        E::Bin(op, a, b) => format!("({} {op} {})", et(a), et(b)),
        E::At(es, i) => format!("[{}][{i}]", csv(es, ", ")),
        E::Spread(es) => format!("sum(...[...[{}]])", csv(es, ", ")),
        E::Call(f, args) => format!("f{f}({})", csv(args, ", ")),
        E::Dot(f, args) => format!("({} . f{f})", et(&args[0])),
        E::Inc(x, e) => format!("(x{x} = {})", et(e)),
    }
}
fn bt(b: &B) -> String {
    let j = |bs: &Vec<B>, sep| bs.iter().map(bt).collect::<Vec<_>>().join(sep);
    match b {
        B::C(k) => format!("c({k})"), B::Const(b) => b.to_string(), B::Not(b) => format!("(not {})", bt(b)), B::And(bs) => format!("({})", j(bs, " and ")), B::Or(bs) => format!("({})", j(bs, " or ")),
        B::If(c, x, y) => format!("(if {} then {} else {})", bt(c), bt(x), bt(y)),
        B::Chain(es, ops) => { let mut s = format!("({}", et(&es[0])); for (e, op) in es[1..].iter().zip(ops) { s.push_str(&format!(" {op} {}", et(e))) } s.push(')'); s }
    }
}
fn blk(ss: &[S], ind: usize) -> String { format!("{{\n{}{}}}", ss.iter().map(|s| st(s, ind + 1)).collect::<String>(), "  ".repeat(ind)) }
fn function(i: usize, f: &F, ind: usize) -> String { format!("fn f{i}({}) {}", f.params.iter().map(|x| format!("x{x}")).collect::<Vec<_>>().join(", "), blk(&f.body, ind)) }
fn st(s: &S, ind: usize) -> String {
    let els = |e: &Option<Vec<S>>| match e { Some(e) => format!(" else {}", blk(e, ind)), None => String::new() };
    let t = match s {
        S::T(k) => format!("t({k})"), S::Print(e) => format!("print({})", et(e)), S::PrintB(b) => format!("print({})", bt(b)),
        S::Bare(c, a, b) => format!("if {} then {} else {}", bt(c), et(a), et(b)),
        S::Let(x, e) => format!("let x{x} = {}", et(e)), S::Set(x, e) => format!("x{x} = {}", et(e)),
        S::If(cs, e) => { let mut t = String::new(); for (i, (c, b)) in cs.iter().enumerate() { t.push_str(&format!("{} {} {}", if i == 0 { "if" } else { " elif" }, bt(c), blk(b, ind))) } t + &els(e) }
        S::While(c, b, e) => format!("while {} {}{}", bt(c), blk(b, ind), els(e)),
        S::Do(b, c, e) => format!("do {}{}{};", blk(b, ind), match c { Some(c) => format!(" while {}", bt(c)), None => String::new() }, els(e)),
        S::Loop(b) => format!("loop {}", blk(b, ind)),
        S::For(x, es, b, e) => format!("for x{x} in [{}] {}{}", csv(es, ", "), blk(b, ind), els(e)),
        S::For2(x, y, es, b, e) => format!("for x{x}, x{y} in [{}] {}{}", es.iter().map(|(a, b)| format!("({}, {})", et(a), et(b))).collect::<Vec<_>>().join(", "), blk(b, ind), els(e)),
        S::Capture(e) => format!("cs . push(fn() -> {})", et(e)), S::Def(f, fun) => function(*f, fun, ind), S::CallAll => "print([...cs] . map(fn(f) -> f()))".into(),
        S::Break => "break".into(), S::Continue => "continue".into(), S::Ret(e) => format!("return {}", et(e)), S::RetIf(c, e) => format!("if {} {{ return {} }}", bt(c), et(e)),
        S::Assert(c, m) => format!("assert {} : {}", bt(c), et(m)),
    };
    format!("{}{t}\n", "  ".repeat(ind))
}

// ----- generation ----- //
struct G<'a> { r: &'a mut Rng, k: u32, x: u32, next: usize, capture: u64 }
/// Variables and functions (with the number of parameters) in scope
#[derive(Clone, Default)]
struct Sc { v: Vec<u32>, f: Vec<(usize, usize)> }
#[derive(Clone, Copy)]
struct At { looped: bool, func: bool, depth: u32 }
impl G<'_> {
    fn k(&mut self) -> u32 { self.k += 1; self.k }
    fn e(&mut self, d: u32, env: &Sc) -> E {
        if d == 0 { return if !env.v.is_empty() && self.r.chance(3) { E::Local(*self.r.pick(&env.v)) } else { let k = self.k(); E::V(k, self.r.range(-1, 3)) } }
        let n = 2 + self.r.below(3) as usize;
        match self.r.below(12) {
            0 => E::And((0..n).map(|_| self.e(d - 1, env)).collect()), 1 => E::Or((0..n).map(|_| self.e(d - 1, env)).collect()),
            2 => E::If(Box::new(self.b(d - 1, env)), Box::new(self.e(d - 1, env)), Box::new(self.e(d - 1, env))),
            3 | 4 => { let op = *self.r.pick(&['+', '-', '*', '&']); E::Bin(op, Box::new(self.e(d - 1, env)), Box::new(self.e(d - 1, env))) }
            5 => { let i = self.r.below(n as u64) as usize; E::At((0..n).map(|_| self.e(d - 1, env)).collect(), i) }
            6 => E::Spread((0..n).map(|_| self.e(d - 1, env)).collect()),
            7 if !env.v.is_empty() => { let x = *self.r.pick(&env.v); E::Inc(x, Box::new(self.e(d - 1, env))) }
            8 | 9 if !env.f.is_empty() => { let (f, n) = *self.r.pick(&env.f); let args: Vec<E> = (0..n).map(|_| self.e(d - 1, env)).collect(); if args.len() == 1 && self.r.bool() { E::Dot(f, args) } else { E::Call(f, args) } }
            _ => self.e(0, env),
        }
    }
    fn b(&mut self, d: u32, env: &Sc) -> B {
        if d == 0 { let k = self.k(); return if self.r.chance(12) { B::Const(self.r.bool()) } else { B::C(k) } }
        let n = 2 + self.r.below(3) as usize;
        match self.r.below(8) {
            0 => B::Not(Box::new(self.b(d - 1, env))), 1 => B::And((0..n).map(|_| self.b(d - 1, env)).collect()), 2 => B::Or((0..n).map(|_| self.b(d - 1, env)).collect()),
            3 | 4 => { let ops = (1..n).map(|_| *self.r.pick(&["<", "<=", ">", ">=", "==", "!="])).collect(); B::Chain((0..n).map(|_| self.e(d - 1, env)).collect(), ops) }
            5 => B::If(Box::new(self.b(d - 1, env)), Box::new(self.b(d - 1, env)), Box::new(self.b(d - 1, env))),
            _ => self.b(0, env),
        }
    }
    fn block(&mut self, at: At, env: &Sc, first: bool) -> Vec<S> {
        let mut env = env.clone();
        let mut ss = if first { vec![S::T(self.k())] } else { Vec::new() };
        for _ in 0..self.r.below(4) + if first { 0 } else { 1 } { let s = self.s(at, &mut env); ss.push(s) }
        ss
    }
    fn f(&mut self, depth: u32, env: &Sc, recursive: bool) -> (usize, F) {
        let id = self.next; self.next += 1;
        let params: Vec<u32> = (0..self.r.below(3)).map(|_| { self.x += 1; self.x }).collect();
        let mut env = env.clone();
        env.v.extend(&params);
        let at = At { looped: false, func: true, depth };
        let mut body = Vec::new();
        if recursive { body.push(S::T(self.k())); if self.r.chance(3) { env.f.push((id, params.len())) } }
        for _ in 0..1 + self.r.below(3) { let s = self.s(at, &mut env); body.push(s) }
        let e = self.e(1, &env); body.push(S::Ret(e));
        (id, F { params, body })
    }
    fn els(&mut self, at: At, env: &Sc) -> Option<Vec<S>> { if self.r.bool() { Some(self.block(At { depth: at.depth - 1, ..at }, env, false)) } else { None } }
    fn s(&mut self, at: At, env: &mut Sc) -> S {
        let d = 1 + self.r.below(2) as u32;
        let inner = At { depth: at.depth.saturating_sub(1), ..at }; let body = At { looped: true, ..inner };
        let x = { self.x += 1; self.x };
        if self.capture > 0 && !env.v.is_empty() && self.r.chance(self.capture) { let y = *self.r.pick(&env.v); return match self.r.below(4) {
                0 => { let d = self.r.range(1, 9); let k = self.k(); S::Capture(E::Inc(y, Box::new(E::Bin('+', Box::new(E::Local(y)), Box::new(E::V(k, d)))))) }
                1 => S::Capture(self.e(2, env)),
                2 if at.depth > 0 => { let (f, fun) = self.f(at.depth - 1, env, true); env.f.push((f, fun.params.len())); S::Def(f, Rc::new(fun)) }
                _ => S::Capture(E::Local(y)),
            } }
        if self.capture > 0 && !at.func && self.r.chance(20) { return S::CallAll }
        match self.r.below(if at.depth == 0 { 9 } else { 19 }) {
            0 => S::T(self.k()),
            1 => S::Print(self.e(d, env)), 2 => S::PrintB(self.b(d, env)),
            3 => S::Bare(self.b(1, env), self.e(1, env), self.e(1, env)),
            4 | 5 => { let e = self.e(d, env); env.v.push(x); S::Let(x, e) }
            6 if !env.v.is_empty() => { let y = *self.r.pick(&env.v); S::Set(y, self.e(d, env)) }
            7 if at.looped => if self.r.bool() { S::Break } else { S::Continue },
            8 if at.func => if self.r.chance(3) { S::Ret(self.e(d, env)) } else { S::RetIf(self.b(1, env), self.e(1, env)) },
            8 if self.r.chance(6) => S::Assert(B::Or(vec![self.b(1, env), self.b(1, env), B::Not(Box::new(B::Const(false)))]), self.e(0, env)),
            8 if self.r.chance(4) => S::Assert(self.b(1, env), self.e(0, env)),
            9 | 10 | 18 => {
                let cs = (0..1 + self.r.below(3)).map(|_| (self.b(1, env), self.block(inner, env, false))).collect();
                S::If(cs, if self.r.bool() { Some(self.block(inner, env, false)) } else { None })
            }
            11 | 12 => { let first = self.r.bool(); S::While(if first { self.b(1, env) } else { let k = self.k(); B::C(k) }, self.block(body, env, true), self.els(at, env)) }
            13 | 14 => S::Do(self.block(body, env, true), if self.r.chance(3) { None } else { Some(self.b(1, env)) }, self.els(at, env)),
            15 => S::Loop(self.block(body, env, true)),
            16 => { let es = (0..self.r.below(4)).map(|_| self.e(1, env)).collect(); let mut inside = env.clone(); inside.v.push(x); S::For(x, es, self.block(body, &inside, true), self.els(at, env)) }
            17 => { let y = { self.x += 1; self.x }; let es = (0..self.r.below(4)).map(|_| (self.e(0, env), self.e(0, env))).collect(); let mut inside = env.clone(); inside.v.push(x); inside.v.push(y); S::For2(x, y, es, self.block(body, &inside, true), self.els(at, env)) }
            _ => S::T(self.k()),
        }
    }
}

const PRELUDE: &str = "let cs = []\nlet n = 0\nfn t(k) { print(k); n += 1; if n > 60 { exit } }\nfn c(k) { t(k); return bits[n % len(bits)] }\nfn v(k, x) { t(k); return x }\n";

pub fn generate(ctx: &Ctx, sink: Sink) { programs(ctx, sink, 0) }

/// Variables are captured by closures, which are called later, every `capture`th statement
pub fn programs(ctx: &Ctx, sink: Sink, capture: u64) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..if ctx.thorough { 120_000 } else { 6_000 } {
        let depth = 1 + r.below(4) as u32;
        let mut g = G { r: &mut r, k: 0, x: 0, next: 0, capture };
        let mut fs: Vec<(usize, F)> = Vec::new();
        let mut env = Sc::default();
        for _ in 0..g.r.below(3) {
            let (id, f) = g.f(depth.min(2), &env, false);
            env.f.push((id, f.params.len()));
            fs.push((id, f));
        }
        let mut main = Vec::new();
        for _ in 0..1 + g.r.below(5) { let s = g.s(At { looped: false, func: false, depth }, &mut env); main.push(s) }
        // at the top level, in a function or in a block
        let form = g.r.below(3);
        let mut src = String::from(PRELUDE);
        for (i, f) in &fs { src.push_str(&function(*i, f, 0)); src.push('\n') }
        match form {
            0 => for s in &main { src.push_str(&st(s, 0)) },
            1 => src.push_str(&format!("fn main() {}\nmain()\n", blk(&main, 0))),
            _ => src.push_str(&format!("if true {}\n", blk(&main, 0))),
        }
        src.push_str("print([...cs] . map(fn(f) -> f()))\nprint('end')\n");
        for _ in 0..3 {
            let bits: Vec<bool> = (0..3 + r.below(9)).map(|_| r.bool()).collect();
            let mut i = I { out: String::new(), n: 0, bits, fs: &fs, cs: Vec::new() };
            let res = i.block(&main, &mut Env::default());
            let res = res.and_then(|_| i.all());
            if matches!(res, Ok(())) { i.out.push_str("end\n") }
            let src = format!("let bits = {:?}\n{src}", i.bits);
            sink(Case { src, expect: match res { Err(Stop::Assert(v)) => Expect::Err(i.out, format!("Assertion Failed: {v}")), Ok(()) | Err(Stop::Exit) => Expect::Out(i.out), _ => unreachable!() } });
        }
    }
}
