//! C31: names in functions, blocks, modules and structs, which refer to the innermost declaration in scope or to the one declared later
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

type Slot = usize;
#[derive(Clone, Debug)]
enum E { N(i64), Var(Slot), Bin(char, Box<E>, Box<E>), Call(usize, Vec<E>), At(Vec<E>, usize), If(Box<E>, Box<E>, Box<E>), Set(Slot, Box<E>), Via(usize, usize, Vec<E>) }
#[derive(Clone, Debug)]
enum S { Let(Slot, E), Set(Slot, E), Add(Slot, E), Swap(Slot, Slot, E, E), Print(Vec<E>), If(E, Vec<S>, Vec<S>), Block(Vec<S>), Def(usize), Expr(E), For(Slot, Vec<E>, Vec<S>), Raw(&'static str), LetFn(Slot, usize) }
#[derive(Clone, Debug, Default)]
struct F { name: String, params: Vec<Slot>, body: Vec<S>, result: Option<E>, instance: bool }
#[derive(Clone, Debug)]
enum Item { Let(Slot, E), Fn(usize), Module(String, Vec<usize>), Struct(String, Vec<Slot>, Vec<usize>), Noise(Vec<S>) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Var(Slot), Fn(usize, usize), SelfFn(usize, usize), Field(Slot), FnVar(usize, usize) }
type Scope = Vec<(String, Kind)>;

const POOL: [&str; 8] = ["a", "b", "c", "d", "e", "u", "w", "x"];

struct G<'a> { r: &'a mut Rng, names: Vec<String>, fs: Vec<F>, globals: Vec<(String, Kind, u32)>, modules: Vec<(String, Vec<(usize, usize)>)>, calls: u32 }
/// Where an expression is: the scopes of the functions around it, the names of the module, and which global functions may be called
#[derive(Clone, Default)]
struct At { scopes: Vec<Scope>, module: Scope, rank: u32, instance: bool, early: Option<Vec<String>>, depth: u32 }

impl G<'_> {
    fn slot(&mut self, name: &str) -> Slot { self.names.push(name.into()); self.names.len() - 1 }
    /// What a name refers to
    fn find(&self, at: &At, name: &str) -> Option<Kind> {
        for s in at.scopes.iter().rev() { for (n, k) in s.iter().rev() { if n == name { return Some(*k) } } }
        for (n, k) in &at.module { if n == name { return match k { Kind::SelfFn(..) | Kind::Field(_) if !at.instance => None, k => Some(*k) } } }
        if let Some(early) = &at.early { if !early.iter().any(|n| n == name) { return None } }
        self.globals.iter().find(|g| g.0 == name && g.2 < at.rank).map(|g| g.1)
    }
    fn vars(&self, at: &At) -> Vec<Slot> { POOL.iter().filter_map(|n| match self.find(at, n) { Some(Kind::Var(s)) | Some(Kind::Field(s)) => Some(s), _ => None }).collect() }
    fn funs(&self, at: &At) -> Vec<(usize, usize)> { POOL.iter().filter_map(|n| match self.find(at, n) { Some(Kind::Fn(f, n)) | Some(Kind::SelfFn(f, n)) | Some(Kind::FnVar(f, n)) => Some((f, n)), _ => None }).collect() }
    fn e(&mut self, d: u32, at: &At) -> E {
        let vars = self.vars(at);
        if d == 0 || self.r.chance(4) { return if !vars.is_empty() && !self.r.chance(5) { E::Var(*self.r.pick(&vars)) } else { E::N(self.r.range(0, 9)) } }
        let n = 1 + self.r.below(3) as usize;
        match self.r.below(10) {
            0 => { let i = self.r.below(n as u64) as usize; E::At((0..n).map(|_| self.e(d - 1, at)).collect(), i) }
            1 => E::If(Box::new(self.e(d - 1, at)), Box::new(self.e(d - 1, at)), Box::new(self.e(d - 1, at))),
            2 if !vars.is_empty() => E::Set(*self.r.pick(&vars), Box::new(self.e(d - 1, at))),
            3 | 4 if self.calls > 0 => {
                let funs = self.funs(at);
                if funs.is_empty() { return self.e(d - 1, at) }
                self.calls -= 1;
                let (f, n) = *self.r.pick(&funs);
                E::Call(f, (0..n).map(|_| self.e(d - 1, at)).collect())
            }
            _ => { let op = *self.r.pick(&['-', '-', '+', '*']); E::Bin(op, Box::new(self.e(d - 1, at)), Box::new(self.e(d - 1, at))) }
        }
    }
    fn block(&mut self, at: &At) -> Vec<S> {
        let mut at = at.clone(); at.scopes.push(Vec::new());
        (0..1 + self.r.below(3)).map(|_| self.s(&mut at)).collect()
    }
    fn free(&mut self, at: &At) -> Option<&'static str> {
        let n = *self.r.pick(&POOL);
        if at.scopes.last().unwrap().iter().any(|(m, _)| m == n) { None } else { Some(n) }
    }
    fn s(&mut self, at: &mut At) -> S {
        let d = 1 + self.r.below(2) as u32;
        let vars = self.vars(at);
        let mut inner = at.clone(); inner.depth = at.depth.saturating_sub(1);
        match self.r.below(if at.depth == 0 { 7 } else { 13 }) {
            0 | 1 => match self.free(at) { Some(n) => { let e = self.e(d, at); let s = self.slot(n); at.scopes.last_mut().unwrap().push((n.into(), Kind::Var(s))); S::Let(s, e) } None => S::Expr(self.e(d, at)) },
            2 if !vars.is_empty() => S::Set(*self.r.pick(&vars), self.e(d, at)),
            3 if !vars.is_empty() => S::Add(*self.r.pick(&vars), self.e(1, at)),
            4 if vars.len() > 1 => { let (x, y) = (*self.r.pick(&vars), *self.r.pick(&vars)); if x == y { S::Expr(self.e(d, at)) } else { S::Swap(x, y, self.e(1, at), self.e(1, at)) } }
            7 | 8 => S::If(self.e(1, at), self.block(&inner), self.block(&inner)),
            9 => S::Block(self.block(&inner)),
            10 | 11 => match self.free(at) {
                Some(n) if self.r.bool() => { let f = self.f(n, &inner, false); let k = self.fs[f].params.len(); at.scopes.last_mut().unwrap().push((n.into(), Kind::Fn(f, k))); S::Def(f) }
                Some(n) => { let f = self.f("", &inner, false); let k = self.fs[f].params.len(); self.fs[f].name = n.into(); let s = self.slot(n); at.scopes.last_mut().unwrap().push((n.into(), Kind::FnVar(f, k))); S::LetFn(s, f) }
                None => S::Expr(self.e(d, at))
            },
            12 => { let es = (0..self.r.below(3)).map(|_| self.e(1, at)).collect(); let n = *self.r.pick(&POOL); let x = self.slot(n); inner.scopes.push(vec![(n.into(), Kind::Var(x))]); S::For(x, es, self.block(&inner)) }
            _ => S::Print((0..1 + self.r.below(4)).map(|_| self.e(d, at)).collect()),
        }
    }
    /// A function with the scopes of `at` around it
    fn f(&mut self, name: &str, at: &At, instance: bool) -> usize {
        let id = self.fs.len();
        self.fs.push(F { name: name.into(), instance, ..F::default() });
        let mut at = at.clone();
        if instance { at.instance = true }
        let mut scope = Scope::new();
        // the function itself is not called: no recursion
        if !name.is_empty() && !at.scopes.is_empty() { at.scopes.push(vec![(name.into(), Kind::Fn(usize::MAX, 0))]) }
        for _ in 0..self.r.below(3) { let n = *self.r.pick(&POOL); if scope.iter().all(|s| s.0 != n) { let s = self.slot(n); scope.push((n.into(), Kind::Var(s))); self.fs[id].params.push(s) } }
        at.scopes.push(scope); at.scopes.push(Vec::new());
        let mut body = Vec::new();
        for _ in 0..self.r.below(5) { let s = self.s(&mut at); body.push(s) }
        let e = self.e(2, &at);
        self.fs[id].body = body; self.fs[id].result = Some(e);
        id
    }
}

struct I<'a> { fs: &'a [F], vals: Vec<i64>, out: String, fuel: i64 }
impl I<'_> {
    fn e(&mut self, e: &E) -> Option<i64> {
        self.fuel -= 1; if self.fuel < 0 { return None }
        Some(match e {
            E::N(n) => *n, E::Var(s) => self.vals[*s],
            E::Bin(op, a, b) => { let (x, y) = (self.e(a)? as i128, self.e(b)? as i128); wrap(match op { '+' => x + y, '-' => x - y, _ => x.wrapping_mul(y) }) }
            E::Call(f, args) | E::Via(_, f, args) => {
                let mut vs = Vec::new(); for a in args { vs.push(self.e(a)?) }
                let f = &self.fs[*f];
                for (p, v) in f.params.iter().zip(vs) { self.vals[*p] = v }
                self.block(&f.body)?; self.e(f.result.as_ref().unwrap())?
            }
            E::At(es, i) => { let mut vs = Vec::new(); for e in es { vs.push(self.e(e)?) } vs[*i] }
            E::If(c, a, b) => if self.e(c)? != 0 { self.e(a)? } else { self.e(b)? },
            E::Set(s, e) => { let v = self.e(e)?; self.vals[*s] = v; v }
        })
    }
    fn block(&mut self, ss: &[S]) -> Option<()> { for s in ss { self.s(s)? } Some(()) }
    fn s(&mut self, s: &S) -> Option<()> {
        match s {
            S::Let(s, e) | S::Set(s, e) => { let v = self.e(e)?; self.vals[*s] = v }
            S::Add(s, e) => { let x = self.vals[*s]; let v = self.e(e)?; self.vals[*s] = wrap(x as i128 + v as i128) }
            S::Swap(x, y, a, b) => { let (p, q) = (self.e(a)?, self.e(b)?); self.vals[*x] = p; self.vals[*y] = q }
            S::Print(es) => { let mut vs = Vec::new(); for e in es { vs.push(self.e(e)?.to_string()) } self.out.push_str(&format!("[{}]\n", vs.join(", "))) }
            S::If(c, a, b) => if self.e(c)? != 0 { self.block(a)? } else { self.block(b)? },
            S::Block(b) => self.block(b)?,
            S::Expr(e) => { self.e(e)?; }
            S::For(x, es, b) => { let mut vs = Vec::new(); for e in es { vs.push(self.e(e)?) } for v in vs { self.vals[*x] = v; self.block(b)? } }
            S::Def(_) | S::LetFn(..) | S::Raw(_) => {}
        }
        Some(())
    }
}

struct T<'a> { fs: &'a [F], names: &'a [String] }
impl T<'_> {
    fn csv(&self, es: &[E]) -> String { es.iter().map(|e| self.e(e)).collect::<Vec<_>>().join(", ") }
    fn e(&self, e: &E) -> String {
        match e {
            E::N(n) => n.to_string(), E::Var(s) => self.names[*s].clone(), E::Bin(op, a, b) => format!("({} {op} {})", self.e(a), self.e(b)),
            E::Call(f, args) => format!("{}({})", self.fs[*f].name, self.csv(args)), E::At(es, i) => format!("[{}][{i}]", self.csv(es)),
            E::If(c, a, b) => format!("(if {} != 0 then {} else {})", self.e(c), self.e(a), self.e(b)), E::Set(s, e) => format!("({} = {})", self.names[*s], self.e(e)),
            E::Via(m, f, args) => format!("m{m}->{}({})", self.fs[*f].name, self.csv(args)),
        }
    }
    fn blk(&self, ss: &[S], ind: usize) -> String { format!("{{\n{}{}}}", ss.iter().map(|s| self.s(s, ind + 1)).collect::<String>(), "  ".repeat(ind)) }
    fn f(&self, id: usize, ind: usize) -> String {
        let f = &self.fs[id];
        format!("{} {}", self.head(f, &f.name), self.body(f, ind))
    }
    fn head(&self, f: &F, name: &str) -> String { let mut ps: Vec<String> = f.params.iter().map(|p| self.names[*p].clone()).collect(); if f.instance { ps.insert(0, "self".into()) } format!("fn {name}({})", ps.join(", ")) }
    fn body(&self, f: &F, ind: usize) -> String { let p = "  ".repeat(ind + 1); format!("{{\n{}{p}return {}\n{}}}", f.body.iter().map(|s| self.s(s, ind + 1)).collect::<String>(), self.e(f.result.as_ref().unwrap()), "  ".repeat(ind)) }
    fn s(&self, s: &S, ind: usize) -> String {
        let n = |s: &Slot| self.names[*s].clone();
        let t = match s {
            S::Let(x, e) => format!("let {} = {}", n(x), self.e(e)), S::Set(x, e) => format!("{} = {}", n(x), self.e(e)), S::Add(x, e) => format!("{} += {}", n(x), self.e(e)),
            S::Swap(x, y, a, b) => format!(";{}, {} = ({}, {})", n(x), n(y), self.e(a), self.e(b)), S::Print(es) => format!("print([{}])", self.csv(es)),
            S::If(c, a, b) => format!("if {} != 0 {} else {}", self.e(c), self.blk(a, ind), self.blk(b, ind)), S::Block(b) => format!("if true {}", self.blk(b, ind)),
            S::Def(f) => self.f(*f, ind), S::LetFn(_, f) => { let f = &self.fs[*f]; format!("let {} = {} {}", f.name, self.head(f, ""), self.body(f, ind)) }
            S::Expr(e) => format!("0 + {}", self.e(e)), S::For(x, es, b) => format!("for {} in [{}] {}", n(x), self.csv(es), self.blk(b, ind)), S::Raw(t) => t.to_string(),
        };
        format!("{}{t};\n", "  ".repeat(ind))
    }
    fn item(&self, i: &Item) -> String {
        match i {
            Item::Let(x, e) => format!("let {} = {};\n", self.names[*x], self.e(e)), Item::Fn(f) => self.f(*f, 0) + "\n",
            Item::Module(n, fs) => format!("module {n} {{\n{}}}\n", fs.iter().map(|f| format!("  {}\n", self.f(*f, 1))).collect::<String>()),
            Item::Struct(n, xs, fs) => format!("struct {n}({}) {{\n{}}}\n", xs.iter().map(|x| self.names[*x].clone()).collect::<Vec<_>>().join(", "), fs.iter().map(|f| format!("  {}\n", self.f(*f, 1))).collect::<String>()),
            Item::Noise(b) => format!("if true {}\n", self.blk(b, 0)),
        }
    }
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..if ctx.thorough { 100_000 } else { 8_000 } {
        let mut g = G { r: &mut r, names: Vec::new(), fs: Vec::new(), globals: Vec::new(), modules: Vec::new(), calls: 12 };
        // the global variables and functions, of which only those with a lower rank are called
        let mut pool = POOL.to_vec(); g.r.shuffle(&mut pool);
        let n = 2 + g.r.below(6) as usize;
        let mut order: Vec<usize> = (0..n).collect(); g.r.shuffle(&mut order);
        let mut items: Vec<Option<Item>> = vec![None; n];
        let mut inits: Vec<(usize, Slot)> = Vec::new();
        for (i, name) in pool.iter().take(n).enumerate() { if g.r.chance(2) { let s = g.slot(name); inits.push((i, s)); g.globals.push((name.to_string(), Kind::Var(s), 0)) } }
        let mut calls: Vec<E> = Vec::new();
        let mut instances: Vec<(String, Vec<i64>)> = Vec::new();
        let mut via = 0;
        let mut fields: Vec<(Slot, i64)> = Vec::new();
        for (rank, &i) in order.iter().enumerate() {
            if inits.iter().any(|x| x.0 == i) { continue }
            let at = At { rank: rank as u32 + 1, depth: 2, ..At::default() };
            if g.r.chance(3) {
                // a module or struct, with methods named as anything else
                let is_struct = g.r.bool();
                let mut names = POOL.to_vec(); g.r.shuffle(&mut names);
                let mut at = at;
                let k = 1 + g.r.below(3) as usize;
                let xs: Vec<Slot> = if is_struct { (0..1 + g.r.below(2) as usize).map(|j| g.slot(names[k + j])).collect() } else { Vec::new() };
                for x in &xs { at.module.push((g.names[*x].clone(), Kind::Field(*x))) }
                // the methods are called by those before them or after them, by their rank
                let mut ranks: Vec<usize> = (0..k).collect(); g.r.shuffle(&mut ranks);
                let mut fs = vec![0; k];
                let all = names[..k].to_vec();
                for &j in &ranks {
                    let mut here = at.clone();
                    let instance = is_struct && g.r.bool();
                    // a method which is not defined yet is in scope, but not called
                    for n in &all { if here.module.iter().all(|m| m.0 != *n) { here.module.push((n.to_string(), Kind::Fn(usize::MAX, 0))) } }
                    let f = g.f(all[j], &here, instance);
                    let n = g.fs[f].params.len();
                    at.module.push((all[j].into(), if instance { Kind::SelfFn(f, n) } else { Kind::Fn(f, n) }));
                    fs[j] = f;
                }
                for &f in &fs { let args = g.fs[f].params.iter().map(|_| E::N(f as i64)).collect(); let inst = g.fs[f].instance; calls.push(E::Via(if inst { 1000 + via } else { via }, f, args)) }
                let name = format!("m{via}");
                if is_struct { let vs: Vec<i64> = xs.iter().map(|_| g.r.range(1, 9)).collect(); for (x, v) in xs.iter().zip(&vs) { fields.push((*x, *v)) } instances.push((format!("m{}", 1000 + via), vs.clone())); items[i] = Some(Item::Struct(name, xs, fs)) } else { items[i] = Some(Item::Module(name, fs)) }
                via += 1;
            } else {
                let f = g.f(pool[i], &at, false);
                let n = g.fs[f].params.len();
                g.globals.push((pool[i].into(), Kind::Fn(f, n), rank as u32 + 1));
                items[i] = Some(Item::Fn(f));
                calls.push(E::Call(f, (0..n).map(|k| E::N(k as i64)).collect()));
            }
        }
        let mut early: Vec<String> = Vec::new();
        let mut init: Vec<S> = Vec::new();
        for (i, s) in &inits {
            let at = At { early: Some(early.clone()), rank: 1, ..At::default() };
            let e = g.e(1, &at);
            early.push(g.names[*s].clone());
            init.push(S::Let(*s, e.clone()));
            items[*i] = Some(Item::Let(*s, e));
        }
        let mut items: Vec<Item> = items.into_iter().map(|i| i.unwrap()).collect();
        // blocks at the top level, which declare the same names
        for _ in 0..g.r.below(3) {
            let mut b = Vec::new();
            for _ in 0..1 + g.r.below(2) { let n = *g.r.pick(&POOL); if b.iter().all(|s| !matches!(s, S::Let(x, _) if g.names[*x] == n)) { let s = g.slot(n); b.push(S::Let(s, E::N(77))) } }
            let at = g.r.below(items.len() as u64 + 1) as usize;
            items.insert(at, Item::Noise(b));
        }
        // at the end, a block with everything in scope
        let mut at = At { scopes: vec![Vec::new()], rank: 100, depth: 2, ..At::default() };
        let last: Vec<S> = (0..g.r.below(4)).map(|_| g.s(&mut at)).collect();
        let (names, fs) = (g.names.clone(), g.fs.clone());
        if fs.iter().any(|f| has_max(&f.body, f.result.as_ref())) || has_max(&last, None) { continue }
        let t = T { fs: &fs, names: &names };
        let mut src: String = items.iter().map(|i| t.item(i)).collect();
        for (n, vs) in &instances { src.push_str(&format!("let {n} = m{}({});\n", n[1..].parse::<usize>().unwrap() - 1000, vs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "))) }
        // the same name may be used for a field and a global: the fields are variables of their own
        for c in &calls { src.push_str(&format!("print({});\n", t.e(c))) }
        src.push_str(&t.s(&S::Block(last.clone()), 0));
        let mut i = I { fs: &fs, vals: vec![0; names.len()], out: String::new(), fuel: 4000 };
        for (x, v) in &fields { i.vals[*x] = *v }
        let res = (|| { i.block(&init)?; for c in &calls { let v = i.e(c)?; i.out.push_str(&format!("{v}\n")) } i.block(&last) })();
        if res.is_none() { continue }
        sink(Case { src: src.clone(), expect: Expect::Out(i.out) });
        // the same with a name which is not declared (in scope), or declared twice
        let (bad, msg) = match r.below(6) {
            0 => ("fn z1() -> z0", "Undeclared identifier: 'z0'"), 1 => ("fn z1() { if true { let z0 = 1 }; z0 }", "Undeclared identifier: 'z0'"),
            2 => ("fn z1() { fn z2() -> z0; let z0 = 3; z2() }", "Undeclared identifier: 'z0'"), 3 => ("if true { let z0 = 1; let z0 = 2 }", "Duplicate definition of variable 'z0'"),
            4 => ("if true { let z0 = 1; fn z0() -> 2 }", "Duplicate definition of variable 'z0'"), _ => ("module z1 { fn z0() { 1 } }\nfn z2() -> z0", "Undeclared identifier: 'z0'"),
        };
        let k = r.below(items.len() as u64 + 1) as usize;
        let head: String = items[..k].iter().map(|i| t.item(i)).collect();
        sink(Case { src: format!("{head}{bad}\n{}", &src[head.len()..]), expect: Expect::Fail(msg.into()) });
    }
}

/// Whether something calls a function which is not defined yet
fn has_max(ss: &[S], e: Option<&E>) -> bool { format!("{ss:?}{e:?}").contains("Call(18446744073709551615") }
