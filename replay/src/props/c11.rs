//! C11: shared values against a model: random histories of aliasing, mutation through any alias, capture by closures and
//! partial functions, iteration, and dropping of values of every type. The output shows what is shared, released memory
//! is overwritten, and everything must be released in the end. Graphs are acyclic: cycles are not released, by design.
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum V { Leaf(usize), Obj(usize) }
#[derive(Clone, Debug)]
enum O { List(Vec<V>), Vector(Vec<V>), Dict(Vec<(&'static str, V)>), Struct([V; 2]), Thunk(V), Push(V), Gen(V) }
const LEAVES: [(&str, &str); 9] = [("nil", "nil"), ("7", "7"), ("'ab'", "'ab'"), ("'longer than inline'", "'longer than inline'"), ("(1 + 2i)", "1 + 2i"), ("true", "true"), ("range(0, 4, 2)", "range(0, 4, 2)"), ("('long' + 'er' + ' and ' + 'longer')", "'longer and longer'"), ("(-5)", "-5")];
const KEYS: [&str; 3] = ["'k'", "'a longer key'", "2"];
const VARS: usize = 5;

struct M { objs: Vec<O>, vars: Vec<V>, src: String, out: String }
impl M {
    fn show(&self, v: V) -> String {
        match v {
            V::Leaf(i) => LEAVES[i].1.into(),
            V::Obj(o) => {
                let seq = |v: &Vec<V>| v.iter().map(|u| self.show(*u)).collect::<Vec<_>>().join(", ");
                match &self.objs[o] {
                    O::List(v) => format!("[{}]", seq(v)),
                    O::Vector(v) => format!("({})", seq(v)),
                    O::Dict(v) => format!("{{{}}}", v.iter().map(|(k, u)| format!("{}: {}", k, self.show(*u))).collect::<Vec<_>>().join(", ")),
                    O::Struct([a, b]) => format!("S(a={}, b={})", self.show(*a), self.show(*b)),
                    O::Thunk(_) | O::Push(_) | O::Gen(_) => "?".into(),
                }
            }
        }
    }
    fn parts(&self, o: usize) -> Vec<V> {
        match &self.objs[o] {
            O::List(v) | O::Vector(v) => v.clone(), O::Dict(v) => v.iter().map(|u| u.1).collect(), O::Struct(v) => v.to_vec(),
            O::Thunk(v) | O::Push(v) | O::Gen(v) => vec![*v],
        }
    }
    fn reaches(&self, v: V, o: usize) -> bool { match v { V::Leaf(_) => false, V::Obj(p) => p == o || self.parts(p).into_iter().any(|u| self.reaches(u, o)) } }
    fn size(&self, v: V) -> usize { match v { V::Leaf(_) => 1, V::Obj(p) => 1 + self.parts(p).into_iter().map(|u| self.size(u)).sum::<usize>() } }
    fn function(&self, v: V) -> bool { matches!(v, V::Obj(o) if matches!(self.objs[o], O::Thunk(_) | O::Push(_) | O::Gen(_))) }
    fn new(&mut self, o: O) -> V { self.objs.push(o); V::Obj(self.objs.len() - 1) }
    /// An operand: the text of an expression and its value
    fn operand(&self, r: &mut Rng) -> (String, V) {
        loop {
            if r.chance(3) { let i = r.below(LEAVES.len() as u64) as usize; return (LEAVES[i].0.into(), V::Leaf(i)) }
            let i = r.below(VARS as u64) as usize;
            if !self.function(self.vars[i]) { return (format!("v{i}"), self.vars[i]) }
        }
    }
    fn line(&mut self, s: String) { self.src.push_str(&s); self.src.push_str(";\n") }
    fn print(&mut self, e: String, v: V) { let s = self.show(v); self.line(format!("print(repr({e}))")); self.out.push_str(&s); self.out.push('\n') }
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    overlapping(sink);
    histories(ctx, sink)
}

/// Functions which call back, and change what they work on in the middle of it: refused or done, but never a crash or a
/// read of released memory. Recursive keys are refused.
fn overlapping(sink: Sink) {
    let makes = ["[5, 'a long element of it', [1], 3]", "vector([5, 'a long element of it', [1], 3])", "{5, 'a long element of it', (1, 2), 3}", "{5: 1, 'a long element of it': [2], 3: 4}", "heap([5, 4, 3])", "'some text in it'", "S([1], 'a long element of it')", "default(fn() { change(); 'a new long value' }, {1: 'a long element of it'})"];
    let changes = ["x . push('another long element ' + str(n))", "x . pop", "x . clear", "x[0] = 'another long element ' + str(n)", "x[n] = [n]", "x . remove(0)", "x . insert(0, 'another long element ' + str(n))", "x->a = [n]", "x->b = nil", "x . sort", "x . union([n])", "x . difference(x)", "x = [n]", "y . push(x)", "x . push(y)"];
    let calls = ["map", "filter", "flat_map", "any", "all", "find", "rfind", "index_of", "rindex_of", "max_by", "min_by", "sort_by", "sort_by_2", "reduce", "group_by", "for", "eq", "memo", "fields", "index", "pattern", "repr", "min", "sum", "zip", "concat"];
    for m in makes { for c in changes { for f in calls {
        let call = match f {
            "for" => "for u in x { change() }".to_string(),
            "eq" => "print(x == x, [x] == [x], { change(); x } == x)".into(),
            "memo" => "let f; f = memoize(fn(u) { change(); u }); print(f(1), f(x), f(1))".into(),
            "fields" => "if x is S { x->a = { change(); x->a }; print(x->a, x->b) }".into(),
            "index" => "x[0] = { change(); x[0] }; print(x[1], x[0])".into(),
            "pattern" => "let a, *b = { change(); x }; print(a, b)".into(),
            "repr" => "print(repr([x, { change(); x }]))".into(),
            "min" => "print(min(x), max(x))".into(),
            "sum" => "print(reduce(+, [[], [{ change(); x }], [x]] . map(fn(u) -> len(u))))".into(),
            "zip" => "print(zip(x, { change(); x }))".into(),
            "concat" => "print(concat([x, { change(); x }]))".into(),
            "sort_by" | "max_by" | "min_by" => format!("print(x . {f}(fn(u) {{ change(); 1 }}))"),
            "sort_by_2" => "print(x . sort_by(fn(u, v) { change(); 1 }))".into(),
            "reduce" => "print(x . reduce(fn(u, v) { change(); u }))".into(),
            "group_by" => "print(x . group_by(fn(u) { change(); 1 }))".into(),
            f => format!("print(x . {f}(fn(u) {{ change(); true }}))"),
        };
        let call = call.replace("{ change(); x[0] }", "(fn() { change(); x[0] })()").replace("{ change(); x }", "(fn() { change(); x })()").replace("{ change(); x->a }", "(fn() { change(); x->a })()");
        sink(Case { src: format!("struct S(a, b)\nlet x, y, n\ny = []\nn = 0\nfn change() {{\nif n < 5 {{ n += 1\n{c}\n}}\n}}\nx = {m}\n{call}\nprint(n, len(y))"), expect: Expect::Same });
    } } }
    let refused = "Cannot create recursive hash-based collection";
    for key in ["x", "[x]", "vector([1, x])", "(1, [x])", "{x: 1}", "{x}", "S(1, [x])"] {
        for (make, put) in [("set()", "x . push(K)"), ("{1}", "x . push(K)"), ("{1, 2}", "x . union([K])"), ("{1: 2}", "x[K] = 3"), ("dict()", "x[K] = 3"), ("{1: 2}", "x . insert(K, 3)")] {
            sink(Case { src: format!("struct S(a, b)\nlet x = {make}, k\nk = {key}\nprint(len(x))\n{}", put.replace('K', "k")), expect: Expect::Err(format!("{}\n", make.matches(|c: char| c == '1' || c == '2' && !make.contains(':')).count()), refused.into()) });
        }
    }
}

fn histories(ctx: &Ctx, sink: Sink) {
    let mut r = Rng::new(ctx.seed ^ 0x11);
    for n in 0..if ctx.thorough { 300_000 } else { 30_000 } {
        let r = &mut r;
        let mut m = M { objs: vec![], vars: vec![V::Leaf(0); VARS], src: String::new(), out: String::new() };
        let steps = 4 + r.below(if n % 8 == 0 { 60 } else { 16 }) as usize;
        for _ in 0..steps { step(&mut m, r) }
        for i in 0..VARS { if !m.function(m.vars[i]) { let v = m.vars[i]; m.print(format!("v{i}"), v) } }
        // Shared variables as globals, as locals, or as variables which closures capture
        let decl = "let v0, v1, v2, v3, v4\n";
        let (body, top) = (m.src, "struct S(a, b)\n");
        let src = match r.below(4) {
            0 => format!("{top}{decl}{body}"),
            1 => format!("{top}fn main() {{\n{decl}{body}}}\nmain()"),
            2 => format!("{top}fn main() {{\n{decl}(fn() {{\n{body}}})()\n}}\nmain()"),
            _ => format!("{top}if true {{\n{decl}{body}}}\n"),
        };
        sink(Case { src, expect: Expect::Freed(m.out) });
    }
}

fn step(m: &mut M, r: &mut Rng) {
    let i = r.below(VARS as u64) as usize;
    let me = m.vars[i];
    let obj = if let V::Obj(o) = me { Some((o, m.objs[o].clone())) } else { None };
    let small = |m: &M, v: V| m.size(v) < 40;
    match r.below(14) {
        // New objects
        0 => { let xs: Vec<(String, V)> = (0..r.below(4)).map(|_| m.operand(r)).filter(|x| small(m, x.1)).collect(); m.line(format!("v{i} = [{}]", xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", "))); m.vars[i] = m.new(O::List(xs.iter().map(|x| x.1).collect())) }
        1 => { let xs: Vec<(String, V)> = (0..1 + r.below(3)).map(|_| m.operand(r)).filter(|x| small(m, x.1)).collect(); if xs.is_empty() { return } m.line(format!("v{i} = vector([{}])", xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", "))); m.vars[i] = m.new(O::Vector(xs.iter().map(|x| x.1).collect())) }
        2 => {
            let k = 1 + r.below(3) as usize;
            let xs: Vec<(String, V)> = (0..k).map(|_| m.operand(r)).collect();
            if xs.iter().any(|x| !small(m, x.1)) { return }
            m.line(format!("v{i} = {{{}}}", xs.iter().zip(KEYS).map(|(x, k)| format!("{}: {}", k, x.0)).collect::<Vec<_>>().join(", ")));
            m.vars[i] = m.new(O::Dict(xs.iter().zip(KEYS).map(|(x, k)| (k, x.1)).collect()))
        }
        3 => { let (a, b) = (m.operand(r), m.operand(r)); if !small(m, a.1) || !small(m, b.1) { return } m.line(format!("v{i} = S({}, {})", a.0, b.0)); m.vars[i] = m.new(O::Struct([a.1, b.1])) }
        4 => { let a = m.operand(r); m.line(format!("v{i} = (fn(x) -> (fn() -> x))({})", a.0)); m.vars[i] = m.new(O::Thunk(a.1)) }
        5 => { let a = m.operand(r); m.line(format!("v{i} = push({})", a.0)); m.vars[i] = m.new(O::Push(a.1)) }
        6 => { let a = m.operand(r); m.line(format!("v{i} = (fn(y, n) -> [y, n])({})", a.0)); m.vars[i] = m.new(O::Gen(a.1)) }
        // Aliases
        7 => { let j = r.below(VARS as u64) as usize; m.line(format!("v{i} = v{j}")); m.vars[i] = m.vars[j] }
        8 => { let j = r.below(VARS as u64) as usize; if i == j { return } m.line(format!("v{i}, v{j} = (v{j}, v{i})")); m.vars.swap(i, j) }
        // Mutation and reading of what is there
        _ => {
            let Some((o, it)) = obj else { let a = m.operand(r); m.line(format!("v{i} = {}", a.0)); m.vars[i] = a.1; return };
            let x = m.operand(r);
            let fits = !m.reaches(x.1, o) && small(m, x.1) && small(m, me);
            let j = r.below(VARS as u64) as usize;
            match it {
                O::List(mut v) => {
                    match r.below(9) {
                        0 | 1 if fits => { m.line(format!("v{i} . push({})", x.0)); v.push(x.1) }
                        2 if fits => { m.line(format!("v{i} . push_front({})", x.0)); v.insert(0, x.1) }
                        3 if !v.is_empty() => { m.line(format!("v{j} = v{i} . pop")); let u = v.pop().unwrap(); m.objs[o] = O::List(v); m.vars[j] = u; return }
                        4 if !v.is_empty() => { m.line(format!("v{j} = v{i} . pop_front")); let u = v.remove(0); m.objs[o] = O::List(v); m.vars[j] = u; return }
                        5 if fits && !v.is_empty() => { let k = r.below(v.len() as u64) as usize; m.line(format!("v{i}[{k}] = {}", x.0)); v[k] = x.1 }
                        6 if !v.is_empty() => { let k = r.below(v.len() as u64) as usize; m.line(format!("v{j} = v{i}[{k}]")); m.vars[j] = v[k] }
                        7 => { m.line(format!("v{j} = []")); m.line(format!("for u in v{i} {{ v{j} . push(u) }}")); if i == j { v.clear(); m.objs.push(O::List(v.clone())); m.vars[i] = V::Obj(m.objs.len() - 1); return } m.vars[j] = m.new(O::List(v.clone())) }
                        8 => { m.line(format!("v{i} . clear")); v.clear() }
                        _ => { if !v.is_empty() { m.line(format!("v{j} = [...v{i}, v{i}[0]]")); let mut w = v.clone(); w.push(v[0]); let w = m.new(O::List(w)); m.vars[j] = w } }
                    }
                    m.objs[o] = O::List(v)
                }
                O::Vector(mut v) => {
                    let k = r.below(v.len() as u64) as usize;
                    match r.below(3) {
                        0 if fits => { m.line(format!("v{i}[{k}] = {}", x.0)); v[k] = x.1; m.objs[o] = O::Vector(v) }
                        1 => { m.line(format!("v{j} = v{i}[{k}]")); m.vars[j] = v[k] }
                        _ => m.print(format!("v{i}"), me),
                    }
                }
                O::Dict(mut v) => {
                    let k = *r.pick(&KEYS);
                    match r.below(4) {
                        0 if fits => { m.line(format!("v{i}[{k}] = {}", x.0)); match v.iter_mut().find(|u| u.0 == k) { Some(u) => u.1 = x.1, None => v.push((k, x.1)) } m.objs[o] = O::Dict(v) }
                        1 if v.iter().any(|u| u.0 == k) => { m.line(format!("v{j} = v{i}[{k}]")); m.vars[j] = v.iter().find(|u| u.0 == k).unwrap().1 }
                        2 => { m.line(format!("v{i} . remove({k})")); v.retain(|u| u.0 != k); m.objs[o] = O::Dict(v) }
                        _ => m.print(format!("v{i}"), me),
                    }
                }
                O::Struct(mut v) => {
                    let (k, f) = if r.chance(2) { (0, "a") } else { (1, "b") };
                    match r.below(4) {
                        0 if fits => { m.line(format!("v{i}->{f} = {}", x.0)); v[k] = x.1; m.objs[o] = O::Struct(v) }
                        1 => { m.line(format!("v{j} = v{i}->{f}")); m.vars[j] = v[k] }
                        2 => { m.line(format!("v{j} = (->{f})(v{i})")); m.vars[j] = v[k] }
                        _ => m.print(format!("v{i}"), me),
                    }
                }
                O::Thunk(v) => if r.chance(2) { m.line(format!("v{j} = v{i}()")); m.vars[j] = v } else { m.print(format!("v{i}()"), v) },
                O::Push(v) => {
                    // Appends what the partial function holds
                    if let V::Obj(p) = m.vars[j] { if let O::List(mut w) = m.objs[p].clone() { if !m.reaches(v, p) && small(m, v) && small(m, m.vars[j]) { m.line(format!("v{j} . v{i}")); w.push(v); m.objs[p] = O::List(w) } } }
                }
                O::Gen(v) => { if !small(m, v) || !small(m, x.1) { return } m.line(format!("v{j} = v{i}({})", x.0)); let w = m.new(O::List(vec![v, x.1])); m.vars[j] = w }
            }
        }
    }
}
