//! C30: variables captured by closures, in the random nestings of control structures of C10, and in functions which
//! return closures over their variables, with values of every type
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

/// What a closure does with its argument `x` and the variables
#[derive(Clone, Debug)]
enum Op { Put(usize), Cur(usize), Swap(usize), Rotate(usize, usize), Both(usize, usize), Value(usize), Keep(usize, &'static str) }
impl Op {
    fn body(&self) -> String {
        match self {
            Op::Put(i) => format!("{{ v{i} = x }}"),
            Op::Cur(i) => format!("-> v{i}"),
            Op::Swap(i) => format!("{{ let old = v{i}; v{i} = x; return old }}"),
            Op::Rotate(i, j) => format!("{{ v{i}, v{j} = (v{j}, x); return [v{i}, v{j}] }}"),
            Op::Both(i, j) => format!("{{ v{i} = v{j} = x; return [v{j}, v{i}] }}"),
            Op::Value(i) => format!("-> [v{i}, v{i} = x, v{i}]"),
            Op::Keep(i, c) => format!("{{ v{i} = {c}; return [x, v{i}] }}"),
        }
    }
    fn run(&self, x: &str, v: &mut [String]) -> String {
        match self {
            Op::Put(i) => { v[*i] = x.into(); x.into() } // the value of the last expression
            Op::Cur(i) => v[*i].clone(),
            Op::Swap(i) => std::mem::replace(&mut v[*i], x.into()),
            Op::Rotate(i, j) => { v[*i] = std::mem::replace(&mut v[*j], x.into()); format!("[{}, {}]", v[*i], v[*j]) }
            Op::Both(i, j) => { v[*i] = x.into(); v[*j] = x.into(); format!("[{x}, {x}]") }
            Op::Value(i) => { let old = std::mem::replace(&mut v[*i], x.into()); format!("[{old}, {x}, {x}]") }
            Op::Keep(i, c) => { v[*i] = c.to_string(); format!("[{x}, {c}]") }
        }
    }
}

const VALUES: [&str; 16] = ["nil", "true", "false", "0", "1", "-7", "1 + 2i", "''", "'a'", "'longer than seven'", "[]", "[1, nil]", "2 - 3i", "(1, 2)", "{3}", "range(0, 4, 1)"];
enum Item { Set(usize, &'static str), Call(usize, &'static str), Show(usize), Noise }

pub fn generate(ctx: &Ctx, sink: Sink) {
    closures(ctx, sink);
    super::c10::programs(ctx, sink, 4)
}

fn closures(ctx: &Ctx, sink: Sink) {
    let mut r = Rng::new(ctx.seed ^ 0x30);
    for _ in 0..if ctx.thorough { 20_000 } else { 2_500 } {
        let r = &mut r;
        let val = |r: &mut Rng| *r.pick(&VALUES);
        let params = r.below(3) as usize;
        // The levels of functions, each with its own variables; the closures are in the innermost they need, or deeper
        let levels = 1 + r.below(3) as usize;
        let mut vars: Vec<(usize, Option<&'static str>)> = vec![(0, None); params];
        for l in 0..levels { for _ in 0..r.below(3) + (l == 0 && params == 0) as u64 { vars.push((l, Some(val(r)))) } }
        let ops: Vec<(usize, Op)> = (0..2 + r.below(4)).map(|_| {
            let level = r.below(levels as u64) as usize;
            let seen: Vec<usize> = (0..vars.len()).filter(|i| vars[*i].0 <= level).collect();
            let i = *r.pick(&seen); let j = *r.pick(&seen);
            (level, match r.below(8) { 0 | 1 => Op::Put(i), 2 => Op::Cur(i), 3 => Op::Swap(i), 4 if i != j => Op::Rotate(i, j), 5 if i != j => Op::Both(i, j), 6 => Op::Keep(i, val(r)), _ => Op::Value(i) })
        }).collect();
        let body: Vec<Vec<Item>> = (0..levels).map(|l| {
            let seen: Vec<usize> = (0..vars.len()).filter(|i| vars[*i].0 <= l).collect();
            let mine: Vec<usize> = (0..ops.len()).filter(|k| ops[*k].0 == l).collect();
            (0..r.below(4)).map(|_| match r.below(4) { 0 => Item::Set(*r.pick(&seen), val(r)), 1 if !mine.is_empty() => Item::Call(*r.pick(&mine), val(r)), 2 => Item::Show(*r.pick(&seen)), _ => Item::Noise }).collect()
        }).collect();
        let early = r.bool();
        let mut src = String::new();
        for l in 0..levels {
            let pad = "  ".repeat(l);
            let head = if l == 0 { format!("fn mk({})", (0..params).map(|i| format!("v{i}")).collect::<Vec<_>>().join(", ")) } else { format!("fn w{l}()") };
            src.push_str(&format!("{pad}{head} {{\n"));
            for (i, v) in vars.iter().enumerate() { if let (k, Some(e)) = v { if *k == l { src.push_str(&format!("{pad}  let v{i} = {e}\n")) } } }
            let mut def = |src: &mut String| for (k, (at, op)) in ops.iter().enumerate() { if *at == l { src.push_str(&format!("{pad}  fn c{k}(x) {}\n", op.body())) } };
            def(&mut src);
            for it in &body[l] {
                src.push_str(&format!("{pad}  {}\n", match it { Item::Set(i, e) => format!("v{i} = {e}"), Item::Call(k, e) => format!("print([c{k}({e})])"), Item::Show(i) => format!("print([v{i}])"), Item::Noise => "if 1 { let a = 1; let b = 2; fn n() -> a + b; print(n()) }".into() }));
            }
        }
        for l in (0..levels).rev() {
            let pad = "  ".repeat(l);
            let mut mine: Vec<String> = ops.iter().enumerate().filter(|o| o.1.0 == l).map(|o| format!("c{}", o.0)).collect();
            if l + 1 < levels { mine.push(format!("...w{}()", l + 1)) }
            if early { src.push_str(&format!("{pad}  if true {{ return [{}] }}\n{pad}}}\n", mine.join(", "))) } else { src.push_str(&format!("{pad}  return [{}]\n{pad}}}\n", mine.join(", "))) }
        }
        // The closures in the order of the list
        let order: Vec<usize> = (0..levels).flat_map(|l| (0..ops.len()).filter(|k| ops[*k].0 == l).collect::<Vec<_>>()).collect();
        let mut out = String::new();
        let mut insts: Vec<Vec<String>> = Vec::new();
        for n in 0..1 + r.below(2) {
            let args: Vec<&str> = (0..params).map(|_| val(r)).collect();
            let mut v: Vec<String> = (0..vars.len()).map(|i| if i < params { args[i].to_string() } else { vars[i].1.unwrap().to_string() }).collect();
            // an instance runs the statements of all levels, from the outermost to the innermost: declarations are first in each
            for items in &body { for it in items { match it {
                Item::Set(i, e) => v[*i] = e.to_string(),
                Item::Call(k, e) => out.push_str(&format!("[{}]\n", ops[*k].1.run(e, &mut v))),
                Item::Show(i) => out.push_str(&format!("[{}]\n", v[*i])),
                Item::Noise => out.push_str("3\n"),
            } } }
            insts.push(v);
            src.push_str(&format!("let i{n} = mk({})\n", args.join(", ")));
        }
        let within = r.bool();
        if within { src.push_str("fn main() {\n") }
        for _ in 0..3 + r.below(10) {
            let n = r.below(insts.len() as u64) as usize;
            let k = r.below(order.len() as u64) as usize;
            let e = val(r);
            src.push_str(&format!("print([i{n}[{k}]({e})])\n"));
            let res = ops[order[k]].1.run(e, &mut insts[n]);
            out.push_str(&format!("[{res}]\n"));
        }
        if within { src.push_str("}\nmain()\n") }
        sink(Case { src, expect: Expect::Out(out) });
    }
}
