//! C14: printing of random graphs of values, with sharing and cycles, several times over, against a model of the text
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

#[derive(Clone)]
enum Item { Leaf(usize), Node(usize), Enumerate(usize), Pair(Box<Item>, Box<Item>) }
#[derive(Clone, Copy, PartialEq)]
enum Kind { List, Set, Dict, Heap, Vector, Struct(usize) }
const LEAVES: &[(&str, &str)] = &[("1", "1"), ("nil", "nil"), ("true", "true"), ("'a'", "'a'"), ("'long string with é'", "'long string with é'"), ("2 + 3i", "2 + 3i"), ("-1i", "-1i"), ("range(1, 5)", "range(1, 5, 1)"), ("[::2]", "[::2]"), ("[1:]", "[1:]"), ("f", "fn f(a, b)"), ("print", "fn print(...)"), ("[]", "[]"), ("{}", "{}"), ("dict()", "{}"), ("vector([])", "()"), ("heap([])", "[]"), ("'x\\ny'", "'x\\ny'"), ("f(1)", "fn f(a, b)"), ("S", "struct S(a, b)"), ("(->a)", "(->)"), ("range(0)", "range(empty)"), ("memoize(f)", "@memoize fn f(a, b)")];
const STRUCTS: &[(&str, &[&str])] = &[("S", &["a", "b"]), ("Other", &["value"]), ("T3", &["x", "y", "long_name"])];
struct Node { kind: Kind, items: Vec<(Item, Item)> }   // the first is the key of a dict

fn show_item(g: &[Node], i: &Item, path: &mut Vec<usize>) -> String {
    match i { Item::Leaf(k) => LEAVES[*k].1.into(), Item::Node(n) => show(g, *n, path), Item::Enumerate(n) => format!("enumerate({})", show(g, *n, path)), Item::Pair(a, b) => format!("[{}, {}]", show_item(g, a, path), show_item(g, b, path)) }
}
fn show(g: &[Node], n: usize, path: &mut Vec<usize>) -> String {
    let k = g[n].kind;
    if path.contains(&n) { return match k { Kind::List | Kind::Heap => "[...]".into(), Kind::Set | Kind::Dict => "{...}".into(), Kind::Vector => "(...)".into(), Kind::Struct(s) => format!("{}(...)", STRUCTS[s].0) } }
    path.push(n);
    let xs: Vec<String> = g[n].items.iter().enumerate().map(|(at, (key, v))| { match k { Kind::Dict => { let a = show_item(g, key, path); format!("{a}: {}", show_item(g, v, path)) } Kind::Struct(s) => format!("{}={}", STRUCTS[s].1[at], show_item(g, v, path)), _ => show_item(g, v, path) } }).collect();
    path.pop();
    let t = xs.join(", ");
    match k { Kind::List | Kind::Heap => format!("[{t}]"), Kind::Set | Kind::Dict => format!("{{{t}}}"), Kind::Vector => format!("({t})"), Kind::Struct(s) => format!("{}({t})", STRUCTS[s].0) }
}
fn source(i: &Item) -> String { match i { Item::Leaf(k) => format!("({})", LEAVES[*k].0), Item::Node(n) => format!("n{n}"), Item::Enumerate(n) => format!("enumerate(n{n})"), Item::Pair(a, b) => format!("[{}, {}]", source(a), source(b)) } }

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed); let r = &mut rng; let rounds = if ctx.thorough { 120000 } else { 12000 };
    for _ in 0..rounds {
        let n = 1 + r.below(6) as usize; let mut g: Vec<Node> = vec![]; let acyclic = r.chance(3);
        let mut src = String::from("struct S(a, b)\nstruct Other(value)\nstruct T3(x, y, long_name)\nfn f(a, b) -> a\n");
        for k in 0..n {
            let kind = match r.below(8) { 0 | 1 => Kind::List, 2 => Kind::Set, 3 => Kind::Dict, 4 => Kind::Heap, 5 => Kind::Vector, _ => Kind::Struct(r.below(3) as usize) };
            let count = match kind { Kind::Struct(s) => STRUCTS[s].1.len(), Kind::Heap => 1, _ => r.below(4) as usize };
            g.push(Node { kind, items: vec![] });
            src += &match kind { Kind::List => format!("let n{k} = []\n"), Kind::Set => format!("let n{k} = set()\n"), Kind::Dict => format!("let n{k} = dict()\n"), Kind::Heap => format!("let n{k} = heap([])\n"),
                Kind::Vector => format!("let n{k} = [{}] . vector\n", vec!["nil"; count].join(", ")), Kind::Struct(s) => format!("let n{k} = {}({})\n", STRUCTS[s].0, vec!["nil"; count].join(", ")) };
            for _ in 0..count { g[k].items.push((Item::Leaf(0), Item::Leaf(1))); }
        }
        // what is within a set, a dict key, or a heap is hashed or compared when it is inserted: these come first, and hold nothing cyclic yet
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { order.swap(i, r.below(i as u64 + 1) as usize); }
        let pick = |r: &mut Rng, k: usize, filled: &Vec<usize>| -> Item {
            // an acyclic graph refers to nodes which are complete only
            let pool: Vec<usize> = if acyclic { filled.clone() } else { (0..n).collect() };
            if pool.is_empty() || r.chance(4) { return Item::Leaf(r.below(LEAVES.len() as u64) as usize) }
            let x = *r.pick(&pool); let _ = k;
            if r.chance(8) { Item::Enumerate(x) } else { Item::Node(x) }
        };
        let mut filled = vec![];
        for pass in 0..2 { for &k in &order {
            let first = matches!(g[k].kind, Kind::Set | Kind::Heap | Kind::Dict);
            if !acyclic && first != (pass == 0) { continue }
            if acyclic && pass == 1 { continue }
            let count = g[k].items.len(); let mut items = vec![]; let mut used: Vec<usize> = vec![];
            for at in 0..count {
                match g[k].kind {
                    Kind::Set => {
                        // distinct leaves, and empty lists of which each is equal to the other: at most one node, still empty or complete
                        let node = if used.is_empty() && !(filled.is_empty() && acyclic) && r.chance(2) { let p: Vec<usize> = if acyclic { filled.clone() } else { (0..n).filter(|x| *x != k && matches!(g[*x].kind, Kind::List | Kind::Vector)).collect() }; if p.is_empty() { None } else { Some(*r.pick(&p)) } } else { None };
                        match node {
                            Some(x) if !used.contains(&1000) => { used.push(1000); src += &format!("n{k} . push([1, n{x}])\n"); items.push((Item::Leaf(0), Item::Pair(Box::new(Item::Leaf(0)), Box::new(Item::Node(x))))); }
                            _ => { let l = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7]); if used.contains(&l) { continue } used.push(l); src += &format!("n{k} . push({})\n", source(&Item::Leaf(l))); items.push((Item::Leaf(0), Item::Leaf(l))); }
                        }
                    }
                    Kind::Heap => { let x = pick(r, k, &filled); src += &format!("n{k} . push({})\n", source(&x)); items.push((Item::Leaf(0), x)); }
                    Kind::Dict if !used.contains(&1000) && r.chance(3) => {
                        // a key which is distinct from the others, and may come to hold the dict
                        let p: Vec<usize> = if acyclic { filled.clone() } else { (0..n).filter(|x| *x != k && matches!(g[*x].kind, Kind::List | Kind::Vector)).collect() };
                        if p.is_empty() { continue }
                        used.push(1000); let key = Item::Pair(Box::new(Item::Leaf(0)), Box::new(Item::Node(*r.pick(&p)))); let x = pick(r, k, &filled);
                        src += &format!("n{k}[{}] = {}\n", source(&key), source(&x)); items.push((key, x));
                    }
                    Kind::Dict => { let l = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7]); if used.contains(&l) { continue } used.push(l); let x = pick(r, k, &filled); src += &format!("n{k}[{}] = {}\n", source(&Item::Leaf(l)), source(&x)); items.push((Item::Leaf(l), x)); }
                    Kind::List => { let x = pick(r, k, &filled); src += &format!("n{k} . push({})\n", source(&x)); items.push((Item::Leaf(0), x)); }
                    Kind::Vector => { let x = pick(r, k, &filled); src += &format!("n{k}[{at}] = {}\n", source(&x)); items.push((Item::Leaf(0), x)); }
                    Kind::Struct(s) => { let x = pick(r, k, &filled); src += &format!("n{k}->{} = {}\n", STRUCTS[s].1[at], source(&x)); items.push((Item::Leaf(0), x)); }
                }
            }
            g[k].items = items; filled.push(k);
        } }
        // an acyclic graph may share a lot: do not print what is too long
        let total: usize = (0..n).map(|k| show(&g, k, &mut vec![]).len()).sum(); if total > 20000 { continue }
        let mut out = String::new();
        for _ in 0..2 + r.below(5) {
            let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize); let (x, y) = (show(&g, a, &mut vec![]), show(&g, b, &mut vec![]));
            match r.below(9) {
                0 => { src += &format!("print(n{a})\n"); out += &format!("{x}\n"); }
                1 => { src += &format!("print(repr(n{a}), n{b})\n"); out += &format!("{x} {y}\n"); }
                2 => { src += &format!("print([n{a}, n{b}, n{a}])\n"); out += &format!("[{x}, {y}, {x}]\n"); }
                3 => { src += &format!("print(str(n{a}) + 'x' + n{b})\n"); out += &format!("{x}x{y}\n"); }
                4 => { src += &format!("print('%s|%s' % [n{a}, n{b}])\n"); out += &format!("{x}|{y}\n"); }
                5 => { src += &format!("print({{1: n{a}, 2: n{b}}}, enumerate([n{b}]))\n"); out += &format!("{{1: {x}, 2: {y}}} enumerate([{y}])\n"); }
                6 => { src += &format!("print(S(n{a}, S(n{b}, n{a})))\n"); out += &format!("S(a={x}, b=S(a={y}, b={x}))\n"); }
                7 => { src += &format!("print([n{a}, n{b}] . join('; '))\n"); out += &format!("{x}; {y}\n"); }
                _ => { src += &format!("print([[n{a}], [n{a}]] . map(str), repr('q' + n{b}))\n"); out += &format!("['{}', '{}'] '{}'\n", esc(&format!("[{x}]")), esc(&format!("[{x}]")), esc(&format!("q{y}"))); }
            }
        }
        if r.chance(4) { let a = r.below(n as u64) as usize; let x = show(&g, a, &mut vec![]); src += &format!("assert false : n{a}\n"); sink(Case { src, expect: Expect::Err(out, format!("Assertion Failed: {x}")) }); }
        else { sink(Case { src, expect: Expect::Out(out) }); }
    }
    // long chains and much sharing
    for n in [2usize, 10, 100, 500] { for (open, close, t) in [("[", "]", "[x]"), ("{1: ", "}", "{1: x}"), ("(", ")", "vector([x])"), ("S(a=", ", b=2)", "S(x, 2)")] {
        let mk = |back: &str| format!("struct S(a, b)\nlet x = []\nlet y = x\nfor _ in range({n}) {{ x = {t} }}\n{back}print(x); print(repr(x))\n");
        let text = |core: &str| format!("{0}{core}{1}\n{0}{core}{1}\n", open.repeat(n), close.repeat(n));
        sink(Case { src: mk(""), expect: Expect::Out(text("[]")) });
        let whole = match open { "[" => "[...]", "(" => "(...)", "S(a=" => "S(...)", _ => "{...}" };
        sink(Case { src: mk("y . push(x)\n"), expect: Expect::Out(text(&format!("[{whole}]"))) });
        sink(Case { src: mk("y . push(y)\n"), expect: Expect::Out(text("[[...]]")) });
    } }
    let mut text = "[]".to_string(); for _ in 0..8 { text = format!("[{text}, {text}]"); }
    sink(Case { src: "let x = []\nfor _ in range(8) { x = [x, x] }\nprint(x)\n".into(), expect: Expect::Out(format!("{text}\n")) });
}
fn esc(s: &str) -> String { let t = format!("{s:?}"); t[1..t.len() - 1].to_string() }
