//! Exhaustive families of small Lua programs (as source text).

/// All statement blocks with exactly `n` nodes. `$` stands for a fresh number,
/// `?` for a condition that is filled in by `conditions`.
pub fn blocks(n: usize, in_loop: bool, kinds: &[&str]) -> Vec<String> {
    let mut out = vec![];
    if n == 0 {
        return vec![String::new()];
    }
    // first statement takes k nodes, the rest n - k
    for k in 1..=n {
        let rest = blocks(n - k, in_loop, kinds);
        for s in stmts(k, in_loop, kinds) {
            let last = s == "break" || s.starts_with("return");
            for r in &rest {
                if last && !r.is_empty() {
                    continue;
                }
                out.push(if r.is_empty() { s.clone() } else { format!("{s} {r}") });
            }
        }
    }
    out
}
fn stmts(n: usize, in_loop: bool, kinds: &[&str]) -> Vec<String> {
    let mut out = vec![];
    let has = |k: &str| kinds.contains(&k);
    if n == 1 {
        if has("emit") {
            out.push("emit($)".to_string());
        }
        if has("local") {
            out.push("local v$ = val($)".to_string());
        }
        if has("set") {
            out.push("G = val($)".to_string());
        }
        if has("break") && in_loop {
            out.push("break".to_string());
        }
        if has("return") {
            out.push("return $".to_string());
        }
        if has("closure") {
            out.push("emit(function() return x end)".to_string());
        }
    }
    for inner in if n >= 1 { blocks(n - 1, in_loop, kinds) } else { vec![] } {
        if has("if") {
            out.push(format!("if ? then {inner} end"));
        }
        if has("do") && n > 1 {
            out.push(format!("do local d$ = val($) {inner} end"));
        }
    }
    if has("ifelse") && n >= 2 {
        for k in 0..n {
            let l = blocks(k, in_loop, kinds);
            let r = blocks(n - 1 - k, in_loop, kinds);
            for a in &l {
                for b in &r {
                    if b.is_empty() {
                        continue;
                    }
                    out.push(format!("if ? then {a} else {b} end"));
                }
            }
        }
    }
    for inner in blocks(n - 1, true, kinds) {
        if has("while") {
            out.push(format!("while ? do {inner} end"));
        }
        if has("repeat") {
            let last = inner.ends_with("break") || inner.contains("return") && inner.trim_end().ends_with(|c: char| c == '$');
            if !last || !inner.split(' ').last().map(|w| w == "break" || w == "$").unwrap_or(false) {
                out.push(format!("repeat {inner} until ?"));
            }
        }
        if has("nfor") {
            out.push(format!("for i$ = 1,num() do emit(i%) {inner} end"));
        }
        if has("nfor0") {
            out.push(format!("for i$ = 2,3 do {inner} end"));
        }
        if has("gfor1") {
            out.push(format!("for k$ in it do {inner} end"));
        }
        if has("gfor2") {
            out.push(format!("for k$, w$ in it, 1, nil do emit(k%, w%) {inner} end"));
        }
        if has("tfor") {
            out.push(format!("for k$ in tab do {inner} end"));
        }
    }
    out
}

pub const CONDS: [&str; 14] = [
    "ask()",
    "not ask()",
    "ask() and ask()",
    "ask() or ask()",
    "any() == nil",
    "num() < 1",
    "not (ask() and ask())",
    "ask() and (ask() or ask())",
    "num() >= 1 or ask()",
    "any() ~= false",
    "(ask() and any()) or ask()",
    "true",
    "ask() == (ask() or ask())",
    "nil",
];

/// Replace `$` by fresh numbers (`%` repeats the last one opened by a loop)
/// and `?` by the conditions chosen with `pick`.
pub fn fill(t: &str, mut pick: impl FnMut(usize) -> &'static str) -> String {
    let mut o = String::with_capacity(t.len() + 32);
    let (mut n, mut c) = (0, 0);
    let mut last = 0;
    let b: Vec<char> = t.chars().collect();
    for (i, ch) in b.iter().enumerate() {
        match ch {
            '$' => {
                // `k$, w$` share a number
                let pair = i >= 4 && b[i - 1] == 'w' && b[i - 2] == ' ' && b[i - 3] == ',';
                if !pair {
                    n += 1;
                }
                if i > 0 && matches!(b[i - 1], 'i' | 'k' | 'w') {
                    last = n;
                }
                o += &n.to_string();
            }
            '%' => o += &last.to_string(),
            '?' => {
                o += pick(c);
                c += 1;
            }
            c => o.push(*c),
        }
    }
    o
}
pub fn holes(t: &str) -> usize {
    t.matches('?').count()
}

/// Programs with at most `n` nodes; conditions are enumerated exhaustively
/// while there is at most `full` of them, else rotated.
pub fn control(n: usize, full: usize, kinds: &[&str]) -> Vec<String> {
    let mut out = vec![];
    for k in 1..=n {
        for (bi, t) in blocks(k, false, kinds).into_iter().enumerate() {
            let h = holes(&t);
            if h == 0 {
                out.push(fill(&t, |_| ""));
            } else if h <= full {
                let total = CONDS.len().pow(h as u32);
                for code in 0..total {
                    out.push(fill(&t, |i| CONDS[code / CONDS.len().pow(i as u32) % CONDS.len()]));
                }
            } else {
                for r in 0..2 {
                    out.push(fill(&t, |i| CONDS[(bi * 5 + i * 3 + r * 7) % 11]));
                }
            }
        }
    }
    out
}

/// Every expression tree of the given operator depth over a small alphabet.
pub fn exprs(depth: usize) -> Vec<String> {
    let leaves = ["ask()", "any()", "a", "1", "nil", "true", "\"s\""];
    let mut lvl: Vec<String> = leaves.iter().map(|s| s.to_string()).collect();
    let base: Vec<String> = ["ask()", "any()", "a", "nil", "2"].iter().map(|s| s.to_string()).collect();
    for d in 0..depth {
        let mut next = vec![];
        let right = if d == 0 { lvl.clone() } else { base.clone() };
        for l in &lvl {
            for u in ["not "] {
                next.push(format!("{u}({l})"));
            }
            for o in ["and", "or", "==", "~="] {
                for r in &right {
                    next.push(format!("({l}) {o} {}", if d == 0 { r.clone() } else { format!("({r})") }));
                    if d > 0 {
                        next.push(format!("({r}) {o} ({l})"));
                    }
                }
            }
        }
        lvl.extend(next);
    }
    lvl.sort();
    lvl.dedup();
    lvl
}
