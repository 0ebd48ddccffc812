//! Programs that are large in a single dimension.
use crate::behave::Jobs;
use crate::sut::Sets;
use model::product::Cfg;

/// What a function can have a lot of.
pub const DIMS: [&str; 9] = ["code", "constants", "names", "functions", "records", "locals", "loops", "lists", "calls"];

/// Statements that make a function large. `y` and `z` have to be locals.
pub fn fill(dim: &str, n: usize) -> String {
    let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    match dim {
        "code" => "z = y ".repeat(n),
        "constants" => rep(&|i| format!("z = {} ", i + 1000)),
        "names" => rep(&|i| format!("g{i} = y ")),
        "functions" => rep(&|i| format!("z = function() return {i} end ")),
        "records" => rep(&|i| format!("do local r{i} = y end ")),
        "locals" => rep(&|i| format!("local l{i} = y ")),
        "loops" => "for i = 1, 1 do end ".repeat(n),
        "lists" => "z = {y, y, y, y, y} ".repeat(n),
        "calls" => "emit(y) ".repeat(n),
        _ => unreachable!(),
    }
}
/// Numbers around every limit that could matter for a dimension.
pub fn sizes(dim: &str, thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let mut near = |m: usize, d: usize| v.extend(m - d..=m + d);
    match dim {
        "locals" => {
            near(32, 1);
            near(64, 1);
            near(120, 9);
            near(150, 2);
            v.retain(|n| *n < 180);
            return v;
        }
        "loops" | "lists" | "calls" => {
            near(32, 1);
            near(42, 2);
            near(51, 2);
            near(64, 2);
            near(128, 2);
            near(256, 2);
            if thorough {
                near(512, 3);
                near(1024, 3);
            }
        }
        _ => {
            near(32, 2);
            near(64, 2);
            near(127, 3);
            near(255, 8);
            near(511, 4);
            near(1023, 4);
            near(2048, 2);
            if thorough {
                near(4096, 3);
                near(8192, 3);
                near(16384, 3);
            }
            if thorough && dim != "functions" {
                near(32768, 4);
                near(65536, 5);
            } else if dim == "code" || dim == "constants" {
                v.extend([32766, 32769, 65530, 65537]);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn cfg(c: Cfg) -> Cfg {
    Cfg { budget: 1_000_000, max_events: 12, max_states: 24, ..c }
}
/// Every template (`%`: where the filling goes) with every filling.
pub fn add(j: &mut Jobs, base: Cfg, sets: &[(u64, u64)], templates: &[&str], thorough: bool) {
    for &(fi, fo) in sets {
        j.sets(Sets::flush(fi, fo));
        for dim in DIMS {
            if dim == "lists" && (fi, fo) == sets[0] && sets.len() > 1 {
                continue;
            }
            if dim == "calls" {
                j.cfg(Cfg { max_events: 1100, max_states: 1200, ..cfg(base.clone()) });
            } else {
                j.cfg(cfg(base.clone()));
            }
            for n in sizes(dim, thorough) {
                for t in templates {
                    if dim == "calls" && (t.contains("it do") || t.contains("ask")) {
                        continue;
                    }
                    let f = fill(dim, n);
                    j.add("large", format!("local y, z = 5, {{}} {}", t.replace('%', &f)));
                }
            }
        }
    }
    j.cfg(base);
}

/// What can be nested. `%`: the content, `#`: the level.
pub const NESTS: [&str; 14] = [
    "if ask() then % else emit(#) end",
    "while ask() do % emit(#) end",
    "repeat % until ask() emit(#)",
    "do local d# = y % emit(d#) end",
    "for i# = #, # do % emit(i#) end",
    "for i# = 1, 3 do % if ask() then break end emit(i#, y) end",
    "for i# = 3, 1, 0 - 2 do local q# = i# % emit(q#) break end",
    "for k# in tab do % emit(k#) break end",
    "for k#, v# in tab do % emit(v#) break end",
    "for k#, v# in it do % emit(k#, v#) break end",
    "for k# in it do % emit(k#) break end",
    "local function f#(a#, b#) % return a#, y end emit(f#(#))",
    "local function f#(...) % y = arg return y[1] end emit(f#(#))",
    "local u# = # local f# = function() u# = u# + 1 % return u#, y end emit(f#())",
];
/// Programs with a body at the bottom of many levels of each kind.
pub fn deep(j: &mut Jobs, base: Cfg, sets: &[(u64, u64)], bodies: &[&str], thorough: bool) {
    let mut depths: Vec<usize> = (1..=10).chain([15, 16, 17, 18, 30, 31, 32, 33, 34, 45, 49, 50, 51, 60, 64, 65, 66]).collect();
    if thorough {
        depths = (1..=70).chain([90, 99, 100, 127, 128, 129, 180, 195]).collect();
    }
    for &(fi, fo) in sets {
        j.sets(Sets::flush(fi, fo));
        j.cfg(Cfg { budget: 400_000, max_events: 450, max_states: 120, ignore_n: true, ..base.clone() });
        for (k, nest) in NESTS.iter().enumerate() {
            if j.ver == model::ops::Ver::L51 && (nest.contains("arg") || nest.contains("in tab")) {
                continue;
            }
            for &d in &depths {
                // iterating more than once multiplies with every level
                // and the reference machine has a limit on calls
                if k == 5 && d > 3 || k >= 11 && d > 90 {
                    continue;
                }
                for body in bodies {
                    // for some of the kinds another statement in front makes the levels differ in length
                    let mut s = body.to_string();
                    for level in (1..=d).rev() {
                        let l = nest.replace('#', &level.to_string()).replace('%', &s);
                        s = if level % 3 == 0 { format!("z = {{y, 2, y}} {l}") } else { l };
                    }
                    j.add("deep", format!("local y, z = 5, {{}} {s} emit(y)"));
                }
            }
        }
    }
    j.cfg(base);
}
