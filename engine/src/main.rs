mod exec;
mod expr;
mod ir;
mod solver;

use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Source functions executed: resolved through the debug locations of the instructions that
/// were interpreted, so inlined functions count.
fn functions(m: &ir::Module, seen: &HashSet<u32>) -> BTreeSet<(String, String)> {
    let mut lines: HashMap<u32, &str> = HashMap::new();
    for l in m.text[m.meta_start..].lines() {
        if let Some(r) = l.strip_prefix('!') {
            if let Some(k) = r.find(" = ") {
                if let Ok(n) = r[..k].parse::<u32>() {
                    lines.insert(n, &r[k + 3..]);
                }
            }
        }
    }
    let field = |l: &str, f: &str| -> Option<u32> {
        let k = l.find(&format!("{f}: !"))?;
        let r = &l[k + f.len() + 3..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    };
    let text = |l: &str, f: &str| -> Option<String> {
        let k = l.find(&format!("{f}: \""))?;
        let r = &l[k + f.len() + 3..];
        Some(r[..r.find('"')?].to_string())
    };
    let mut out = BTreeSet::new();
    let mut todo: Vec<u32> = seen.iter().copied().collect();
    let mut done = HashSet::new();
    while let Some(n) = todo.pop() {
        if !done.insert(n) {
            continue;
        }
        let Some(l) = lines.get(&n) else { continue };
        if l.contains("DILocation(") {
            if let Some(s) = field(l, "scope") {
                todo.push(s);
            }
            if let Some(s) = field(l, "inlinedAt") {
                todo.push(s);
            }
        } else if l.contains("DILexicalBlock") {
            if let Some(s) = field(l, "scope") {
                todo.push(s);
            }
        } else if l.contains("DISubprogram(") {
            let name = text(l, "name").unwrap_or_default();
            let file = field(l, "file")
                .and_then(|f| lines.get(&f))
                .and_then(|f| text(f, "filename"))
                .unwrap_or_default();
            // nearest named scopes
            let mut path = name;
            let mut s = field(l, "scope");
            while let Some(k) = s {
                let Some(sl) = lines.get(&k) else { break };
                if let Some(nm) = text(sl, "name") {
                    path = format!("{nm}::{path}");
                }
                s = field(sl, "scope");
            }
            out.insert((path, file));
        }
    }
    out
}

fn main() {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut solver = vec!["z3".to_string(), "-in".to_string()];
    let mut cross: Option<Vec<String>> = None;
    let mut lim = exec::Limits {
        max_paths: 200_000,
        max_steps: 30_000_000,
        max_depth: 3000,
        max_enum: 300,
        time_s: 600.0,
        keep_paths: 200,
    };
    let mut params = HashMap::new();
    let mut timeout = 30_000u64;
    let mut trace = false;
    let args: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        i += 2;
        match a {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--solver" => solver = v.split(' ').map(|s| s.to_string()).collect(),
            "--cross" => cross = Some(v.split(' ').map(|s| s.to_string()).collect()),
            "--time" => lim.time_s = v.parse().unwrap(),
            "--max-paths" => lim.max_paths = v.parse().unwrap(),
            "--max-steps" => lim.max_steps = v.parse().unwrap(),
            "--max-enum" => lim.max_enum = v.parse().unwrap(),
            "--max-depth" => lim.max_depth = v.parse().unwrap(),
            "--keep" => lim.keep_paths = v.parse().unwrap(),
            "--query-timeout" => timeout = v.parse().unwrap(),
            "--param" => {
                let (k, x) = v.split_once('=').unwrap();
                params.insert(k.parse().unwrap(), x.parse().unwrap());
            }
            "--trace" => {
                trace = true;
                i -= 1;
            }
            _ => panic!("argument {a}"),
        }
    }
    let text = std::fs::read_to_string(&ll).expect("module");
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(text);
    let s = solver::Solver::new(solver, cross, timeout);
    let mut e = exec::Engine::new(m, s, lim);
    e.params = params;
    e.trace = trace;
    e.run(&entry);
    let wall = t0.elapsed().as_secs_f64();
    let st = e.solver.stats.clone();
    let mut j = String::from("{\n");
    let _ = writeln!(j, " \"entry\": {},", esc(&entry));
    let _ = writeln!(j, " \"wall_s\": {:.3},", wall);
    let _ = writeln!(j, " \"paths\": {},", e.paths_done);
    let _ = writeln!(j, " \"infeasible\": {},", e.paths_infeasible);
    let _ = writeln!(j, " \"forks\": {},", e.forks);
    let _ = writeln!(j, " \"instructions\": {},", e.steps);
    let _ = writeln!(j, " \"queries\": {},", st.queries);
    let _ = writeln!(j, " \"sat\": {},", st.sat);
    let _ = writeln!(j, " \"unsat\": {},", st.unsat);
    let _ = writeln!(j, " \"unknown\": {},", st.unknown);
    let _ = writeln!(j, " \"cache_hits\": {},", st.cache_hits);
    let _ = writeln!(j, " \"model_hits\": {},", st.model_hits);
    let _ = writeln!(j, " \"assertions_decided\": {},", st.assert_queries);
    let _ = writeln!(j, " \"assertions_folded\": {},", e.asserts_folded);
    let _ = writeln!(j, " \"solver_ms\": {:.1},", st.time_ms);
    let _ = writeln!(j, " \"solver_max_ms\": {:.1},", st.max_ms);
    let _ = writeln!(j, " \"solver_errors\": {},", st.errors);
    let _ = writeln!(j, " \"cross_checked\": {},", st.cross_checked);
    let _ = writeln!(j, " \"schedules\": {},", e.schedules);
    let _ = writeln!(j, " \"max_inputs\": {},", e.max_inputs);
    let c: Vec<String> = e.covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let _ = writeln!(j, " \"covers\": {{{}}},", c.join(", "));
    let c: Vec<String> = e.asserts.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let _ = writeln!(j, " \"asserts\": {{{}}},", c.join(", "));
    let fs = functions(&e.m, &e.dbg_seen);
    let c: Vec<String> = fs
        .iter()
        .map(|(n, f)| format!("[{}, {}]", esc(n), esc(f)))
        .collect();
    let _ = writeln!(j, " \"functions\": [{}],", c.join(", "));
    let _ = writeln!(j, " \"ir_functions\": {},", e.fn_seen.len());
    let c: Vec<String> = e.inconclusive.iter().map(|s| esc(s)).collect();
    let _ = writeln!(j, " \"inconclusive\": [{}],", c.join(", "));
    let inp = |l: &[(u32, u128)]| {
        l.iter()
            .map(|(w, v)| format!("\"{w}:{v:x}\""))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let c: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\": {}, \"detail\": {}, \"inputs\": [{}], \"stack\": [{}]}}",
                esc(&v.kind),
                esc(&v.detail),
                inp(&v.inputs),
                v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect();
    let _ = writeln!(j, " \"violations\": [{}],", c.join(",\n  "));
    let c: Vec<String> = e
        .recs
        .iter()
        .map(|r| {
            format!(
                "[[{}], [{}]]",
                inp(&r.inputs),
                r.obs.iter().map(|x| format!("\"{x:x}\"")).collect::<Vec<_>>().join(", ")
            )
        })
        .collect();
    let _ = writeln!(j, " \"samples\": [{}]", c.join(",\n  "));
    j.push_str("}\n");
    if out.is_empty() {
        print!("{j}");
    } else {
        std::fs::write(&out, j).unwrap();
    }
}
