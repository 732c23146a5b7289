//! The oracles. They see the recorded history of a run - what the editor sent,
//! in which order, what came back - and nothing of the server's inside.
use crate::interpose::{fs_lookup, Node};
use crate::model::{self, Kind, Module, R, TK};
use crate::plan::*;
use crate::world::{self, Factory, Got, RunLog, Sent};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Finding {
    pub prop: &'static str,
    /// what kind of violation this is; minimisation preserves it
    pub class: String,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Verdict {
    pub findings: Vec<Finding>,
    /// oracle evaluations by kind
    pub evals: BTreeMap<&'static str, u64>,
}

impl Verdict {
    fn bad(&mut self, prop: &'static str, class: &str, msg: String) {
        self.findings.push(Finding {
            prop,
            class: class.to_string(),
            msg,
        })
    }
    fn eval(&mut self, k: &'static str) {
        *self.evals.entry(k).or_default() += 1
    }
}

type Rng4 = (u32, u32, u32, u32);
fn r4(r: &R) -> Rng4 {
    (r.line, r.c0, r.line, r.c1)
}
fn u(v: &Value) -> u32 {
    v.as_u64().map_or(u32::MAX, |x| x.min(u32::MAX as u64) as u32)
}
fn range(v: &Value) -> Rng4 {
    (
        u(&v["start"]["line"]),
        u(&v["start"]["character"]),
        u(&v["end"]["line"]),
        u(&v["end"]["character"]),
    )
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
fn short(s: String) -> String {
    if s.chars().count() > 600 {
        s.chars().take(600).collect::<String>() + "…"
    } else {
        s
    }
}

pub fn method(s: &Sent) -> &str {
    s.msg["method"].as_str().unwrap_or("")
}

/// The properties which are about the answers to a method
pub fn props_of(m: &str, params: &Value) -> &'static [&'static str] {
    match m {
        "textDocument/definition" => &["C06", "C13"],
        "textDocument/declaration" | "textDocument/references" => &["C06"],
        "textDocument/prepareRename" => &["C07"],
        "textDocument/rename" => {
            let n = params["newName"].as_str().unwrap_or("");
            if n.starts_with('+') || n.starts_with('-') {
                &["C08"]
            } else {
                &["C07"]
            }
        }
        "textDocument/codeAction" | "codeAction/resolve" => &["C08"],
        "workspace/executeCommand" => &["C09"],
        "textDocument/documentSymbol" | "textDocument/foldingRange" | "textDocument/codeLens" => &["C10"],
        "textDocument/inlayHint" => &["C10", "C13"],
        "textDocument/semanticTokens/full" => &["C11"],
        "initialize" | "shutdown" => &["C15"],
        _ => &[],
    }
}

/// (uri, range) of a definition, declaration or references result
fn locations(v: &Value) -> Option<Vec<(String, Rng4, Option<Rng4>)>> {
    let one = |l: &Value| -> Option<(String, Rng4, Option<Rng4>)> {
        if let Some(t) = l.get("targetUri") {
            let origin = l.get("originSelectionRange").map(range);
            return Some((t.as_str()?.to_string(), range(&l["targetSelectionRange"]), origin));
        }
        Some((l["uri"].as_str()?.to_string(), range(&l["range"]), None))
    };
    match v {
        Value::Null => Some(vec![]),
        Value::Array(a) => a.iter().map(one).collect(),
        o => Some(vec![one(o)?]),
    }
}

// -------------------------------------------------------------- file system

/// What the file system looked like at some point while the server worked
fn fs_window<'a>(log: &'a RunLog, from: u64, to: u64) -> Vec<&'a BTreeMap<String, Node>> {
    let mut out = vec![];
    for (i, (step, m)) in log.fs.iter().enumerate() {
        let next = log.fs.get(i + 1).map_or(u64::MAX, |n| n.0);
        if *step <= to && next >= from {
            out.push(m);
        }
    }
    out
}

/// A path segment as it is written in an URI
fn percent(seg: &str) -> String {
    let mut out = String::new();
    for b in seg.bytes() {
        if b.is_ascii_graphic() && !b"\"<>`#?{}/%\\".contains(&b) {
            out.push(b as char);
        } else {
            out += &format!("%{:02X}", b);
        }
    }
    out
}

/// The path an URI's path stands for
fn unpercent(path: &str) -> String {
    let b = path.as_bytes();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        match (b[i], path.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
            (b'%', Some(x)) => {
                out.push(x);
                i += 3;
            }
            (c, _) => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// The ways a path may resolve: whether a directory counts as found is not determined
fn resolve(roots: &[String], path: &str, fs: &BTreeMap<String, Node>) -> [Option<String>; 2] {
    [true, false].map(|dirs| resolve_in(roots, path, fs, dirs))
}

fn resolve_in(roots: &[String], path: &str, fs: &BTreeMap<String, Node>, dirs: bool) -> Option<String> {
    for r in roots {
        let Some(p) = r.strip_prefix("file://") else { continue };
        if !p.starts_with('/') {
            continue;
        }
        let base = unpercent(p.trim_end_matches('/'));
        let rel: Vec<&str> = path.split('/').filter(|c| *c != "." && !c.is_empty()).collect();
        if fs_lookup(fs, &format!("{}/{}", base, rel.join("/"))).map_or(false, |n| dirs || n != Node::Dir) {
            let rel: Vec<String> = rel.iter().map(|s| percent(s)).collect();
            return Some(format!("{}/{}", r.trim_end_matches('/'), rel.join("/")));
        }
    }
    None
}

fn roots_of(cfg: &Cfg) -> Vec<String> {
    match cfg.root_mode {
        0 | 3 => cfg.roots.clone(),
        1 | 4 => cfg.roots.iter().take(1).cloned().collect(),
        _ => vec![],
    }
}

// --------------------------------------------------------------- backtraces

struct Frame {
    symbol: String,
    file: Option<(String, u32)>,
}

fn base_name(p: &str) -> &str {
    let at = p.rfind(|c| c == '/' || c == '\\').map_or(0, |i| i + 1);
    &p[at..]
}

fn frames(json: &str) -> Option<Vec<Frame>> {
    let v: Value = serde_json::from_str(json).ok()?;
    let list = v.get("backtrace")?.as_array()?;
    Some(
        list.iter()
            .map(|f| {
                let name = f.get(0).and_then(Value::as_str).filter(|s| !s.is_empty());
                let link = f.get(1).and_then(Value::as_str);
                let file = link.and_then(|l| {
                    let (a, b) = l.split_once(':')?;
                    Some((a.to_string(), b.parse::<u32>().ok()?))
                });
                let symbol = match (name, link) {
                    (Some(n), _) => n.to_string(),
                    (None, Some(l)) => base_name(l).to_string(),
                    _ => "<invalid>".to_string(),
                };
                Frame { symbol, file }
            })
            .collect(),
    )
}

fn relevant(fs: &[Frame]) -> Option<usize> {
    for p in [
        "Translator::consume",
        "Translator::produceMaterializedResult",
        "Translator::drivePipeline",
        "Translator::deriveValue",
        "Translator::",
    ] {
        if let Some(i) = fs.iter().position(|f| f.symbol.contains(p)) {
            return Some(i);
        }
    }
    fs.iter().position(|f| {
        f.file
            .as_ref()
            .map_or(false, |(p, _)| !p.contains("hyper/ir/") && !p.contains("hyper/codegen"))
    })
}

fn clean(s: &str) -> String {
    s.chars()
        .map(|c| {
            if c.is_alphanumeric() || c.is_whitespace() || ".,:+-=/*<>_".contains(c) {
                c
            } else {
                '\u{fffd}'
            }
        })
        .collect()
}

/// One line of the tooltip for each way the file may resolve
fn frame_md(f: &Frame, roots: &[String], fss: &[&BTreeMap<String, Node>]) -> BTreeSet<String> {
    let sym = clean(&f.symbol);
    match &f.file {
        None => BTreeSet::from([format!("`{}`", sym)]),
        Some((p, l)) => fss
            .iter()
            .flat_map(|fs| resolve(roots, p, fs))
            .map(|found| match found {
                Some(uri) => format!("`{}` @ [{}:{}]({}#{})", sym, base_name(p), l, uri, l),
                None => format!("`{}` @ {}:{}", sym, base_name(p), l),
            })
            .collect(),
    }
}

// ------------------------------------------------------------------- answers

pub struct Ctx<'a> {
    pub uri: &'a str,
    pub text: &'a str,
    pub m: Option<&'a Module>,
    pub roots: &'a [String],
    pub fss: Vec<&'a BTreeMap<String, Node>>,
    pub lazy: bool,
    pub legend: &'a [String],
}

/// Edits of a shift: every numbered symbol of the kind (and function) at or
/// above `start` moves by `by`.
fn shift_edits(m: &Module, kind: Kind, func: Option<usize>, start: i64, by: i64) -> Vec<(Rng4, String)> {
    let mut out = vec![];
    for s in m.syms.iter().filter(|s| s.kind == kind && s.func == func) {
        if let Some((prefix, nr)) = model::split_number(&s.name) {
            if nr >= start {
                let new = format!("{}{}", prefix, (nr as i128 + by as i128).abs());
                for r in s.decls.iter().chain(&s.defs).chain(&s.uses) {
                    out.push((r4(r), new.clone()));
                }
            }
        }
    }
    sorted(out)
}

fn got_edits(edit: &Value, uri: &str) -> Option<Vec<(Rng4, String)>> {
    Some(sorted(
        world::edits_of(edit, uri)?
            .into_iter()
            .map(|(a, b, c, d, t)| ((a, b, c, d), t))
            .collect(),
    ))
}

/// Does the edit concern documents other than `uri`?
fn foreign_edits(edit: &Value, uri: &str) -> bool {
    let a = edit["changes"].as_object().map_or(false, |o| o.keys().any(|k| k != uri));
    let b = edit["documentChanges"]
        .as_array()
        .map_or(false, |d| d.iter().any(|x| x["textDocument"]["uri"] != uri));
    a || b
}

/// Compare one answer with the reference model.
pub fn check_answer(v: &mut Verdict, c: &Ctx, meth: &str, params: &Value, resp: &Value) {
    let Some(m) = c.m else { return };
    let err = resp.get("error");
    let res = &resp["result"];
    let p = if meth == "textDocument/codeAction" {
        &params["range"]["start"]
    } else {
        &params["position"]
    };
    let (line, col) = (u(&p["line"]), u(&p["character"]));
    let ctx = |what: &str| short(format!("{} for {} at {}:{}", what, c.uri, line, col));
    match meth {
        "textDocument/definition" | "textDocument/declaration" | "textDocument/references" => {
            v.eval("navigation answers");
            if let Some(e) = err {
                v.bad("C06", "navigation-error", ctx(&format!("{} failed: {}", meth, e)));
                return;
            }
            let Some(got) = locations(res) else {
                v.bad("C06", "navigation-shape", ctx(&format!("{} has an unreadable result {}", meth, res)));
                return;
            };
            let sym = m.symbol_at(line, col);
            let here: Vec<Rng4> = sorted(got.iter().filter(|g| g.0 == c.uri).map(|g| g.1).collect());
            let there: Vec<(String, Rng4)> = got.iter().filter(|g| g.0 != c.uri).map(|g| (g.0.clone(), g.1)).collect();
            let (sym, r) = match sym {
                Ok(Some(x)) => x,
                Ok(None) => {
                    if !got.is_empty() {
                        v.bad("C06", "navigation-phantom", ctx(&format!("{} found {:?} although there is no symbol", meth, got)));
                    }
                    return;
                }
                Err(()) => return,
            };
            for g in &got {
                if g.2.map_or(false, |o| o != r4(&r)) {
                    v.bad("C06", "navigation-origin", ctx(&format!("{} of `{}` reports origin {:?} instead of {:?}", meth, sym.name, g.2, r)));
                    return;
                }
            }
            let f = |l: &[R]| sorted(l.iter().map(r4).collect::<Vec<_>>());
            let (want, class) = match meth {
                "textDocument/definition" => (vec![f(&sym.defs)], "definition"),
                "textDocument/declaration" => (vec![f(&sym.decls)], "declaration"),
                _ => {
                    let mut w = vec![f(&sym.uses)];
                    if params["context"]["includeDeclaration"] == true {
                        let all: Vec<R> = sym.uses.iter().chain(&sym.defs).chain(&sym.decls).copied().collect();
                        let dec: Vec<R> = sym.uses.iter().chain(&sym.decls).copied().collect();
                        w.push(f(&all));
                        w.push(f(&dec));
                    }
                    (w, "references")
                }
            };
            if !want.contains(&here) {
                v.bad("C06", class, ctx(&format!("{} of `{}` is {:?} instead of {:?}", class, sym.name, here, want[0])));
            }
            if meth == "textDocument/definition" {
                if m.ext_unsure {
                    return;
                }
                v.eval("external locations");
                // Every external definition: what any file system state in the window gives
                let mut rest = there.clone();
                let mut ok = true;
                for (path, l) in &sym.ext {
                    let l = l.saturating_sub(1);
                    let alts: BTreeSet<Option<String>> = c.fss.iter().flat_map(|fs| resolve(c.roots, path, fs)).collect();
                    let hit = rest.iter().position(|(uri, rg)| {
                        rg.0 == l && rg.1 == 0 && rg.2 == l && alts.contains(&Some(uri.clone()))
                    });
                    match hit {
                        Some(h) => {
                            rest.remove(h);
                        }
                        None => ok &= alts.contains(&None),
                    }
                }
                if !ok || !rest.is_empty() {
                    v.bad(
                        "C13",
                        "external-definition",
                        ctx(&format!("external definitions of `{}` are {:?}, annotated are {:?}, roots {:?}", sym.name, there, sym.ext, c.roots)),
                    );
                }
            } else if !there.is_empty() {
                v.bad("C06", class, ctx(&format!("{} of `{}` leads to other documents: {:?}", class, sym.name, there)));
            }
        }
        "textDocument/prepareRename" => {
            v.eval("rename answers");
            if let Some(e) = err {
                // An error is a legitimate way to say that nothing can be renamed
                if matches!(m.symbol_at(line, col), Ok(Some(_))) {
                    v.bad("C07", "prepare-error", ctx(&format!("prepareRename failed: {}", e)));
                }
                return;
            }
            let got = if res.is_null() {
                None
            } else if res.get("range").is_some() {
                Some(range(&res["range"]))
            } else {
                Some(range(res))
            };
            match m.symbol_at(line, col) {
                Ok(Some((s, r))) if got != Some(r4(&r)) => {
                    v.bad("C07", "prepare-range", ctx(&format!("prepareRename of `{}` is {:?} instead of {:?}", s.name, got, r)))
                }
                Ok(None) if got.is_some() => {
                    v.bad("C07", "prepare-phantom", ctx(&format!("prepareRename offers {:?} although there is no symbol", got)))
                }
                _ => {}
            }
        }
        "textDocument/rename" => {
            let new = params["newName"].as_str().unwrap_or("");
            let relative = new.starts_with('+') || new.starts_with('-');
            let prop = if relative { "C08" } else { "C07" };
            v.eval(if relative { "shift answers" } else { "rename answers" });
            let (sym, _) = match m.symbol_at(line, col) {
                Ok(Some(x)) => x,
                Ok(None) => {
                    let edits = got_edits(res, c.uri).unwrap_or_default();
                    if err.is_none() && !(res.is_null() || edits.is_empty()) {
                        v.bad(prop, "rename-phantom", ctx(&format!("rename edits {:?} although there is no symbol", edits)));
                    }
                    return;
                }
                Err(()) => return,
            };
            let want: Option<Vec<(Rng4, String)>> = if relative {
                let num = new[1..].parse::<i64>();
                if new[1..].starts_with(['+', '-']) {
                    return; // double signs: no position
                }
                match (num, model::split_number(&sym.name)) {
                    (Ok(n), Some((_, start))) => {
                        let by = if new.starts_with('-') { -n } else { n };
                        Some(shift_edits(m, sym.kind, sym.func, start, by))
                    }
                    _ => None,
                }
            } else {
                match model::rename_target(sym.kind, new) {
                    None => return,
                    Some(Err(())) => None,
                    Some(Ok(n)) => Some(sorted(
                        sym.decls
                            .iter()
                            .chain(&sym.defs)
                            .chain(&sym.uses)
                            .map(|r| (r4(r), n.clone()))
                            .collect(),
                    )),
                }
            };
            match (want, err) {
                (None, None) => v.bad(prop, "rename-accepted", ctx(&format!("rename of `{}` to {:?} was accepted: {}", sym.name, new, res))),
                (Some(_), Some(e)) => v.bad(prop, "rename-rejected", ctx(&format!("rename of `{}` to {:?} was rejected: {}", sym.name, new, e))),
                (Some(w), None) => {
                    let g = got_edits(res, c.uri);
                    if g.as_ref() != Some(&w) || foreign_edits(res, c.uri) {
                        v.bad(prop, "rename-edits", ctx(&format!("rename of `{}` to {:?} edits {:?} instead of {:?}", sym.name, new, g, w)));
                    }
                }
                (None, Some(_)) => {}
            }
        }
        "textDocument/codeAction" => {
            v.eval("shift answers");
            if let Some(e) = err {
                v.bad("C08", "action-error", ctx(&format!("codeAction failed: {}", e)));
                return;
            }
            let list = res.as_array().cloned().unwrap_or_default();
            if params["range"]["start"] != params["range"]["end"] {
                return; // offering actions for ranges would be an extension
            }
            let numbered = match m.symbol_at(line, col) {
                Ok(Some((s, _))) => model::split_number(&s.name).map(|n| (s, n.1)),
                Ok(None) => None,
                Err(()) => return,
            };
            match numbered {
                None => {
                    if !list.is_empty() {
                        v.bad("C08", "action-phantom", ctx(&format!("actions {:?} are offered although there is no numbered symbol", list)));
                    }
                }
                Some((s, start)) => {
                    let [a] = &list[..] else {
                        v.bad("C08", "action-missing", ctx(&format!("`{}` is offered {} actions instead of one", s.name, list.len())));
                        return;
                    };
                    if let Some(e) = a.get("edit").filter(|e| !e.is_null()) {
                        let want = shift_edits(m, s.kind, s.func, start, 1);
                        let got = got_edits(e, c.uri);
                        if got.as_ref() != Some(&want) || foreign_edits(e, c.uri) {
                            v.bad("C08", "action-edits", ctx(&format!("shifting `{}` edits {:?} instead of {:?}", s.name, got, want)));
                        }
                    } else if !c.lazy {
                        v.bad("C08", "action-without-edit", ctx(&format!("the action for `{}` has no edit although the editor cannot resolve it", s.name)));
                    } else if a.get("data").map_or(true, Value::is_null) {
                        v.bad("C08", "action-without-data", ctx(&format!("the action for `{}` has neither edit nor data", s.name)));
                    }
                }
            }
        }
        "textDocument/documentSymbol" => {
            v.eval("outline answers");
            let mut got: Vec<(String, u64, Rng4, Rng4)> = vec![];
            fn flat(l: &Value, out: &mut Vec<(String, u64, Rng4, Rng4)>) {
                for s in l.as_array().into_iter().flatten() {
                    let r = s.get("range").unwrap_or(&s["location"]["range"]);
                    out.push((
                        s["name"].as_str().unwrap_or("").to_string(),
                        s["kind"].as_u64().unwrap_or(0),
                        range(r),
                        range(s.get("selectionRange").unwrap_or(r)),
                    ));
                    flat(&s["children"], out);
                }
            }
            flat(res, &mut got);
            got.sort();
            let mut want = vec![];
            for s in m.syms.iter().filter(|s| s.kind == Kind::GlobalVar) {
                for d in &s.defs {
                    want.push((s.name.clone(), 14, r4(d), r4(d)));
                }
            }
            for f in &m.funcs {
                let (d, n, e) = (m.tok(f.define).r, m.tok(f.name), m.tok(f.close).r);
                want.push((n.text.clone(), 12, (d.line, d.c0, e.line, e.c1), r4(&n.r)));
            }
            want.sort();
            if got != want || err.is_some() {
                v.bad("C10", "outline", short(format!("outline of {} is {:?} instead of {:?} {:?}", c.uri, got, want, err)));
            }
        }
        "textDocument/foldingRange" => {
            v.eval("folding answers");
            let num = |s: &Value| s.as_str().and_then(|t| t.split(' ').next()?.parse::<u64>().ok());
            let got: Vec<(u32, u32, Option<u64>)> = sorted(
                res.as_array()
                    .into_iter()
                    .flatten()
                    .map(|f| (u(&f["startLine"]), u(&f["endLine"]), num(&f["collapsedText"])))
                    .collect(),
            );
            let mut want = vec![];
            for (i, f) in m.funcs.iter().enumerate() {
                let n = m.syms.iter().filter(|s| s.kind == Kind::Label && s.func == Some(i)).count();
                want.push((m.tok(f.define).r.line, m.tok(f.close).r.line, Some(n as u64)));
                for b in &f.blocks {
                    let first = b.label.or(b.instrs.first().map(|i| i.first));
                    let last = b.instrs.last().map(|i| i.last).or(b.label);
                    if let (Some(a), Some(z)) = (first, last) {
                        want.push((m.tok(a).r.line, m.tok(z).end_line, Some(b.instrs.len() as u64)));
                    }
                }
            }
            want.sort();
            if got != want || err.is_some() {
                v.bad("C10", "folding", short(format!("folding ranges of {} are {:?} instead of {:?} {:?}", c.uri, got, want, err)));
            }
        }
        "textDocument/codeLens" => {
            v.eval("lens answers");
            let got: Vec<(Rng4, String, String)> = sorted(
                res.as_array()
                    .into_iter()
                    .flatten()
                    .map(|l| (range(&l["range"]), l["command"]["command"].as_str().unwrap_or("").to_string(), l["command"]["arguments"].to_string()))
                    .collect(),
            );
            let want: Vec<(Rng4, String, String)> = sorted(
                m.syms
                    .iter()
                    .filter(|s| s.kind == Kind::Function && s.defs.len() == 1)
                    .map(|s| (r4(&s.defs[0]), "visualize-cfg".to_string(), json!([c.uri, s.name]).to_string()))
                    .collect(),
            );
            if got != want || err.is_some() {
                v.bad("C10", "lens", short(format!("code lenses of {} are {:?} instead of {:?} {:?}", c.uri, got, want, err)));
            }
        }
        "textDocument/inlayHint" => inlay(v, c, m, params, resp),
        "textDocument/semanticTokens/full" => {
            v.eval("token answers");
            let data: Vec<u32> = res["data"].as_array().into_iter().flatten().map(u).collect();
            let (mut l, mut s) = (0u64, 0u64);
            let mut got = vec![];
            for d in data.chunks(5) {
                if d.len() < 5 {
                    v.bad("C11", "tokens-shape", format!("{} token values", data.len()));
                    return;
                }
                if d[0] > 0 {
                    s = 0;
                }
                l += d[0] as u64;
                s += d[1] as u64;
                if d[4] != 0 {
                    v.bad("C11", "token-modifiers", format!("a token of {} has the modifiers {} which are not in the legend", c.uri, d[4]));
                    return;
                }
                got.push((l as u32, s as u32, d[2], c.legend.get(d[3] as usize).cloned().unwrap_or_default()));
            }
            let mut want = vec![];
            for t in &m.toks {
                let k = match t.kind {
                    TK::Comment => "comment",
                    TK::Num | TK::Hex => "number",
                    TK::Str => "string",
                    TK::Local | TK::Global => "variable",
                    TK::Type => "type",
                    TK::Declare | TK::Define => "keyword",
                    TK::Modifier => "modifier",
                    _ => continue,
                };
                if t.r.line == t.end_line {
                    want.push((t.r.line, t.r.c0, t.r.c1 - t.r.c0, k.to_string()));
                    continue;
                }
                // A token per line, without the line ends
                let text = t.text.replace("\r\n", "\n").replace('\r', "\n");
                for (i, part) in text.split('\n').enumerate() {
                    let n = part.encode_utf16().count() as u32;
                    if n > 0 {
                        want.push((t.r.line + i as u32, if i == 0 { t.r.c0 } else { 0 }, n, k.to_string()));
                    }
                }
            }
            if got != want || err.is_some() {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                v.bad(
                    "C11",
                    "tokens",
                    short(format!("semantic tokens of {} differ at #{}: {:?} instead of {:?} ({} vs {} tokens) {:?}", c.uri, at, got.get(at), want.get(at), got.len(), want.len(), err)),
                );
            }
        }
        _ => {}
    }
}

fn inlay(v: &mut Verdict, c: &Ctx, m: &Module, params: &Value, resp: &Value) {
    let shown = range(&params["range"]);
    // Hints elsewhere may be left out
    let visible = |p: (u32, u32)| (shown.0, shown.1) <= p && p < (shown.2, shown.3);
    v.eval("inlay answers");
    if let Some(e) = resp.get("error") {
        v.bad("C10", "inlay-error", format!("inlayHint for {} failed: {}", c.uri, e));
        return;
    }
    struct H {
        pos: (u32, u32),
        text: String,
        locs: Vec<(String, String, Rng4)>,
        tips: Vec<(String, String)>,
        used: bool,
    }
    let mut got: Vec<H> = vec![];
    for h in resp["result"].as_array().into_iter().flatten() {
        let parts: Vec<Value> = match &h["label"] {
            Value::String(s) => vec![json!({ "value": s })],
            l => l.as_array().cloned().unwrap_or_default(),
        };
        let val = |p: &Value| p["value"].as_str().unwrap_or("").to_string();
        got.push(H {
            pos: (u(&h["position"]["line"]), u(&h["position"]["character"])),
            text: parts.iter().map(val).collect(),
            locs: parts
                .iter()
                .filter(|p| p["location"].is_object())
                .map(|p| (val(p), p["location"]["uri"].as_str().unwrap_or("").to_string(), range(&p["location"]["range"])))
                .collect(),
            tips: parts
                .iter()
                .filter_map(|p| {
                    let t = p.get("tooltip")?;
                    let s = t.as_str().or_else(|| t["value"].as_str())?;
                    Some((val(p), s.to_string()))
                })
                .collect(),
            used: false,
        });
    }
    // Incoming control flow edges, and the name at the end of each function
    let mut want: Vec<((u32, u32), String, Vec<(String, String, Rng4)>)> = vec![];
    for f in &m.funcs {
        let edges = m.edges(f);
        for b in &f.blocks {
            let (Some(l), Some(colon)) = (b.label, b.colon) else { continue };
            let mut inc: Vec<(String, R)> = vec![];
            for (from, r, to) in &edges {
                if *to == m.tok(l).text && !inc.contains(&(from.clone(), *r)) {
                    inc.push((from.clone(), *r));
                }
            }
            if inc.is_empty() {
                continue;
            }
            let names: Vec<&str> = inc.iter().map(|i| i.0.as_str()).collect();
            let e = m.tok(colon).r;
            want.push((
                (e.line, e.c1),
                format!("incoming: {}", names.join(", ")),
                inc.iter().map(|(n, r)| (n.clone(), c.uri.to_string(), r4(r))).collect(),
            ));
        }
        let (n, e) = (m.tok(f.name), m.tok(f.close).r);
        want.push((
            (e.line, e.c1),
            n.text.clone(),
            vec![(n.text.clone(), c.uri.to_string(), r4(&n.r))],
        ));
    }
    for (pos, text, locs) in &want {
        match got.iter_mut().find(|h| !h.used && h.pos == *pos && h.text == *text && h.locs == *locs) {
            Some(h) => h.used = true,
            None if !visible(*pos) => {}
            None => {
                let near: Vec<_> = got.iter().filter(|h| h.pos == *pos).map(|h| (&h.text, &h.locs)).collect();
                v.bad("C10", "inlay", short(format!("{} lacks the hint {:?} at {:?} with {:?}; there are {:?}", c.uri, text, pos, locs, near)));
                return;
            }
        }
    }
    // Backtraces
    for f in &m.funcs {
        for b in &f.blocks {
            for i in &b.instrs {
                let Some(d) = i.dbg else { continue };
                let Some(json) = m.annots.get(&m.tok(d).text) else { continue };
                let Some(fr) = frames(json) else { continue };
                v.eval("backtrace hints");
                let pos = (m.tok(d).r.line, m.tok(d).r.c1);
                let mut text = String::new();
                let mut rel: Option<BTreeSet<String>> = None;
                if let Some(k) = relevant(&fr) {
                    let n = fr[k].symbol.chars().count();
                    text = if n < 48 {
                        fr[k].symbol.clone()
                    } else {
                        fr[k].symbol.chars().take(48).collect::<String>() + "…"
                    };
                    text += ", ";
                    rel = Some(frame_md(&fr[k], c.roots, &c.fss));
                }
                text += "Full backtrace";
                let lines: Vec<BTreeSet<String>> = fr.iter().map(|f| frame_md(f, c.roots, &c.fss)).collect();
                let fits = |h: &H| -> bool {
                    if h.used || h.pos != pos || h.text != text {
                        return false;
                    }
                    let mut tips = h.tips.clone();
                    let Some(full) = tips.iter().position(|t| t.0 == "Full backtrace") else {
                        return false;
                    };
                    let full = tips.remove(full).1;
                    let rel_ok = match &rel {
                        None => tips.is_empty(),
                        Some(r) => tips.len() == 1 && r.contains(&tips[0].1),
                    };
                    // Symbols may contain line breaks; then only the overall shape is compared
                    let ls: Vec<&str> = if full.is_empty() { vec![] } else { full.split('\n').collect() };
                    rel_ok
                        && ls.len() == lines.len()
                        && ls.iter().zip(&lines).all(|(l, w)| l.strip_prefix("* ").map_or(false, |l| w.contains(l)))
                };
                match got.iter_mut().find(|h| fits(h)) {
                    Some(h) => h.used = true,
                    None if !visible(pos) => {}
                    None => {
                        let near: Vec<_> = got.iter().filter(|h| h.pos == pos).map(|h| (&h.text, &h.tips)).collect();
                        v.bad("C13", "backtrace", short(format!("{} lacks the backtrace hint {:?} at {:?} (relevant {:?}, lines {:?}); there are {:?}", c.uri, text, pos, rel, lines, near)));
                        return;
                    }
                }
            }
        }
    }
    if let Some(h) = got.iter().find(|h| !h.used) {
        let p = if h.text.contains("Full backtrace") { "C13" } else { "C10" };
        v.bad(p, "inlay-extra", short(format!("{} has an unfounded hint {:?} at {:?}", c.uri, h.text, h.pos)));
    }
}

// ---------------------------------------------------------------- positions

/// Are all ranges and positions within the document?
fn check_ranges(v: &mut Verdict, what: &str, uri: &str, text: &str, val: &Value) {
    // A known finding: the server takes further characters for line ends
    let odd = text.chars().any(model::is_odd_break);
    v.eval("position checks");
    if what == "publishDiagnostics" && text.contains("\r\r\n") {
        // An invalid carriage return in front of a line end is reported as the rest of that line end
        return;
    }
    let lens = model::line_lengths(text);
    let mut inside: BTreeSet<(u32, u32)> = BTreeSet::new();
    {
        let (mut l, mut c) = (0u32, 0u32);
        let mut it = text.chars().peekable();
        while let Some(ch) = it.next() {
            match ch {
                '\n' => {
                    l += 1;
                    c = 0
                }
                '\r' => {
                    if it.peek() == Some(&'\n') {
                        it.next();
                    }
                    l += 1;
                    c = 0
                }
                ch => {
                    if ch.len_utf16() == 2 {
                        inside.insert((l, c + 1));
                    }
                    c += ch.len_utf16() as u32
                }
            }
        }
    }
    let valid = |l: u32, c: u32| lens.get(l as usize).map_or(false, |n| c <= *n) && !inside.contains(&(l, c));
    fn walk(val: &Value, uri: &str, here: bool, bad: &mut Vec<String>, valid: &dyn Fn(u32, u32) -> bool) {
        match val {
            Value::Array(a) => {
                for x in a {
                    walk(x, uri, here, bad, valid)
                }
            }
            Value::Object(o) => {
                let own = o.get("targetUri").or_else(|| o.get("uri")).and_then(Value::as_str).map(|x| x == uri);
                if o.contains_key("start") && o.contains_key("end") {
                    if here {
                        let r = range(val);
                        if !valid(r.0, r.1) || !valid(r.2, r.3) || (r.0, r.1) > (r.2, r.3) {
                            bad.push(format!("range {:?}", r));
                        }
                    }
                    return;
                }
                if let (Some(l), Some(c)) = (o.get("line"), o.get("character")) {
                    if here && !valid(u(l), u(c)) {
                        bad.push(format!("position {}:{}", l, c));
                    }
                    return;
                }
                if let (Some(a), Some(b)) = (o.get("startLine"), o.get("endLine")) {
                    if !valid(u(a), 0) || !valid(u(b), 0) || u(a) > u(b) {
                        bad.push(format!("lines {}..{}", a, b));
                    }
                }
                for (k, x) in o {
                    if k == "data" || k == "arguments" {
                        continue;
                    }
                    let h = match k.as_str() {
                        "originSelectionRange" => here,
                        _ => own.unwrap_or(here),
                    };
                    walk(x, uri, h, bad, valid)
                }
            }
            _ => {}
        }
    }
    let mut bad = vec![];
    walk(val, uri, true, &mut bad, &valid);
    if let Some(b) = bad.first() {
        v.bad("C12", if odd { "range-unicode-line-breaks" } else { "range" }, short(format!("{} for {} contains the {} which is not in the document", what, uri, b)));
    }
    // Edits of one answer must not overlap
    for e in [val, &val["edit"]].into_iter().chain(val.as_array().into_iter().flatten().map(|a| &a["edit"])) {
        if let Some(es) = e.is_object().then(|| world::edits_of(e, uri)).flatten() {
            if !es.is_empty() && world::apply_edits(text, &es).is_none() {
                v.bad("C12", if odd { "edits-unicode-line-breaks" } else { "edits-overlap" }, short(format!("{} for {} has overlapping or invalid edits", what, uri)));
            }
        }
    }
}

fn check_token_ranges(v: &mut Verdict, uri: &str, text: &str, res: &Value) {
    let odd = text.chars().any(model::is_odd_break);
    let lens = model::line_lengths(text);
    let (mut l, mut s, mut end) = (0u64, 0u64, 0u64);
    let data: Vec<u64> = res["data"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(u64::MAX / 4)).collect();
    for d in data.chunks(5).filter(|d| d.len() == 5) {
        if d[0] > 0 {
            s = 0;
            end = 0;
        }
        l += d[0];
        s += d[1];
        let len = lens.get(l as usize).copied().unwrap_or(0) as u64;
        if l as usize >= lens.len() || s + d[2] > len || s < end {
            v.bad("C12", if odd { "tokens-unicode-line-breaks" } else { "token-range" }, format!("a semantic token of {} at {}:{}+{} is not in the document", uri, l, s, d[2]));
            return;
        }
        end = s + d[2];
    }
}

// -------------------------------------------------------------- diagnostics

fn quoted(msg: &str) -> Option<&str> {
    let a = msg.find('`')?;
    let b = msg[a + 1..].find('`')?;
    Some(&msg[a + 1..a + 1 + b])
}

pub fn check_diagnostics(v: &mut Verdict, uri: &str, m: &Module, diags: &Value) {
    v.eval("diagnostics publications");
    // Semantic findings: (range, symbol)
    let mut want: Vec<(Rng4, String, Option<Rng4>)> = vec![];
    for s in &m.syms {
        if s.decls.is_empty() && s.defs.is_empty() {
            for r in &s.uses {
                want.push((r4(r), s.name.clone(), None));
            }
        } else if s.defs.len() > 1 {
            for r in &s.defs[1..] {
                want.push((r4(r), s.name.clone(), Some(r4(&s.defs[0]))));
            }
        }
    }
    for f in &m.funcs {
        for b in &f.blocks {
            for i in &b.instrs {
                let t = m.tok(i.name);
                if (m.is_branch(i) || t.text == "phi") && i.refs.is_empty() {
                    want.push((r4(&t.r), t.text.clone(), None));
                }
            }
        }
    }
    let mut rest: Vec<&Value> = diags.as_array().into_iter().flatten().collect();
    for (r, name, prev) in &want {
        let hit = rest.iter().position(|d| {
            range(&d["range"]) == *r && quoted(d["message"].as_str().unwrap_or("")) == Some(name)
        });
        match hit {
            None => {
                v.bad("C04", "diagnostic-missing", short(format!("{}: nothing is reported about `{}` at {:?}; reported: {}", uri, name, r, diags)));
                return;
            }
            Some(h) => {
                let d = rest.remove(h);
                if let Some(p) = prev {
                    let rel = &d["relatedInformation"][0]["location"];
                    if range(&rel["range"]) != *p || rel["uri"] != uri {
                        v.bad("C04", "diagnostic-related", short(format!("{}: the redefinition of `{}` refers to {} instead of {:?}", uri, name, rel, p)));
                        return;
                    }
                }
            }
        }
    }
    if let Some(d) = rest.iter().find(|d| quoted(d["message"].as_str().unwrap_or("")).is_some()) {
        v.bad("C04", "diagnostic-unfounded", short(format!("{}: unfounded diagnostic {}", uri, d)));
        return;
    }
    if m.well_formed() {
        if let Some(d) = rest.first() {
            v.bad("C04", "diagnostic-unfounded", short(format!("{}: the document is well-formed, but {} is reported", uri, d)));
        }
        return;
    }
    v.eval("diagnostics of damaged documents");
    if rest.is_empty() {
        v.bad("C04", "damage-unreported", format!("{}: the document is damaged, but no syntax error is reported", uri));
        return;
    }
    let eof = (m.lines.len() as u32 - 1, *m.lines.last().unwrap());
    let starts: Vec<(u32, u32)> = rest
        .iter()
        .map(|d| {
            let r = range(&d["range"]);
            (r.0, r.1)
        })
        .collect();
    for (l, c) in &m.lex_errors {
        // Adjacent invalid characters may be reported together; an unclosed string at the end
        // A lone carriage return is noticed at the character behind it, on the next line
        if !starts.iter().any(|s| *s == (*l, *c) || *s == eof || (s.0 == *l && s.1 >= *c) || *s == (*l + 1, 0)) {
            v.bad("C04", "damage-unreported", short(format!("{}: the invalid character at {}:{} is not reported (only {:?})", uri, l, c, starts)));
            return;
        }
    }
    // ... and nothing is reported elsewhere
    let stray = starts.iter().find(|s| {
        let lexer = m.lex_errors.iter().any(|(l, c)| (s.0 == *l && s.1 >= *c) || **s == (*l + 1, 0) || **s == eof);
        let parser = m.skipped.iter().any(|(a, b, far)| {
            let from = m.tok(*a).r;
            let b = *b.max(far);
            let to = if b < m.toks.len() { (m.tok(b).r.line, m.tok(b).r.c0) } else { eof };
            **s >= (from.line, from.c0) && **s <= to
        });
        !lexer && !parser
    });
    if let Some(s) = stray {
        v.bad("C04", "damage-invented", short(format!("{}: an error is reported at {:?}, where the text is intact (damage: {:?} {:?})", uri, s, m.lex_errors, m.skipped)));
        return;
    }
    for (a, b, far) in &m.skipped {
        let from = m.tok(*a).r;
        let b = *b.max(far);
        let to = if b < m.toks.len() {
            let r = m.tok(b).r;
            (r.line, r.c0)
        } else {
            eof
        };
        if !starts.iter().any(|s| *s >= (from.line, from.c0) && *s <= to) {
            v.bad("C04", "damage-unreported", short(format!("{}: the damaged region {}:{} .. {:?} is not reported (only {:?})", uri, from.line, from.c0, to, starts)));
            return;
        }
    }
}

// ------------------------------------------------------------- differential

/// Order-independent form of an answer
pub fn canon(v: &Value, key: &str) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .filter(|(k, x)| !(k.as_str() == "data" && x.is_object()) && !x.is_null())
                .map(|(k, x)| (k.clone(), canon(x, k)))
                .collect(),
        ),
        Value::Array(a) => {
            let mut l: Vec<Value> = a.iter().map(|x| canon(x, "")).collect();
            if !matches!(key, "label" | "data" | "arguments" | "relatedInformation") {
                l.sort_by_key(|x| x.to_string());
            }
            Value::Array(l)
        }
        Value::String(s) if key == "message" => {
            if let Some((a, b)) = s.split_once("expected ") {
                let mut p: Vec<&str> = b.split(", ").collect();
                p.sort();
                Value::String(format!("{}expected {}", a, p.join(", ")))
            } else {
                v.clone()
            }
        }
        x => x.clone(),
    }
}

fn canon_response(r: &Value) -> Value {
    match r.get("error") {
        // Only that and how it failed counts, not the wording
        Some(e) => json!({ "error": e["code"] }),
        None => {
            let c = canon(&r["result"], "");
            if c == json!([]) {
                Value::Null
            } else {
                c
            }
        }
    }
}

// -------------------------------------------------------------- the history

pub fn legend_of(resp: &Value) -> Vec<String> {
    let p = &resp["result"]["capabilities"]["semanticTokensProvider"];
    p["legend"]["tokenTypes"]
        .as_array()
        .into_iter()
        .flatten()
        .filter_map(|t| t.as_str().map(str::to_string))
        .collect()
}

#[derive(Clone)]
struct Doc {
    text: std::rc::Rc<String>,
    unsure: bool,
    open: bool,
}

pub struct Opts {
    /// compare with freshly started servers
    pub cold: bool,
}

pub fn judge(plan: &Plan, log: &RunLog, factory: Factory, opts: &Opts) -> Verdict {
    let mut v = Verdict::default();
    let roots = roots_of(&plan.cfg);
    let mut models: BTreeMap<String, Option<std::rc::Rc<Module>>> = BTreeMap::new();
    let mut model_of = |t: &str| -> Option<std::rc::Rc<Module>> {
        models
            .entry(t.to_string())
            .or_insert_with(|| model::analyze(t).map(std::rc::Rc::new))
            .clone()
    };
    // (uri, text, file system) -> [(method, params, answer)], publication
    let mut cold: BTreeMap<(String, String, usize), (Vec<(Value, Value, String)>, Option<Value>)> = BTreeMap::new();

    v.eval("clean standard output");
    if log.stray > 0 {
        v.bad("C14", "stray-output", format!("{} bytes which belong to no message appear on the standard output", log.stray));
    }
    for (ii, inst) in log.insts.iter().enumerate() {
        let sent: Vec<(usize, &Sent)> = log.sent.iter().enumerate().filter(|s| s.1.inst == ii).collect();
        let got: Vec<&Got> = log.got.iter().filter(|g| g.inst == ii).collect();
        if let Some(f) = &inst.framing {
            for p in ["C14", "C01"] {
                v.bad(p, "malformed-output", format!("the server's output is malformed: {}", f));
            }
        }
        // Answers by id
        let mut answers: BTreeMap<String, Vec<&Got>> = BTreeMap::new();
        for g in &got {
            if g.msg.get("method").is_none() {
                answers.entry(g.msg["id"].to_string()).or_default().push(g);
            }
        }
        let mut id_uses: BTreeMap<&str, usize> = BTreeMap::new();
        for (_, s) in &sent {
            if let Some(id) = &s.id {
                *id_uses.entry(id).or_default() += 1;
            }
        }
        for (id, a) in &answers {
            let uses = id_uses.get(id.as_str()).copied().unwrap_or(0);
            if a.len() > uses {
                v.bad("C01", "surplus-answer", short(format!("{} answers to {} request(s) with id {}: {}", a.len(), uses, id, a.last().unwrap().msg)));
            }
        }
        let legend = answers
            .values()
            .flatten()
            .map(|g| legend_of(&g.msg))
            .find(|l| !l.is_empty())
            .unwrap_or_default();
        let lazy = plan.cfg.lazy_supported();

        let dead = inst.dead.clone().or_else(|| {
            (inst.done && inst.ended.is_none()).then(|| "the server exited although its input was still open".to_string())
        });
        if let (None, Some(m)) = (&dead, &inst.panicked) {
            v.bad("C05", "panic", short(format!("a panic within the server: {}", m)));
        }
        if let Some(d) = &dead {
            v.bad("C05", &format!("dead-{}", inst.dead_kind), short(format!("the server died: {}", d)));
            if matches!(&*inst.dead_kind, "stuck" | "livelock") {
                v.bad("C01", &format!("dead-{}", inst.dead_kind), short(format!("the server hangs: {}", d)));
            }
        }
        let gone = dead.is_some() || inst.crashed || inst.ended.is_some() && !inst.drained;

        // ---- walk through what the editor sent, in order
        let mut docs: BTreeMap<String, Doc> = BTreeMap::new();
        let mut texts_at: BTreeMap<usize, (String, std::rc::Rc<String>, bool)> = BTreeMap::new();
        let mut pubs: BTreeMap<String, Vec<(i64, Option<std::rc::Rc<String>>, usize)>> = BTreeMap::new();
        let mut any_init = false;
        let mut inits = 0;
        let mut exit_sent = false;
        for (si, s) in &sent {
            let m = method(s);
            let p = &s.msg["params"];
            let uri = p["textDocument"]["uri"].as_str().unwrap_or("").to_string();
            let accepted = !s.before_init && !s.after_shutdown && !exit_sent;
            let malformed = p.get("malformed").is_some();
            match m {
                _ if malformed => {}
                "textDocument/didOpen" | "textDocument/didChange" => {
                    let text = if m == "textDocument/didOpen" {
                        Some(p["textDocument"]["text"].as_str().unwrap_or("").to_string())
                    } else {
                        p["contentChanges"].as_array().and_then(|c| c.last()).and_then(|c| c["text"].as_str()).map(str::to_string)
                    };
                    let Some(text) = text else { continue };
                    if s.after_shutdown || exit_sent || (s.before_init && !any_init) {
                        // must be ignored
                        continue;
                    }
                    let text = std::rc::Rc::new(text);
                    docs.insert(
                        uri.clone(),
                        Doc {
                            text: text.clone(),
                            unsure: !accepted,
                            open: true,
                        },
                    );
                    if s.delivered.is_some() {
                        let ver = p["textDocument"]["version"].as_i64().unwrap_or(0);
                        pubs.entry(uri.clone()).or_default().push((ver, accepted.then_some(text), *si));
                    }
                }
                "textDocument/didClose" => {
                    if let Some(d) = docs.get_mut(&uri) {
                        d.open = false;
                    }
                }
                "initialize" => {
                    any_init = true;
                    inits += 1;
                }
                "exit" => exit_sent = true,
                _ => {}
            }
            let Some(id) = &s.id else { continue };
            let ans = answers.get(id).cloned().unwrap_or_default();
            let dup = id_uses.get(id.as_str()).copied().unwrap_or(0) > 1;
            v.eval("requests");
            // ---- exactly one answer
            if s.delivered.is_some() && !gone && !exit_sent {
                let n = ans.len();
                let want = id_uses.get(id.as_str()).copied().unwrap_or(1);
                if n < want {
                    v.bad("C01", "unanswered", short(format!("{} (id {}) was never answered", m, id)));
                    for pr in props_of(m, p) {
                        v.bad(pr, "unanswered", short(format!("{} (id {}) was never answered", m, id)));
                    }
                    if s.probe || s.msg["method"] != "workspace/executeCommand" {
                        v.bad("C05", "unanswered", short(format!("the server does not answer {} (id {}) any more", m, id)));
                    }
                }
            }
            if let Some(d) = &dead {
                if ans.is_empty() && s.delivered.is_some() {
                    v.bad("C01", "dead-unanswered", short(format!("{} (id {}) was not answered, the server died: {}", m, id, d)));
                    for pr in props_of(m, p) {
                        v.bad(pr, "dead-unanswered", short(format!("{} (id {}) was not answered, the server died: {}", m, id, d)));
                    }
                }
            }
            if dup || ans.len() != 1 || exit_sent {
                continue;
            }
            let g = ans[0];
            let code = g.msg["error"]["code"].as_i64();
            if g.msg.get("result").is_some() == g.msg.get("error").is_some() {
                v.bad("C01", "answer-shape", short(format!("answer with neither or both of result and error: {}", g.msg)));
                continue;
            }
            // ---- lifecycle
            if s.before_init && m != "initialize" {
                v.eval("lifecycle answers");
                let unknown = props_of(m, p).is_empty();
                if !any_init && code != Some(-32002) && !(unknown && code.is_some()) {
                    v.bad("C15", "before-init", short(format!("{} before initialize is answered {}", m, g.msg)));
                }
                continue;
            }
            if s.after_shutdown {
                v.eval("lifecycle answers");
                let unknown = props_of(m, p).is_empty() || m == "initialize";
                if code != Some(-32600) && !(unknown && code.is_some()) {
                    v.bad("C15", "after-shutdown", short(format!("{} after shutdown is answered {}", m, g.msg)));
                }
                continue;
            }
            match m {
                "initialize" => {
                    v.eval("lifecycle answers");
                    if inits > 1 {
                        if code.is_none() && !s.before_init {
                            v.bad("C15", "initialize-twice", short(format!("a second initialize is answered {}", g.msg)));
                        }
                    } else {
                        check_initialize(&mut v, plan, &g.msg);
                    }
                    continue;
                }
                "shutdown" => {
                    v.eval("lifecycle answers");
                    if code.is_some() || !g.msg["result"].is_null() {
                        v.bad("C15", "shutdown-answer", short(format!("shutdown is answered {}", g.msg)));
                    }
                    continue;
                }
                _ => {}
            }
            if s.cancelled && code == Some(-32800) {
                v.eval("cancelled requests");
                continue;
            }
            if code == Some(-32800) {
                v.bad("C01", "cancelled-unasked", short(format!("{} (id {}) was cancelled although nobody asked for it", m, id)));
                continue;
            }
            if code == Some(-32002) || code == Some(-32600) {
                v.bad("C15", "rejected", short(format!("{} (id {}) was rejected during normal operation: {}", m, id, g.msg)));
                continue;
            }
            if m == "workspace/executeCommand" {
                continue; // below
            }
            if m == "codeAction/resolve" {
                check_resolve(&mut v, log, s, g, &docs, &texts_at, &mut model_of);
                if let Some((req, _)) = s.from {
                    let u2 = log.sent[req].msg["params"]["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                    if let Some(d) = docs.get(&u2).filter(|d| d.open && !d.unsure) {
                        cold.entry((u2, d.text.to_string(), 0)).or_default().0.push((s.msg.clone(), g.msg.clone(), m.to_string()));
                    }
                }
                continue;
            }
            if !m.starts_with("textDocument/") {
                v.eval("unknown requests");
                if code.is_none() {
                    v.bad("C01", "unknown-accepted", short(format!("unknown request {} is answered {}", m, g.msg)));
                }
                continue;
            }
            let Some(d) = docs.get(&uri) else {
                // never opened
                let empty = g.msg["result"].is_null() || g.msg["result"] == json!([]);
                if code.is_none() && !empty {
                    v.bad("C02", "unknown-document", short(format!("{} for the unknown document {} is answered {}", m, uri, g.msg)));
                }
                continue;
            };
            if !d.open || d.unsure {
                continue;
            }
            texts_at.insert(*si, (uri.clone(), d.text.clone(), false));
            if code == Some(-32602) && s.msg["params"].get("malformed").is_some() {
                continue;
            }
            let fss = fs_window(log, s.delivered.unwrap_or(s.step), g.step);
            let mo = model_of(&d.text);
            let c = Ctx {
                uri: &uri,
                text: &d.text,
                m: mo.as_deref(),
                roots: &roots,
                fss: fss.clone(),
                lazy,
                legend: &legend,
            };
            let before = v.findings.len();
            check_answer(&mut v, &c, m, p, &g.msg);
            // What is said about the intact parts of a damaged document
            if mo.as_ref().map_or(false, |m| !m.well_formed()) {
                v.eval("answers next to damage");
                let same: Vec<_> = v.findings[before..].iter().filter(|f| f.prop != "C13").map(|f| (f.class.clone(), f.msg.clone())).collect();
                for (class, msg) in same {
                    v.bad("C04", &format!("damage-spreads-{}", class), msg);
                }
            }
            check_ranges(&mut v, m, &uri, &d.text, &g.msg["result"]);
            if m == "textDocument/semanticTokens/full" {
                check_token_ranges(&mut v, &uri, &d.text, &g.msg["result"]);
            }
            let fs_dep = matches!(m, "textDocument/definition" | "textDocument/inlayHint");
            if !fs_dep || fss.len() == 1 {
                let fi = if fs_dep { log.fs.iter().position(|f| std::ptr::eq(&f.1, fss[0])).unwrap_or(0) } else { 0 };
                cold.entry((uri.clone(), d.text.to_string(), fi))
                    .or_default()
                    .0
                    .push((s.msg.clone(), g.msg.clone(), m.to_string()));
            }
        }

        // ---- publications
        let mut seen: BTreeMap<String, Vec<&Got>> = BTreeMap::new();
        for g in &got {
            if g.msg["method"] == "textDocument/publishDiagnostics" {
                seen.entry(g.msg["params"]["uri"].as_str().unwrap_or("").to_string()).or_default().push(g);
            }
        }
        for (uri, gs) in &seen {
            if !pubs.contains_key(uri) {
                v.bad("C03", "publication-surplus", short(format!("diagnostics are published for {} which was never sent", uri)));
                let _ = gs;
            }
        }
        for (uri, want) in &pubs {
            let gs = seen.get(uri).cloned().unwrap_or_default();
            if want.iter().any(|w| w.1.is_none()) {
                continue; // sent while the server was still initialising
            }
            v.eval("publication sequences");
            let versions: Vec<i64> = want.iter().map(|w| w.0).collect();
            let got_v: Vec<Option<i64>> = gs.iter().map(|g| g.msg["params"]["version"].as_i64()).collect();
            for (i, g) in gs.iter().enumerate() {
                if i >= want.len() {
                    v.bad("C03", "publication-surplus", short(format!("{}: more publications {:?} than versions {:?}", uri, got_v, versions)));
                    break;
                }
                if got_v[i] != Some(versions[i]) {
                    v.bad("C03", "publication-order", short(format!("{}: publications {:?} for versions {:?}", uri, got_v, versions)));
                    break;
                }
                let at = &log.sent[want[i].2];
                if g.step < at.delivered.unwrap_or(0) {
                    v.bad("C03", "publication-early", format!("{}: version {} was published before it was sent", uri, versions[i]));
                }
                let text = want[i].1.as_ref().unwrap();
                let ds = &g.msg["params"]["diagnostics"];
                if let Some(mo) = model_of(text) {
                    let before = v.findings.len();
                    check_diagnostics(&mut v, uri, &mo, ds);
                    // ... which also means: the publication does not describe its version
                    if let Some(f) = v.findings.get(before) {
                        let msg = format!("version {}: {}", versions[i], f.msg);
                        let class = if ds.as_array().map_or(true, |d| d.is_empty()) { "publication-empty" } else { "publication-content" };
                        v.bad("C03", class, short(msg));
                    }
                }
                check_ranges(&mut v, "publishDiagnostics", uri, text, ds);
                cold.entry((uri.clone(), text.to_string(), 0)).or_default().1 = Some(ds.clone());
            }
            if gs.len() < want.len() && !gone && !exit_sent {
                v.bad("C03", "publication-missing", short(format!("{}: publications {:?} for versions {:?}", uri, got_v, versions)));
            }
            if let (Some(d), true) = (&dead, gs.len() < want.len()) {
                for p in ["C03", "C04"] {
                    v.bad(p, "dead-publication", short(format!("{}: version {} was never diagnosed, the server died: {}", uri, versions[gs.len()], d)));
                }
            }
        }

        check_commands(&mut v, log, ii, &sent, &got, &answers, gone, dead.is_some(), &mut model_of, plan);

        // ---- the end of the process
        if inst.ended.is_some() && dead.is_none() {
            v.eval("terminations");
            if !inst.done {
                v.bad("C15", "no-termination", format!("the server does not terminate after its input ended ({:?})", log.end));
            }
        }
        // Unknown notifications of the server
        for g in &got {
            if let (Some(m), true) = (g.msg["method"].as_str(), g.msg.get("id").is_some()) {
                if m != "hyperir/showDot" && !m.starts_with("client/") && !m.starts_with("workspace/") && !m.starts_with("window/") {
                    v.bad("C09", "unknown-server-request", short(format!("the server asks for {}", m)));
                }
            }
        }
    }

    if opts.cold {
        compare_cold(&mut v, plan, log, factory, cold);
    }
    v
}

fn check_initialize(v: &mut Verdict, plan: &Plan, resp: &Value) {
    if resp.get("error").is_some() {
        v.bad("C15", "initialize-failed", short(format!("initialize is answered {}", resp)));
        return;
    }
    let c = &resp["result"]["capabilities"];
    for k in [
        "textDocumentSync",
        "semanticTokensProvider",
        "documentSymbolProvider",
        "definitionProvider",
        "declarationProvider",
        "referencesProvider",
        "foldingRangeProvider",
        "inlayHintProvider",
        "codeLensProvider",
        "renameProvider",
        "codeActionProvider",
        "executeCommandProvider",
    ] {
        if c[k].is_null() || c[k] == false {
            v.bad("C15", "capability", format!("the capability {} is not announced", k));
        }
    }
    let sync = c["textDocumentSync"].as_u64().or_else(|| c["textDocumentSync"]["change"].as_u64());
    if sync != Some(1) {
        v.bad("C15", "capability", format!("full text synchronisation is not announced: {}", c["textDocumentSync"]));
    }
    let commands = c["executeCommandProvider"]["commands"].as_array().cloned().unwrap_or_default();
    if !commands.contains(&json!("visualize-cfg")) {
        v.bad("C15", "capability", format!("the command visualize-cfg is not announced: {:?}", commands));
    }
    if c["renameProvider"]["prepareProvider"] != true {
        v.bad("C15", "capability", format!("prepareRename is not announced: {}", c["renameProvider"]));
    }
    let full = &c["semanticTokensProvider"]["full"];
    if full.is_null() || *full == false || legend_of(resp).is_empty() {
        v.bad("C15", "capability", format!("semantic tokens are not announced: {}", c["semanticTokensProvider"]));
    }
    if !c["positionEncoding"].is_null() && c["positionEncoding"] != "utf-16" {
        v.bad("C12", "encoding", format!("the position encoding {} is announced", c["positionEncoding"]));
    }
    let lazy = c["codeActionProvider"]["resolveProvider"] == true;
    if lazy != plan.cfg.lazy_supported() {
        v.bad("C15", "capability-resolve", format!("lazy resolving is announced as {} to an editor of kind {}", lazy, plan.cfg.lazy));
    }
}

#[allow(clippy::too_many_arguments)]
fn check_resolve(
    v: &mut Verdict,
    log: &RunLog,
    s: &Sent,
    g: &Got,
    docs: &BTreeMap<String, Doc>,
    texts_at: &BTreeMap<usize, (String, std::rc::Rc<String>, bool)>,
    model_of: &mut dyn FnMut(&str) -> Option<std::rc::Rc<Module>>,
) {
    let Some((req, _)) = s.from else { return };
    let Some((uri, old, _)) = texts_at.get(&req) else { return };
    let Some(doc) = docs.get(uri) else { return };
    if !doc.open || doc.unsure {
        return;
    }
    v.eval("shift answers");
    let stale = *doc.text != **old;
    let err = g.msg.get("error");
    check_ranges(v, "codeAction/resolve", uri, &doc.text, &g.msg["result"]);
    let (Some(om), Some(nm)) = (model_of(old), model_of(&doc.text)) else { return };
    let p = &log.sent[req].msg["params"]["range"]["start"];
    let Ok(Some((sym, _))) = om.symbol_at(u(&p["line"]), u(&p["character"])) else { return };
    let Some((_, start)) = model::split_number(&sym.name) else { return };
    if let Some(e) = err {
        if !stale {
            v.bad("C08", "resolve-error", short(format!("resolving the shift of `{}` failed: {}", sym.name, e)));
        }
        return;
    }
    let edit = &g.msg["result"]["edit"];
    let Some(got) = got_edits(edit, uri) else {
        v.bad("C08", "resolve-without-edit", short(format!("resolving the shift of `{}` gives {}", sym.name, g.msg)));
        return;
    };
    if !stale {
        let want = shift_edits(&nm, sym.kind, sym.func, start, 1);
        if got != want || foreign_edits(edit, uri) {
            v.bad("C08", "resolve-edits", short(format!("resolving the shift of `{}` edits {:?} instead of {:?}", sym.name, got, want)));
        }
        return;
    }
    v.eval("stale shift answers");
    // The document has changed since: the edit must still be a shift of the
    // current document, in one scope
    let n = nm.funcs.len();
    let scopes: Vec<Option<usize>> = if matches!(sym.kind, Kind::Label | Kind::Local) {
        (0..n).map(Some).collect()
    } else {
        vec![None]
    };
    let ok = got.is_empty() || scopes.iter().any(|f| shift_edits(&nm, sym.kind, *f, start, 1) == got);
    if !ok || foreign_edits(edit, uri) {
        v.bad("C08", "resolve-stale", short(format!("resolving the outdated shift of `{}` edits {:?}, which is no shift of the current text", sym.name, got)));
    }
}

/// None: this is no graph
fn dot_edges(dot: &str) -> Option<BTreeSet<(String, String)>> {
    crate::dot::edges(dot).ok()
}

#[allow(clippy::too_many_arguments)]
fn check_commands(
    v: &mut Verdict,
    log: &RunLog,
    ii: usize,
    sent: &[(usize, &Sent)],
    got: &[&Got],
    answers: &BTreeMap<String, Vec<&Got>>,
    gone: bool,
    dead: bool,
    model_of: &mut dyn FnMut(&str) -> Option<std::rc::Rc<Module>>,
    _plan: &Plan,
) {
    let _ = (log, ii);
    let mut shown: Vec<(&Got, bool)> = got
        .iter()
        .filter(|g| g.msg["method"] == "hyperir/showDot")
        .map(|g| (*g, false))
        .collect();
    // The text at each point
    let mut docs: BTreeMap<String, (String, bool)> = BTreeMap::new();
    struct Want {
        func: String,
        edges: Option<BTreeSet<(String, String)>>,
        must: bool,
        sent: u64,
    }
    let mut wants: Vec<Want> = vec![];
    let mut early: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    for (_, s) in sent {
        let m = method(s);
        let p = &s.msg["params"];
        let uri = p["textDocument"]["uri"].as_str().unwrap_or("").to_string();
        match m {
            _ if p.get("malformed").is_some() => {}
            "textDocument/didOpen" => {
                docs.insert(uri, (p["textDocument"]["text"].as_str().unwrap_or("").into(), !s.before_init && !s.after_shutdown));
            }
            "textDocument/didChange" => {
                if let Some(t) = p["contentChanges"].as_array().and_then(|c| c.last()).and_then(|c| c["text"].as_str()) {
                    docs.insert(uri, (t.into(), !s.before_init && !s.after_shutdown));
                }
            }
            "textDocument/didClose" => {
                docs.remove(&uri);
            }
            _ => {}
        }
        let Some(c) = &s.cfg else { continue };
        if s.before_init || s.after_shutdown {
            continue;
        }
        v.eval("control flow commands");
        let id = s.id.clone().unwrap_or_default();
        let unique = sent.iter().filter(|x| x.1.id.as_deref() == Some(&id)).count() == 1;
        let ans = answers.get(&id).and_then(|a| a.first());
        let code = ans.map(|a| a.msg["error"]["code"].as_i64());
        let doc = docs.get(&c.uri);
        let mo = doc.and_then(|d| model_of(&d.0));
        let known: Option<bool> = match (doc, &mo) {
            (None, _) => Some(false),
            (Some((_, false)), _) => None,
            (Some(_), Some(mo)) => Some(mo.funcs.iter().any(|f| mo.tok(f.name).text == c.func)),
            _ => None,
        };
        match known {
            Some(false) => {
                if doc.is_none() && sent.iter().any(|x| x.1.msg["params"]["textDocument"]["uri"] == c.uri.as_str()) {
                    // closed: what a server still knows about it is not fixed
                    wants.push(Want { func: c.func.clone(), edges: None, must: false, sent: s.step });
                    continue;
                }
                if unique && ans.is_some() && code == Some(None) {
                    v.bad("C09", "cfg-unknown", short(format!("visualize-cfg of the unknown {} succeeds", c.func)));
                }
            }
            k => {
                let edges = mo.as_ref().filter(|_| k == Some(true)).map(|mo| {
                    let f = mo.funcs.iter().find(|f| mo.tok(f.name).text == c.func).unwrap();
                    mo.edges(f).into_iter().map(|(a, _, b)| (a, b)).collect::<BTreeSet<_>>()
                });
                let must = k == Some(true) && !s.cancelled && !gone && s.delivered.is_some();
                wants.push(Want {
                    func: c.func.clone(),
                    edges,
                    must,
                    sent: s.step,
                });
                if k != Some(true) || s.cancelled || !unique {
                    continue;
                }
                let Some(a) = ans else { continue };
                match c.reply {
                    Reply::Ok | Reply::Twice | Reply::UnknownFirst => {
                        if code != Some(None) || !a.msg["result"].is_null() {
                            v.bad("C09", "cfg-answer", short(format!("visualize-cfg of {} is answered {} although the editor showed the graph", c.func, a.msg)));
                        }
                    }
                    Reply::Err => {
                        if code == Some(None) {
                            v.bad("C09", "cfg-answer", short(format!("visualize-cfg of {} succeeds although the editor reported an error", c.func)));
                        }
                    }
                    _ => {}
                }
                early.entry(c.func.clone()).or_default().push(a.step);
            }
        }
    }
    // The n-th answer about a function follows the n-th reaction of the editor
    for (func, mut at) in early {
        at.sort();
        let mut replied: Vec<u64> = sent.iter().filter_map(|x| x.1.cfg.as_ref()).filter(|c| c.func == func).filter_map(|c| c.replied).collect();
        replied.sort();
        if (0..at.len()).any(|i| replied.get(i).map_or(true, |r| *r > at[i])) {
            v.bad("C09", "cfg-early", short(format!("visualize-cfg of {} was answered before the editor reacted", func)));
        }
    }
    // Match graphs and commands: exact ones first
    let fits = |w: &Want, g: &Got| -> bool {
        let t = g.msg["params"]["title"].as_str().unwrap_or("");
        let named = world::names(t, &w.func);
        let e = dot_edges(g.msg["params"]["dotGraph"].as_str().unwrap_or(""));
        named && g.step >= w.sent && e.is_some() && w.edges.as_ref().map_or(true, |x| Some(x) == e.as_ref())
    };
    let mut order: Vec<usize> = (0..wants.len()).collect();
    order.sort_by_key(|i| (!wants[*i].must, wants[*i].edges.is_none(), *i));
    for i in order {
        let w = &wants[i];
        match shown.iter_mut().find(|(g, used)| !used && fits(w, g)) {
            Some(x) => x.1 = true,
            None => {
                if w.must {
                    let near: Vec<String> = shown
                        .iter()
                        .filter(|x| !x.1)
                        .map(|x| format!("{} {:?}", x.0.msg["params"]["title"], dot_edges(x.0.msg["params"]["dotGraph"].as_str().unwrap_or(""))))
                        .collect();
                    v.bad("C09", "cfg-graph", short(format!("no graph of {} with the edges {:?} was shown; shown: {:?}", w.func, w.edges, near)));
                    return;
                }
            }
        }
    }
    if let Some(x) = shown.iter().find(|x| !x.1) {
        if !dead {
            v.bad("C09", "cfg-graph-surplus", short(format!("an unfounded graph was shown: {}", x.0.msg)));
        }
    }
}

// ------------------------------------------------------------ cold servers

fn compare_cold(
    v: &mut Verdict,
    plan: &Plan,
    log: &RunLog,
    factory: Factory,
    groups: BTreeMap<(String, String, usize), (Vec<(Value, Value, String)>, Option<Value>)>,
) {
    for ((uri, text, fi), (reqs, publ)) in groups {
        let mut cfg = plan.cfg.clone();
        cfg.hash_seed = plan.cfg.hash_seed.wrapping_mul(31).wrapping_add(77);
        cfg.end = End::Keep;
        cfg.frag = 0;
        cfg.max_read = 0;
        cfg.max_write = 0;
        cfg.credit = 0;
        cfg.window = 1000;
        cfg.header = 0;
        cfg.patient = true;
        cfg.uris = vec![uri.clone()];
        cfg.fs = log.fs[fi]
            .1
            .iter()
            .map(|(k, n)| {
                (
                    k.clone(),
                    match n {
                        Node::File => 'f',
                        Node::Dir => 'd',
                        Node::Denied => 'x',
                        Node::IoError => 'e',
                    },
                )
            })
            .collect();
        let mut ops = vec![
            Op::Init,
            Op::Open {
                doc: 0,
                text: text.clone(),
                version: 1,
            },
        ];
        for (req, _, m) in &reqs {
            ops.push(Op::Raw {
                method: m.clone(),
                params: req["params"].clone(),
                id: true,
            });
        }
        let p = Plan {
            seed: 0,
            profile: "cold".into(),
            cfg,
            ops,
            choices: Some(vec![]),
        };
        let l = world::run(&p, factory);
        if l.insts.iter().any(|i| i.dead.is_some()) {
            continue; // the same crash without any history is not about history
        }
        for (k, (req, got, m)) in reqs.iter().enumerate() {
            let Some(id) = l.sent.iter().find(|s| s.op == k + 2 && s.id.is_some()).and_then(|s| s.id.clone()) else { continue };
            let Some(ans) = l.got.iter().find(|g| g.msg.get("method").is_none() && g.msg["id"].to_string() == id) else { continue };
            v.eval("answers compared with a fresh server");
            let (a, b) = (canon_response(got), canon_response(&ans.msg));
            if a != b {
                v.bad(
                    "C02",
                    &format!("history-dependent-{}", m.rsplit('/').next().unwrap_or(m)),
                    short(format!("{} {} is answered {} but a fresh server which only knows this text answers {}", m, req["params"], a, b)),
                );
                return;
            }
        }
        if let Some(ds) = publ {
            let fresh = l.got.iter().find(|g| g.msg["method"] == "textDocument/publishDiagnostics");
            if let Some(f) = fresh {
                v.eval("publications compared with a fresh server");
                let (a, b) = (canon(&ds, ""), canon(&f.msg["params"]["diagnostics"], ""));
                if a != b {
                    v.bad("C02", "history-dependent-diagnostics", short(format!("diagnostics {} differ from those of a fresh server: {}", a, b)));
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- transport

/// The observable results of a run, without their timing: answers by request
/// order, publications by document, graphs.
fn results(log: &RunLog) -> BTreeMap<String, Vec<Value>> {
    let mut out: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for s in log.sent.iter().filter(|s| s.id.is_some()) {
        let a = log
            .got
            .iter()
            .find(|g| g.inst == s.inst && g.msg.get("method").is_none() && Some(g.msg["id"].to_string()) == s.id);
        out.entry("answers".into()).or_default().push(match a {
            Some(a) => json!([method(s), canon_response(&a.msg)]),
            None => json!([method(s), "none"]),
        });
    }
    for g in &log.got {
        if g.msg["method"] == "textDocument/publishDiagnostics" {
            let k = format!("publications for {}", g.msg["params"]["uri"]);
            out.entry(k).or_default().push(canon(&g.msg["params"], ""));
        } else if g.msg["method"] == "hyperir/showDot" {
            // The order of edges means nothing
            let mut ps = g.msg["params"].clone();
            if let Some(d) = ps["dotGraph"].as_str() {
                let mut lines: Vec<&str> = d.split('\n').collect();
                lines.sort_unstable();
                ps["dotGraph"] = json!(lines);
            }
            out.entry("graphs".into()).or_default().push(ps);
        }
    }
    if let Some(g) = out.get_mut("graphs") {
        g.sort_by_key(|x| x.to_string());
    }
    out
}

/// Same operations, but a perfect transport and a purely sequential schedule.
pub fn compare_transport(v: &mut Verdict, plan: &Plan, log: &RunLog, factory: Factory) {
    let mut p = plan.clone();
    p.choices = Some(vec![]);
    p.cfg.hash_seed = p.cfg.hash_seed.wrapping_mul(31).wrapping_add(78);
    p.cfg.frag = 0;
    p.cfg.max_read = 0;
    p.cfg.max_write = 0;
    p.cfg.credit = 0;
    p.cfg.header = 0;
    let smooth = world::run(&p, factory);
    let wire = |l: &RunLog| -> Vec<Value> { l.sent.iter().filter(|s| s.msg.get("method").is_some()).map(|s| s.msg.clone()).collect() };
    if wire(log) != wire(&smooth) || log.overrun {
        return;
    }
    v.eval("runs compared with a perfect transport");
    let (a, b) = (results(log), results(&smooth));
    if a != b {
        for (k, x) in &b {
            let y = a.get(k).cloned().unwrap_or_default();
            if y != *x {
                let i = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)).unwrap_or(0);
                v.bad(
                    "C14",
                    "transport-dependent",
                    short(format!("{} #{}: {:?} with this transport, {:?} with a perfect one", k, i, y.get(i), x.get(i))),
                );
                return;
            }
        }
        v.bad("C14", "transport-dependent", short(format!("surplus output: {:?}", a.keys().filter(|k| !b.contains_key(*k)).collect::<Vec<_>>())));
    }
}

// ----------------------------------------------------------- known findings

/// The histories of known findings: (key, property, class of the violation,
/// the instances of the server it explains). A violation counts as known only if
/// the file `known-findings.txt` lists the key too; nothing is added at run time.
fn explained(log: &RunLog, key: &str, ii: usize) -> bool {
    let sent: Vec<&Sent> = log.sent.iter().filter(|s| s.inst == ii && s.delivered.is_some()).collect();
    match key {
        // Any message which reaches the server behind `exit` and before the end of input
        "message-after-exit" => match sent.iter().position(|s| method(s) == "exit") {
            Some(k) => k + 1 < sent.len(),
            None => false,
        },
        // The input ends while a visualize-cfg command waits for the editor
        "end-while-showing" => sent.iter().any(|s| {
            // an id may be in use twice
            let answers = log
                .got
                .iter()
                .filter(|g| g.inst == ii && g.msg.get("method").is_none() && Some(g.msg["id"].to_string()) == s.id)
                .count();
            let uses = sent.iter().filter(|x| x.id == s.id).count();
            s.cfg.is_some() && answers < uses
        }),
        // The input ends while publications (or the greeting) wait for an editor which does not read: at least two
        // were outstanding at the end of the input, and not all of them ever arrived
        "end-while-publishing" => {
            let Some(ended) = log.insts[ii].ended else { return false };
            // after `exit` nothing is sent any more, either
            let exit = sent.iter().find(|s| method(s) == "exit").and_then(|s| s.delivered);
            let ended = ended.min(exit.unwrap_or(ended));
            let pubs: Vec<u64> = log
                .got
                .iter()
                .filter(|g| g.inst == ii && (g.msg["method"] == "textDocument/publishDiagnostics" || g.msg["method"] == "window/logMessage"))
                .map(|g| g.step)
                .collect();
            let accepted = sent
                .iter()
                .skip_while(|s| method(s) != "initialize")
                .filter(|s| match method(s) {
                    // answered by a log message
                    "initialized" => true,
                    "textDocument/didOpen" => true,
                    "textDocument/didChange" => s.msg["params"]["contentChanges"].as_array().map_or(false, |c| !c.is_empty()),
                    _ => false,
                })
                .filter(|s| !s.after_shutdown)
                .count();
            accepted >= 2 + pubs.iter().filter(|s| **s <= ended).count() && accepted > pubs.len()
        }
        // At least four visualize-cfg commands got no answer, and at least 96 further messages were sent behind the
        // fourth of them before the editor replied to any of the commands' questions
        "messages-behind-commands" => {
            let waiting: Vec<usize> = (0..sent.len())
                .filter(|i| {
                    sent[*i].cfg.is_some()
                        && !log.got.iter().any(|g| g.inst == ii && g.msg.get("method").is_none() && Some(g.msg["id"].to_string()) == sent[*i].id)
                })
                .collect();
            waiting.len() >= 4 && {
                let behind = &sent[waiting[3] + 1..];
                let replied = behind.iter().position(|s| s.msg.get("method").is_none()).unwrap_or(behind.len());
                replied >= 96
            }
        }
        _ => false,
    }
}

pub fn known(_plan: &Plan, log: &RunLog, f: &Finding) -> Option<&'static str> {
    if f.prop == "C12" && f.class.ends_with("unicode-line-breaks") {
        return known_findings(f.prop).iter().map(|k| k.0).find(|k| *k == "unicode-line-breaks");
    }
    if f.prop == "C01" && f.class == "unanswered" && log.insts.len() == 1 && explained(log, "messages-behind-commands", 0) {
        return known_findings(f.prop).iter().map(|k| k.0).find(|k| *k == "messages-behind-commands");
    }
    if f.prop != "C15" || f.class != "no-termination" {
        return None;
    }
    let listed: Vec<&'static str> = known_findings(f.prop).iter().map(|k| k.0).collect();
    let mut hanging = log.insts.iter().enumerate().filter(|(_, i)| i.ended.is_some() && !i.done && i.dead.is_none()).peekable();
    hanging.peek()?;
    let mut key = None;
    for (ii, _) in hanging {
        key = Some(*listed.iter().find(|k| explained(log, k, ii))?);
    }
    key
}

/// (key, description) of the known findings of a property, as committed
pub fn known_findings(prop: &str) -> &'static [(&'static str, &'static str)] {
    use std::sync::OnceLock;
    static ALL: OnceLock<Vec<(String, &'static [(&'static str, &'static str)])>> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        let root = std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into());
        let text = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
        let mut by: BTreeMap<String, Vec<(&'static str, &'static str)>> = BTreeMap::new();
        for l in text.lines().filter_map(|l| l.strip_prefix("finding: property=")) {
            let mut w = l.splitn(3, ' ');
            if let (Some(p), Some(k), Some(t)) = (w.next(), w.next().and_then(|k| k.strip_prefix("key=")), w.next()) {
                by.entry(p.into()).or_default().push((Box::leak(k.to_string().into_boxed_str()), Box::leak(t.to_string().into_boxed_str())));
            }
        }
        by.into_iter().map(|(p, v)| (p, &*Box::leak(v.into_boxed_slice()))).collect()
    });
    all.iter().find(|a| a.0 == prop).map_or(&[], |a| a.1)
}
