//! Plans from seeds: what the simulated editor does, and in which world.
use crate::gen::{self, Style};
use crate::plan::*;
use crate::rng::{mix, Hash, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const PROPS: [&str; 15] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
];

pub fn seed_of(base: u64, profile: &str, index: u64) -> u64 {
    mix(mix(base, Hash::of(profile.as_bytes())), index)
}

const PATHS: [&str; 14] = [
    "a.cpp",
    "src/sp ace.cpp",
    "src/größe.cpp",
    "src/x#1.cpp",
    "src/100%.cpp",
    "src/q?y.cpp",
    "hyper/ircode/e.cpp",
    "src/a.cpp",
    "src/b.cpp",
    "src/only1.cpp",
    "src/dir/d.cpp",
    "hyper/ir/Builder.cpp",
    "hyper/codegen/Gen.cpp",
    "win/path/c.cpp",
];
const ROOTS: [&str; 6] = ["/simfs/root1", "/simfs/root2", "/simfs/sp ace", "/simfs/Root1", "/simfs/root1/sub", "/simfs/ä#1"];

fn fs_path(r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!("{}/src", r.pick(&ROOTS)),
        1 => r.pick(&ROOTS).to_string(),
        _ => format!("{}/{}", r.pick(&ROOTS), r.pick(&PATHS)),
    }
}

/// What is likely in a profile
struct Mix {
    reqs: Vec<(Req, u32)>,
    change: u32,
    req: u32,
    resolve: u32,
    forge: u32,
    apply: u32,
    cfg: u32,
    cancel: u32,
    raw: u32,
    dup: u32,
    fs: u32,
    crash: u32,
    close: u32,
    sync: u32,
    sleep: u32,
    /// chance of a damaging edit, in percent
    damage: usize,
    docs: usize,
    len: (usize, usize),
}

fn mix_of(p: &str, r: &mut Rng) -> Mix {
    use Req::*;
    let all = vec![
        (Definition, 2),
        (Declaration, 2),
        (References, 2),
        (PrepareRename, 2),
        (Rename, 3),
        (CodeAction, 3),
        (Symbols, 2),
        (Folding, 2),
        (Inlay, 2),
        (Lens, 2),
        (Tokens, 2),
    ];
    let mut m = Mix {
        reqs: all,
        change: 20,
        req: 50,
        resolve: 3,
        forge: 0,
        apply: 2,
        cfg: 4,
        cancel: 3,
        raw: 2,
        dup: 1,
        fs: 1,
        crash: 1,
        close: 2,
        sync: 4,
        sleep: 1,
        damage: 20,
        docs: 1 + r.below(3),
        len: (4, 30),
    };
    match p {
        "C01" => {
            m.cfg = 14;
            m.cancel = 8;
            m.dup = 3;
            m.raw = 5;
            m.change = 25;
        }
        "C02" => {
            m.change = 35;
            m.crash = 2;
            m.len = (4, 22);
        }
        "C03" => {
            m.change = 70;
            m.req = 12;
            m.cfg = 6;
            m.close = 4;
            m.len = (5, 35);
        }
        "C04" => {
            m.change = 70;
            m.req = 25;
            m.damage = 45;
            m.len = (3, 14);
        }
        "C05" => {
            m.raw = 14;
            m.damage = 45;
            m.cancel = 6;
            m.dup = 3;
            m.cfg = 8;
            m.forge = 6;
            m.crash = 0;
            m.len = (5, 30);
        }
        "C06" => m.reqs = vec![(Definition, 3), (Declaration, 2), (References, 3)],
        "C07" => {
            m.reqs = vec![(PrepareRename, 1), (Rename, 3)];
            m.apply = 10;
        }
        "C08" => {
            m.reqs = vec![(CodeAction, 3), (Rename, 1)];
            m.resolve = 25;
            m.apply = 10;
        }
        "C09" => {
            m.cfg = 45;
            m.req = 12;
            m.cancel = 6;
        }
        "C10" => m.reqs = vec![(Symbols, 3), (Folding, 3), (Inlay, 3), (Lens, 2)],
        "C11" => m.reqs = vec![(Tokens, 1)],
        "C12" => {
            m.change = 30;
            m.damage = 35;
        }
        "C13" => {
            m.reqs = vec![(Definition, 3), (Inlay, 2)];
            m.fs = 16;
        }
        "C14" => {
            m.resolve = 0;
            m.apply = 0;
            m.cancel = 0;
            m.crash = 0;
            m.dup = 0;
            m.fs = 0;
            m.sleep = 0;
            m.cfg = 8;
            m.len = (4, 24);
        }
        "C15" => {
            m.req = 25;
            m.len = (0, 10);
            m.crash = 2;
        }
        _ => {}
    }
    if matches!(p, "C06" | "C07" | "C08" | "C10" | "C11" | "C13") {
        m.cancel = 1;
        m.cfg = 2;
        m.len = (4, 24);
    }
    // Swarm: leave out some of the kinds
    if p != "C15" {
        for k in [&mut m.cancel, &mut m.raw, &mut m.dup, &mut m.sleep, &mut m.close, &mut m.crash] {
            if r.chance(1, 3) {
                *k = 0;
            }
        }
        if !matches!(p, "C09") && r.chance(1, 3) {
            m.cfg = 0;
        }
        if p != "C13" && r.chance(1, 2) {
            m.fs = 0;
        }
        if r.chance(1, 3) {
            m.damage = 0;
        }
    }
    m
}

fn new_name(r: &mut Rng, relative: usize) -> String {
    if r.chance(relative, 100) {
        return match r.below(14) {
            0 => "+".into(),
            1 => "-".into(),
            2 => "+x".into(),
            3 => "-1y".into(),
            4 => "+99999999999999999999".into(),
            5 => "-9223372036854775808".into(),
            6 => "+9223372036854775807".into(),
            7 => "+0".into(),
            8 | 9 => format!("-{}", r.below(5)),
            _ => format!("+{}", r.below(12)),
        };
    }
    if r.chance(1, 6) {
        // Anything which can be typed
        let pool: Vec<char> = " !\"#$%&'()*+,-./0123456789:;<=>?@AZ[\\]^_`az{|}~äß١²名😀\u{301}\u{0}\u{a0}\t\n\r".chars().collect();
        let n = r.below(5);
        let mut s: String = (0..n).map(|_| *r.pick(&pool)).collect();
        if r.chance(1, 4) {
            // In brackets or quotes
            let (a, b) = *r.pick(&[("`", "`"), ("\"", "\""), ("'", "'"), ("(", ")"), ("<", ">"), ("${", "}")]);
            s = format!("{}{}{}", a, s, if r.chance(1, 4) { "" } else { b });
        }
        return s;
    }
    let base = match r.below(30) {
        11 => "b:".to_string(),
        12 => "a:b".into(),
        13 => ":".into(),
        14 => "_".into(),
        15 => r.pick(&["_1", "__", "a_", "x:y:z", "A", "ß"]).to_string(),
        16 => r.pick(&["x-y", "a.b", "a\"b", "a\n", " a", "a ", "a\t", "a,b", "#x", "a#b", "a/b", "a\\b", "a'b"]).to_string(),
        17 => r.pick(&["void", "int32", "pure", "declare", "ptr", "bool", "depends", "on", "Int32"]).to_string(),
        18 => r.pick(&["0x1", "0", "007", "-1", "١٢", "a١", "x²", "½"]).to_string(),
        19 => "long_name_".repeat(r.range(3, 60)),
        20 => r.pick(&["body_0", "done", "g1", "f2", "v2", "1"]).to_string(),
        0 => "".to_string(),
        1 => "a b".into(),
        2 => "1abc".into(),
        3 => "neu_größe".into(),
        4 => "名前".into(),
        5 => "a::b".into(),
        6 => "x$".into(),
        7 => "br".into(),
        8 => "define".into(),
        9 => "42".into(),
        10 => "v1".into(),
        _ => format!("name_{}", r.below(9)),
    };
    let pre = *r.pick(&["", "", "", "%", "@", "!", "%%"]);
    format!("{}{}", pre, base)
}

fn raw(r: &mut Rng, uris: &[String]) -> Op {
    let u = json!({"uri": r.pick(uris)});
    let reqs: [(&str, Value); 22] = [
        ("foo/bar", json!({"x": 1})),
        ("textDocument/hover", json!({"textDocument": u, "position": {"line": 0, "character": 0}})),
        ("textDocument/completion", json!({"textDocument": u, "position": {"line": 0, "character": 0}})),
        ("textDocument/definition", json!({"malformed": true})),
        ("textDocument/references", Value::Null),
        ("textDocument/rename", json!({"malformed": 1, "textDocument": u})),
        ("textDocument/codeAction", json!({"malformed": 1, "textDocument": u, "range": 5})),
        ("textDocument/documentSymbol", json!({"malformed": 1, "textDocument": {"uri": "not a uri"}})),
        ("textDocument/semanticTokens/full", json!([1, 2, 3])),
        ("codeAction/resolve", json!({"title": "x"})),
        ("codeAction/resolve", json!({"title": "x", "data": 17})),
        ("codeAction/resolve", json!({"title": "x", "data": {"foo": []}})),
        ("codeAction/resolve", json!({"title": "x", "data": null, "malformed": 1})),
        ("workspace/executeCommand", json!({"command": "nope"})),
        ("workspace/executeCommand", json!({"command": "visualize-cfg"})),
        ("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": []})),
        ("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [1, 2]})),
        ("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": ["file:///nope", "@f"]})),
        ("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [u["uri"], "@f", "@g"]})),
        ("workspace/symbol", json!({"query": "x"})),
        ("textDocument/inlayHint", json!({"malformed": 1})),
        ("initialize", json!({"capabilities": {}})),
    ];
    let notes: [(&str, Value); 13] = [
        ("foo/didBar", json!({})),
        ("$/setTrace", json!({"value": "off"})),
        ("$/unknown", Value::Null),
        ("workspace/didChangeConfiguration", json!({"settings": {}})),
        ("workspace/didChangeWatchedFiles", json!({"changes": []})),
        ("workspace/didChangeWorkspaceFolders", json!({"event": {"added": [], "removed": []}})),
        ("textDocument/didSave", json!({"textDocument": u})),
        ("textDocument/willSave", json!({"textDocument": u, "reason": 1})),
        ("textDocument/didChange", json!({"malformed": 1})),
        ("textDocument/didOpen", json!({"malformed": 1, "textDocument": 5})),
        ("textDocument/didChange", json!({"malformed": 1, "textDocument": {"uri": "::", "version": 1}, "contentChanges": [{"text": "x"}]})),
        ("$/cancelRequest", json!({"id": 4711})),
        ("$/cancelRequest", json!({"id": "none"})),
    ];
    if r.chance(3, 5) {
        let (m, p) = r.pick(&reqs).clone();
        Op::Raw {
            method: m.into(),
            params: p,
            id: true,
        }
    } else {
        let (m, p) = r.pick(&notes).clone();
        Op::Raw {
            method: m.into(),
            params: p,
            id: false,
        }
    }
}

fn position(r: &mut Rng, text: &str) -> Pos {
    match r.below(12) {
        0 => {
            let lens = crate::model::line_lengths(text);
            let l = r.below(lens.len());
            Pos::Abs(l as u32, r.below(lens[l] as usize + 2) as u32)
        }
        1 => match r.below(6) {
            0 => Pos::Abs(u32::MAX, 0),
            1 => Pos::Abs(0, u32::MAX),
            2 => Pos::Abs(u32::MAX, u32::MAX),
            3 => Pos::Abs(crate::model::line_lengths(text).len() as u32, 0),
            4 => Pos::Abs(crate::model::line_lengths(text).len() as u32 - 1, 500),
            _ => Pos::Abs(r.below(50) as u32, r.below(80) as u32),
        },
        2 | 3 | 4 => Pos::Tok(r.below(4000), 4 + r.below(4) as u8),
        _ => Pos::Tok(r.below(4000), r.below(4) as u8),
    }
}

pub fn cfg(r: &mut Rng, p: &str, harsh: bool) -> Cfg {
    let mut fs = BTreeMap::new();
    if p == "C13" || r.chance(1, 2) {
        for root in ROOTS {
            if r.chance(1, 8) {
                continue; // not there (yet)
            }
            for f in PATHS {
                if r.chance(1, 2) {
                    let k = match r.below(10) {
                        0 => 'd',
                        1 => 'x',
                        2 => 'e',
                        _ => 'f',
                    };
                    fs.insert(format!("{}/{}", root, f), k);
                }
            }
        }
        if r.chance(1, 6) {
            fs.insert(fs_path(r), *r.pick(&['x', 'e', 'f', 'd']));
        }
    }
    let pool = [
        "file:///simfs/root1",
        "file:///simfs/root2/",
        "file:///simfs/sp%20ace",
        "untitled:x",
        "vscode-remote://h/p",
        // look-alikes: other scheme, other case, nested, escaped
        "vscode-remote://h/simfs/root1",
        "file:///simfs/Root1",
        "file:///simfs/root1/sub",
        "file:///simfs/%C3%A4%231",
    ];
    let pool = if r.chance(1, 2) { &pool[..5] } else { &pool[..] };
    let mut roots: Vec<String> = vec![];
    for _ in 0..r.below(4) {
        let x = r.pick(pool).to_string();
        if !roots.contains(&x) {
            roots.push(x);
        }
    }
    if roots.is_empty() && p == "C13" {
        roots.push(pool[0].into());
    }
    let root_mode = match r.below(if p == "C13" || p == "C15" { 8 } else { 4 }) {
        0 => 1,
        1 if p != "C13" || r.chance(1, 4) => 2,
        2 => 3,
        3 if r.chance(1, 2) => 4,
        _ => 0,
    };
    // Scheduler: poll, deliver, credit, reply, issue, spurious
    let w = match r.below(7) {
        0 => [10, 10, 10, 10, 10, 0],
        1 => [2, 20, 10, 10, 40, 0],  // the editor floods a slow server
        2 => [40, 20, 20, 20, 3, 1],  // the server is fast
        3 => [10, 4, 1, 5, 30, 1],    // everything queues up
        4 => [5, 10, 1, 1, 10, 2],    // the editor is slow to read and to reply
        5 => [20, 2, 20, 5, 20, 0],   // slow pipe
        _ => [1 + r.below(40) as u32, 1 + r.below(40) as u32, 1 + r.below(40) as u32, 1 + r.below(40) as u32, 1 + r.below(40) as u32, r.below(3) as u32],
    };
    let harsh = harsh || r.chance(1, 3);
    let lazy = match p {
        "C08" => *r.pick(&[0, 0, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12]),
        "C15" => r.below(13) as u8,
        _ => r.below(2) as u8,
    };
    Cfg {
        hash_seed: r.next() | 1,
        lazy,
        root_mode,
        roots,
        fs,
        w,
        frag: if harsh { r.below(4) as u8 } else { r.below(2) as u8 },
        max_read: if harsh { *r.pick(&[0, 1, 3, 17, 100, 1000]) } else { 0 },
        max_write: if harsh { *r.pick(&[0, 1, 5, 33, 500]) } else { 0 },
        credit: if harsh { *r.pick(&[0, 0, 50, 300, 2000]) } else { *r.pick(&[0, 0, 0, 3000]) },
        window: *r.pick(&[1, 3, 8, 20, 40]),
        header: if harsh { r.below(3) as u8 } else { 0 },
        ids: *r.pick(&[0, 0, 1, 2]),
        uris: match r.below(8) {
            // Different documents whose names have much in common
            2 => vec!["file:///simfs/x/a.hir".into(), "file:///simfs/y/a.hir".into(), "file:///simfs/x/A.hir".into()],
            3 => vec!["file:///simfs/a.hir".into(), "untitled:/simfs/a.hir".into(), "git:/simfs/a.hir?ref=HEAD".into()],
            4 => vec!["file:///simfs/a.hir".into(), "file:///simfs/a.hir#1".into(), "file:///simfs/a.hir?v=2".into()],
            5 => vec!["file:///simfs/a.hir".into(), "file://host/simfs/a.hir".into(), "file:///simfs/a.hir/".into()],
            0 => vec!["file:///simfs/doc%201.hir".into(), "untitled:Untitled-1".into(), "file:///simfs/c.hir".into()],
            1 => vec!["file:///simfs/%C3%A4.hir".into(), "file:///simfs/b.hir".into(), "vscode-remote://wsl/c.hir".into()],
            _ => vec!["file:///simfs/a.hir".into(), "file:///simfs/b.hir".into(), "file:///simfs/c.hir".into()],
        },
        patient: true,
        flood: false,
        end: End::Keep,
    }
}

pub fn style(r: &mut Rng, p: &str) -> Style {
    Style {
        unicode: if p == "C12" { r.chance(3, 4) } else { r.chance(1, 2) },
        crlf: r.chance(1, 4),
        sloppy: if p == "C04" { r.chance(2, 3) } else { r.chance(1, 3) },
        sources: r.chance(1, if p == "C13" { 3 } else { 8 }),
        backtraces: p == "C13" || r.chance(1, 6),
        max_funcs: r.range(1, 4),
        collide: r.chance(1, 6),
        odd_numbers: r.chance(1, if p == "C08" { 3 } else { 8 }),
        loose: r.chance(1, 5),
    }
}

pub fn plan(base: u64, p: &str, index: u64) -> Plan {
    let seed = seed_of(base, p, index);
    let mut rng = Rng::new(seed ^ 0x5151);
    let r = &mut rng;
    // Properties about everything the server does look at all kinds of sessions
    let q = match p {
        "C01" | "C02" | "C03" | "C05" | "C12" | "C14" if r.chance(1, 2) => {
            *r.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"])
        }
        _ => p,
    };
    let mut cfg = cfg(r, q, p == "C14");
    let mut m = mix_of(q, r);
    let st = style(r, q);
    match p {
        "C02" => {
            m.len = (4, 22);
            m.change = m.change.max(30);
        }
        "C05" => m.crash = 0,
        "C14" => {
            for x in [&mut m.resolve, &mut m.forge, &mut m.apply, &mut m.cancel, &mut m.crash, &mut m.dup, &mut m.fs, &mut m.sleep] {
                *x = 0;
            }
            m.len = (4, 24);
        }
        _ => {}
    }
    // Now and then a lot of documents
    if !matches!(p, "C14" | "C15") && r.chance(1, 50) {
        m.docs = r.range(4, 40);
        cfg.uris.extend((3..m.docs).map(|i| format!("file:///simfs/d{}/{}.hir", i % 5, i)));
    }
    let m = m;
    let mut ops = vec![];
    let nd = cfg.uris.len();
    let mut texts: Vec<Option<String>> = vec![None; nd];
    let mut ver = vec![0i32; nd];
    let mut n = r.range(m.len.0, m.len.1);
    if r.chance(1, 8) {
        n = n / 4 + 1;
    } else if r.chance(1, 60) {
        n *= 5;
    } else if r.chance(1, 500) {
        n *= 20;
    }
    let mut past: Vec<String> = vec![];

    if p == "C15" {
        // Traffic before `initialize`
        for _ in 0..(if r.chance(1, 2) { r.below(4) } else { 0 }) {
            let t = gen::module(r, &st);
            ops.push(match r.below(5) {
                0 => Op::Open {
                    doc: 0,
                    text: t,
                    version: 1,
                },
                1 => raw(r, &cfg.uris),
                2 => Op::Raw {
                    method: "shutdown".into(),
                    params: Value::Null,
                    id: true,
                },
                3 => Op::Cfg {
                    doc: 0,
                    func: "@f".into(),
                    nth: 0,
                    reply: Reply::Ok,
                    delay: 0,
                },
                _ => Op::Req {
                    doc: 0,
                    kind: Req::Symbols,
                    pos: Pos::Abs(0, 0),
                    arg: String::new(),
                },
            });
        }
        ops.retain(|o| !matches!(o, Op::Raw { method, .. } if method == "initialize"));
        cfg.patient = !r.chance(1, 4);
    }
    ops.push(Op::Init);
    for d in 0..m.docs {
        if d == 0 || r.chance(2, 3) {
            let t = if r.chance(1, 12) { String::new() } else { gen::module(r, &st) };
            let t = if r.chance(m.damage, 100) { gen::edit(r, &st, &t, true) } else { t };
            ver[d] = *r.pick(&[1, 1, 1, 1, 0, 0, -5, -5, 100, 100, 70_000, 2_000_000_000]);
            texts[d] = Some(t.clone());
            ops.push(Op::Open {
                doc: d,
                text: t,
                version: ver[d],
            });
        }
    }
    let ws = [
        m.change, m.req, m.resolve, m.apply, m.cfg, m.cancel, m.raw, m.dup, m.fs, m.crash, m.close, m.sync, m.sleep, m.forge,
    ];
    for _ in 0..n {
        let d = r.below(m.docs);
        let k = r.weighted(&ws);
        match k {
            0 => {
                let next = |r: &mut Rng, v: i32| match r.below(150) {
                    0..=9 => v.saturating_sub(3),
                    10 => *r.pick(&[i32::MIN, i32::MAX - 1000, 0, -1]),
                    _ => v.saturating_add(1 + r.below(3) as i32),
                };
                let dmg = r.chance(m.damage, 100);
                match texts[d].clone() {
                    None => {
                        let t = gen::module(r, &st);
                        ver[d] = next(r, ver[d]);
                        texts[d] = Some(t.clone());
                        ops.push(Op::Open {
                            doc: d,
                            text: t,
                            version: ver[d],
                        });
                    }
                    Some(t) => {
                        let mut list = vec![];
                        let count = match r.below(14) {
                            0 => 0,
                            1 | 2 => 2,
                            3 => 3,
                            _ => 1,
                        };
                        let mut cur = t;
                        for _ in 0..count {
                            let steps = 1 + r.below(2);
                            for _ in 0..steps {
                                past.push(cur.clone());
                                cur = match r.below(30) {
                                    // Undo, or the text of another document
                                    0 | 1 => r.pick(&past).clone(),
                                    2 => texts[r.below(nd)].clone().unwrap_or(cur),
                                    3 => cur,
                                    _ => gen::edit(r, &st, &cur, dmg),
                                };
                            }
                            list.push(cur.clone());
                        }
                        ver[d] = next(r, ver[d]);
                        if count > 0 {
                            texts[d] = Some(cur);
                        }
                        ops.push(Op::Change {
                            doc: d,
                            version: ver[d],
                            texts: list,
                        });
                        // A document reopened without having been closed
                        if r.chance(1, 25) {
                            let t = gen::module(r, &st);
                            texts[d] = Some(t.clone());
                            ver[d] = next(r, ver[d]);
                            ops.push(Op::Open {
                                doc: d,
                                text: t,
                                version: ver[d],
                            });
                        }
                    }
                }
            }
            1 => {
                // Now and then about a document which nobody opened
                let d = if r.chance(1, 30) { 2 } else { d };
                let kws: Vec<u32> = m.reqs.iter().map(|x| x.1).collect();
                let kind = m.reqs[r.weighted(&kws)].0;
                let text = texts[d].clone().unwrap_or_default();
                let rel = if q == "C08" { 90 } else if q == "C07" { 0 } else { 35 };
                let arg = match kind {
                    Req::Rename => new_name(r, rel),
                    Req::References if r.chance(1, 2) => "decl".into(),
                    Req::CodeAction if r.chance(1, 8) => "range".into(),
                    Req::Inlay if r.chance(1, 5) => {
                        let n = crate::model::line_lengths(&text).len();
                        let end = |r: &mut Rng, more: usize| match r.below(12) {
                            0 => format!("{}.{}", u32::MAX, u32::MAX),
                            1 => format!("{}.{}", r.below(n + more), u32::MAX),
                            2 => format!("{}.0", u32::MAX),
                            3 => format!("{}.{}", i32::MAX, i32::MAX),
                            4 | 5 | 6 => format!("{}.{}", r.below(n + more), r.below(40)),
                            _ => format!("{}.0", r.below(n + more)),
                        };
                        let a = if r.chance(1, 2) { "0.0".to_string() } else { end(r, 1) };
                        format!("{}-{}", a, end(r, 3))
                    }
                    _ => String::new(),
                };
                ops.push(Op::Req {
                    doc: d,
                    kind,
                    pos: position(r, &text),
                    arg,
                });
                if kind == Req::CodeAction && r.chance(m.resolve.min(20) as usize, 40) {
                    if r.chance(1, 3) {
                        if let Some(t) = texts[d].clone() {
                            let cur = gen::edit(r, &st, &t, false);
                            texts[d] = Some(cur.clone());
                            ver[d] = ver[d].saturating_add(1);
                            ops.push(Op::Change {
                                doc: d,
                                version: ver[d],
                                texts: vec![cur],
                            });
                        }
                    }
                    ops.push(Op::Resolve { back: 0 });
                }
            }
            2 => ops.push(Op::Resolve { back: r.below(3) }),
            3 => {
                ver[d] = ver[d].saturating_add(1);
                ops.push(Op::Apply {
                    back: r.below(2),
                    version: ver[d],
                })
            }
            4 => {
                let reply = match r.below(12) {
                    0 => Reply::Err,
                    1 => Reply::Null,
                    2 if p != "C14" => Reply::Never,
                    3 => Reply::Twice,
                    4 => Reply::UnknownFirst,
                    _ => Reply::Ok,
                };
                ops.push(Op::Cfg {
                    doc: d,
                    func: if r.chance(1, 5) {
                        r.pick(&[
                            "@nope", "@", "x", "@func1", "~bare", "~bare", "~longer", "~shorter", "~upper", "~blank", "~declared", "~global",
                            "~label", "~other",
                        ])
                        .to_string()
                    } else {
                        String::new()
                    },
                    nth: r.below(5),
                    reply,
                    delay: if p == "C14" { 0 } else { *r.pick(&[0, 0, 1, 3, 8]) },
                });
            }
            5 => ops.push(Op::Cancel { back: r.below(4) }),
            6 => ops.push(raw(r, &cfg.uris)),
            7 => ops.push(Op::DupId),
            8 => {
                let node = match r.below(8) {
                    0 | 1 | 2 => None,
                    3 => Some('x'),
                    4 => Some('e'),
                    5 => Some('d'),
                    _ => Some('f'),
                };
                ops.push(Op::Fs { path: fs_path(r), node })
            }
            9 => ops.push(Op::Crash),
            10 => {
                if texts[d].is_some() {
                    texts[d] = None;
                    ops.push(Op::Close { doc: d });
                    if r.chance(2, 3) {
                        let t = gen::module(r, &st);
                        ver[d] = 1;
                        texts[d] = Some(t.clone());
                        ops.push(Op::Open {
                            doc: d,
                            text: t,
                            version: 1,
                        });
                    }
                }
            }
            11 => ops.push(Op::Sync),
            13 => {
                if r.chance(1, 2) {
                    ops.push(Op::Req {
                        doc: d,
                        kind: Req::CodeAction,
                        pos: position(r, &texts[d].clone().unwrap_or_default()),
                        arg: String::new(),
                    });
                }
                ops.push(Op::Forge {
                    back: r.below(3),
                    salt: r.next(),
                })
            }
            _ => ops.push(Op::Sleep(1 + r.below(100_000) as u64)),
        }
    }
    if p == "C15" {
        match r.below(5) {
            0 => {
                // Traffic after `shutdown`
                ops.push(Op::Shutdown);
                for _ in 0..1 + r.below(4) {
                    ops.push(match r.below(4) {
                        0 => raw(r, &cfg.uris),
                        1 => Op::Change {
                            doc: 0,
                            version: 900,
                            texts: vec![gen::module(r, &st)],
                        },
                        2 => Op::Shutdown,
                        _ => Op::Req {
                            doc: 0,
                            kind: Req::Symbols,
                            pos: Pos::Abs(0, 0),
                            arg: String::new(),
                        },
                    });
                }
                if r.chance(1, 2) {
                    ops.push(Op::Sync);
                    ops.push(Op::Exit);
                }
            }
            1 => {
                // `exit` without `shutdown`
                ops.push(Op::Sync);
                ops.push(Op::Exit);
            }
            _ => {}
        }
        cfg.end = *r.pick(&[End::Clean, End::Clean, End::Eof, End::Eof, End::EofBusy, End::EofMidFrame, End::BrokenPipe, End::ReadError]);
    }
    // Now and then one thing again and again, more often than fits into a byte
    if r.chance(1, 120) {
        let small = |t: &str| t.len() < 600;
        let can: Vec<usize> = (0..ops.len())
            .filter(|i| match &ops[*i] {
                Op::Open { text, .. } => small(text),
                Op::Change { texts, .. } => texts.iter().all(|t| small(t)),
                Op::Req { .. } | Op::Raw { .. } | Op::Fs { .. } | Op::Forge { .. } => true,
                Op::Cfg { reply, .. } => *reply != Reply::Never,
                _ => false,
            })
            .collect();
        if !can.is_empty() {
            let at = *r.pick(&can);
            let k = r.range(257, 330);
            let copies: Vec<Op> = (1..=k)
                .map(|i| match ops[at].clone() {
                    Op::Change { doc, version, texts } => Op::Change {
                        doc,
                        version: version.wrapping_add(i as i32),
                        texts,
                    },
                    o => o,
                })
                .collect();
            ops.splice(at + 1..at + 1, copies);
            cfg.frag = 0;
            cfg.max_read = 0;
            cfg.max_write = 0;
        }
    }
    // A known finding: more messages behind waiting commands than the server's queue holds
    if p == "C01" && r.chance(1, 1500) {
        let text = "define int32 @f() {\nbody:\n    return 1\n}\n".to_string();
        let mut flood = vec![
            Op::Init,
            Op::Open {
                doc: 0,
                text: text.clone(),
                version: 1,
            },
        ];
        for _ in 0..r.range(4, 7) {
            flood.push(Op::Cfg {
                doc: 0,
                func: String::new(),
                nth: 0,
                reply: Reply::Ok,
                delay: 400,
            });
        }
        for i in 0..r.range(115, 160) {
            flood.push(Op::Change {
                doc: 0,
                version: 2 + i as i32,
                texts: vec![text.clone()],
            });
        }
        ops = flood;
        cfg.flood = true;
        cfg.frag = 0;
        cfg.max_read = 0;
        cfg.max_write = 0;
    }
    // Now and then a lot of bytes, in large pieces
    if r.chance(1, 400) {
        let k = r.range(1, 12);
        let mut done = 0;
        for o in ops.iter_mut() {
            let t = match o {
                Op::Open { text, .. } => text,
                Op::Change { texts, .. } if !texts.is_empty() => texts.last_mut().unwrap(),
                _ => continue,
            };
            if done < k && t.len() < 20_000 && (t.is_empty() || t.ends_with('\n')) {
                done += 1;
                for i in 0..60 {
                    *t += &format!("# {} {}\n", i, "lorem ipsum ".repeat(120));
                }
            }
        }
        cfg.frag = 0;
        cfg.max_read = 0;
        cfg.max_write = 0;
    }
    Plan {
        seed: mix(seed, 3),
        profile: p.to_string(),
        cfg,
        ops,
        choices: None,
    }
}
