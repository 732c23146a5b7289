//! One simulated run: the real server (its own `main`) on the simulated
//! runtime, the simulated editor talking to it over the simulated pipes, and
//! the scheduler which decides every step of both.
use crate::interpose::{self, Node};
use crate::model;
use crate::plan::*;
use crate::rng::{Choices, Hash};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::{BTreeMap, VecDeque};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::__sim as sim;

pub type Factory = fn() -> sim::BoxFut;

/// Does the title of a graph name this function?
pub fn names(title: &str, func: &str) -> bool {
    title
        .split_whitespace()
        .any(|w| w.trim_matches(|c: char| "`\"'()[].,:".contains(c)) == func)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CfgMeta {
    pub uri: String,
    pub func: String,
    pub reply: Reply,
    /// step at which the editor's reply was sent
    pub replied: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sent {
    pub step: u64,
    pub inst: usize,
    /// step at which the last byte reached the server's input
    pub delivered: Option<u64>,
    pub end: u64,
    pub msg: Value,
    pub op: usize,
    /// key of the request id
    pub id: Option<String>,
    pub cfg: Option<CfgMeta>,
    /// resolve: the codeAction request (index into `sent`) and the action's index
    pub from: Option<(usize, usize)>,
    pub probe: bool,
    /// sent before the editor has seen the answer to `initialize`
    pub before_init: bool,
    pub after_shutdown: bool,
    pub cancelled: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Got {
    pub step: u64,
    pub inst: usize,
    pub msg: Value,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Inst {
    /// the process ended on its own although nobody asked for it
    pub dead: Option<String>,
    /// a panic which did not end the process
    pub panicked: Option<String>,
    pub dead_kind: Cow<'static, str>,
    pub dead_step: u64,
    pub crashed: bool,
    /// nothing was left to do at the end
    pub drained: bool,
    /// the input ended (or failed) at this step
    pub ended: Option<u64>,
    /// the main function returned
    pub done: bool,
    pub framing: Option<String>,
    pub init_ok: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunLog {
    pub sent: Vec<Sent>,
    pub got: Vec<Got>,
    pub insts: Vec<Inst>,
    pub fs: Vec<(u64, BTreeMap<String, Node>)>,
    pub counts: BTreeMap<Cow<'static, str>, u64>,
    pub steps: u64,
    pub polls: u64,
    pub trace: Hash,
    /// order of the scheduler's actions only
    pub inter: Hash,
    pub sim_nanos: u64,
    pub choices: Vec<u32>,
    pub finished: bool,
    /// the last thing the simulator was doing, for reports about hangs
    pub events: Vec<String>,
    pub end: Option<End>,
    pub overrun: bool,
    /// bytes on the standard output which no transport wrote
    #[serde(default)]
    pub stray: u64,
}

impl RunLog {
    fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(Cow::Borrowed(k)).or_default() += n
    }
    /// everything observable about the run
    pub fn fingerprint(&self) -> u64 {
        let mut h = self.trace;
        h.add_u64(self.steps);
        for g in &self.got {
            h.add_u64(g.step);
            h.add(g.msg.to_string().as_bytes());
        }
        for s in &self.sent {
            h.add_u64(s.step);
            h.add_u64(s.delivered.unwrap_or(u64::MAX));
            h.add(s.msg.to_string().as_bytes());
        }
        for i in &self.insts {
            h.add(format!("{:?}", i).as_bytes());
        }
        h.0
    }
}

pub fn node_of(c: char) -> Node {
    match c {
        'd' => Node::Dir,
        'x' => Node::Denied,
        'e' => Node::IoError,
        _ => Node::File,
    }
}

pub fn fs_map(m: &BTreeMap<String, char>) -> BTreeMap<String, Node> {
    m.iter().map(|(k, v)| (k.clone(), node_of(*v))).collect()
}

/// UTF-16 based text edits; None if one of them is out of range or they overlap
pub fn apply_edits(text: &str, edits: &[(u32, u32, u32, u32, String)]) -> Option<String> {
    let mut es = vec![];
    for (l0, c0, l1, c1, t) in edits {
        let a = model::pos_to_byte(text, *l0, *c0)?;
        let b = model::pos_to_byte(text, *l1, *c1)?;
        if a > b {
            return None;
        }
        es.push((a, b, t));
    }
    es.sort();
    let mut out = String::new();
    let mut at = 0;
    for (a, b, t) in es {
        if a < at {
            return None;
        }
        out.push_str(&text[at..a]);
        out.push_str(t);
        at = b;
    }
    out.push_str(&text[at..]);
    Some(out)
}

/// The text edits for `uri` of a WorkspaceEdit in either representation
pub fn edits_of(edit: &Value, uri: &str) -> Option<Vec<(u32, u32, u32, u32, String)>> {
    let list = edit["changes"].get(uri).cloned().or_else(|| {
        let mut all = vec![];
        for d in edit["documentChanges"].as_array()? {
            if d["textDocument"]["uri"] == uri {
                all.extend(d["edits"].as_array()?.iter().cloned());
            }
        }
        Some(Value::Array(all))
    })?;
    list.as_array()?
        .iter()
        .map(|e| {
            let n = |v: &Value| v.as_u64().map(|x| x as u32);
            Some((
                n(&e["range"]["start"]["line"])?,
                n(&e["range"]["start"]["character"])?,
                n(&e["range"]["end"]["line"])?,
                n(&e["range"]["end"]["character"])?,
                e["newText"].as_str()?.to_string(),
            ))
        })
        .collect()
}

struct Cmd {
    sent: usize,
    func: String,
    mode: Reply,
    delay: usize,
    matched: bool,
    settled: bool,
    /// the user lost patience with it
    gave_up: bool,
}

struct PendingReply {
    id: Value,
    mode: Reply,
    /// available after this many issued operations
    at_issue: usize,
    cmd: Option<usize>,
}

struct World {
    plan: Plan,
    factory: Factory,
    ch: Choices,
    log: Arc<Mutex<RunLog>>,
    inst: usize,
    main_task: usize,
    out: VecDeque<u8>,
    /// stdin bytes handed over so far / ends of the messages in `out`
    delivered: u64,
    queued: u64,
    parse: Vec<u8>,
    parse_from: usize,
    todo: VecDeque<(usize, Op)>,
    issued: usize,
    docs: BTreeMap<String, (String, i32)>,
    next_id: i64,
    outstanding: Vec<(String, usize)>,
    cmds: Vec<Cmd>,
    modes: BTreeMap<String, (Reply, usize)>,
    replies: Vec<PendingReply>,
    init_sent: bool,
    inited: bool,
    shut: bool,
    exited: bool,
    alive: bool,
    step: u64,
    actions: Vec<(usize, usize, Value)>,
    edits: Vec<(String, String, Value)>,
    probing: bool,
    hostile: bool,
    progress: u64,
    polls_since: u64,
}

pub const MAX_STEPS: u64 = 60_000;
pub const LIVELOCK: u64 = 3_000;

impl World {
    fn with<T>(&self, f: impl FnOnce(&mut RunLog) -> T) -> T {
        f(&mut self.log.lock().unwrap())
    }
    fn io(&self) -> Option<Arc<Mutex<sim::io::Io>>> {
        sim::io_of(self.inst)
    }

    fn start(&mut self) {
        let n = self.with(|l| {
            l.insts.push(Inst::default());
            l.insts.len() - 1
        });
        self.inst = n;
        let f = self.factory;
        self.main_task = interpose::in_sut(|| sim::create_instance(n, f()));
        self.out.clear();
        self.delivered = 0;
        self.queued = 0;
        self.parse.clear();
        self.parse_from = 0;
        self.outstanding.clear();
        self.cmds.clear();
        self.replies.clear();
        self.actions.clear();
        self.edits.clear();
        self.init_sent = false;
        self.inited = false;
        self.shut = false;
        self.exited = false;
        self.alive = true;
        let cfg = &self.plan.cfg;
        let io = self.io().unwrap();
        let mut io = io.lock().unwrap();
        io.max_read = cfg.max_read;
        io.max_write = cfg.max_write;
        io.credit = if cfg.credit > 0 && self.hostile { cfg.credit } else { usize::MAX / 2 };
    }

    fn event(&self, s: impl FnOnce() -> String) {
        if std::env::var_os("DST_TRACE").is_some() {
            let s = format!("[{}] {}", self.step, s());
            self.with(|l| l.events.push(s));
        }
    }

    fn uri(&self, doc: usize) -> String {
        let u = &self.plan.cfg.uris;
        u[doc % u.len()].clone()
    }

    fn send(&mut self, op: usize, msg: Value) -> usize {
        let body = msg.to_string();
        let len = body.len();
        let head = match self.plan.cfg.header {
            1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n", len),
            2 => format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", len),
            _ => format!("Content-Length: {}\r\n\r\n", len),
        };
        self.event(|| format!("editor: {}", body));
        self.out.extend(head.as_bytes());
        self.out.extend(body.as_bytes());
        self.queued += (head.len() + len) as u64;
        let id = if msg.get("method").is_some() {
            msg.get("id").map(|i| i.to_string())
        } else {
            None
        };
        let s = Sent {
            step: self.step,
            inst: self.inst,
            delivered: None,
            end: self.queued,
            op,
            id: id.clone(),
            cfg: None,
            from: None,
            probe: self.probing,
            before_init: !self.inited,
            after_shutdown: self.shut,
            cancelled: false,
            msg,
        };
        let ix = self.with(|l| {
            l.sent.push(s);
            l.sent.len() - 1
        });
        if let Some(id) = id {
            self.outstanding.push((id, ix));
        }
        ix
    }

    fn fresh_id(&mut self) -> Value {
        self.next_id += 1;
        match self.plan.cfg.ids {
            1 => json!(format!("r{}", self.next_id)),
            2 if self.next_id % 2 == 0 => json!(format!("{}", self.next_id)),
            _ => json!(self.next_id),
        }
    }

    fn request(&mut self, op: usize, method: &str, params: Value) -> usize {
        let id = self.fresh_id();
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send(op, m)
    }
    fn notify(&mut self, op: usize, method: &str, params: Value) -> usize {
        let mut m = json!({"jsonrpc": "2.0", "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send(op, m)
    }

    fn position(&self, uri: &str, pos: &Pos) -> (u32, u32) {
        match pos {
            Pos::Abs(l, c) => (*l, *c),
            Pos::Tok(k, at) => {
                let Some((text, _)) = self.docs.get(uri) else {
                    return (0, 0);
                };
                use model::TK;
                let toks: Vec<_> = model::lex(text)
                    .toks
                    .into_iter()
                    .filter(|t| match at / 4 {
                        1 => t.kind == TK::Global,
                        _ => matches!(t.kind, TK::Global | TK::Local | TK::Dbg | TK::Ident),
                    })
                    .collect();
                if toks.is_empty() {
                    return (0, 0);
                }
                let r = toks[k % toks.len()].r;
                let c = match at % 4 {
                    0 => r.c0,
                    1 => (r.c0 + r.c1) / 2,
                    2 => r.c1.saturating_sub(1).max(r.c0),
                    _ => r.c1,
                };
                (r.line, c)
            }
        }
    }

    fn init_params(&self) -> Value {
        let c = &self.plan.cfg;
        let code_action = match c.lazy {
            1 => json!({"dataSupport": true, "resolveSupport": {"properties": ["edit"]}}),
            2 => json!({"resolveSupport": {"properties": ["edit"]}}),
            3 => json!({"dataSupport": true}),
            4 => json!({"dataSupport": true, "resolveSupport": {"properties": ["command"]}}),
            5 => json!({"dataSupport": false, "resolveSupport": {"properties": ["edit"]}}),
            8 => json!({"dataSupport": true, "resolveSupport": {"properties": ["disabled", "edit", "command"]}}),
            9 => json!({"dataSupport": true, "resolveSupport": {"properties": []}}),
            10 => json!({"dataSupport": true, "resolveSupport": {"properties": ["Edit", "edits", ""]}}),
            11 => json!({"dataSupport": null, "resolveSupport": {"properties": ["edit"]}}),
            12 => json!({"isPreferredSupport": true, "dataSupport": true, "resolveSupport": {"properties": ["edit"]}, "honorsChangeAnnotations": false}),
            _ => json!({}),
        };
        let caps = match c.lazy {
            6 => json!({}),
            7 => json!({"textDocument": {}}),
            12 => json!({"textDocument": {"codeAction": code_action, "rename": {"prepareSupport": true}}, "workspace": {"applyEdit": true, "workspaceEdit": {"documentChanges": true}}, "general": {"positionEncodings": ["utf-8", "utf-16"]}}),
            _ => json!({"textDocument": {"codeAction": code_action}}),
        };
        let folders: Vec<Value> = c.roots.iter().enumerate().map(|(i, r)| json!({"uri": r, "name": format!("f{}", i)})).collect();
        let mut p = json!({"processId": null, "rootUri": null, "capabilities": caps});
        match c.root_mode {
            0 => p["workspaceFolders"] = json!(folders),
            1 => p["rootUri"] = c.roots.first().map_or(Value::Null, |r| json!(r)),
            4 => {
                p["workspaceFolders"] = Value::Null;
                p["rootUri"] = c.roots.first().map_or(Value::Null, |r| json!(r));
            }
            3 => {
                p["workspaceFolders"] = json!(folders);
                p["rootUri"] = json!("file:///simfs/other");
            }
            _ => {}
        }
        p
    }

    /// The nth function of a document, or something which resembles it
    fn command_name(&self, uri: &str, what: &str, nth: usize) -> String {
        let of = |uri: &str| self.docs.get(uri).and_then(|d| model::analyze(&d.0));
        let Some(m) = of(uri) else {
            return "@nothing".into();
        };
        let funcs: Vec<String> = m.funcs.iter().map(|f| m.tok(f.name).text.clone()).collect();
        let syms = |k: model::Kind, pick: &dyn Fn(&model::Sym) -> bool| -> Vec<String> {
            m.syms.iter().filter(|s| s.kind == k && pick(s)).map(|s| s.name.clone()).collect()
        };
        let list: Vec<String> = match what {
            "~bare" => funcs.iter().map(|f| f[1..].to_string()).collect(),
            "~longer" => funcs.iter().map(|f| format!("{}1", f)).collect(),
            "~shorter" => funcs.iter().map(|f| f.chars().take(f.chars().count() - 1).collect()).collect(),
            "~upper" => funcs.iter().map(|f| f.to_uppercase()).collect(),
            "~blank" => funcs.iter().map(|f| format!("{} ", f)).collect(),
            "~declared" => syms(model::Kind::Function, &|s| s.defs.is_empty()),
            "~global" => syms(model::Kind::GlobalVar, &|_| true),
            "~label" => syms(model::Kind::Label, &|_| true),
            "~other" => self
                .docs
                .keys()
                .filter(|k| *k != uri)
                .filter_map(|k| of(k))
                .flat_map(|m| m.funcs.iter().map(|f| m.tok(f.name).text.clone()).collect::<Vec<_>>())
                .collect(),
            _ => funcs,
        };
        if list.is_empty() {
            "@nothing".into()
        } else {
            list[nth % list.len()].clone()
        }
    }

    fn answered(&self, id: &str) -> bool {
        !self.outstanding.iter().any(|o| o.0 == id)
    }

    /// May the next operation be issued now?
    fn may_issue(&self) -> bool {
        let Some((_, op)) = self.todo.front() else {
            return false;
        };
        if self.init_sent && !self.inited && self.plan.cfg.patient {
            return matches!(op, Op::Crash);
        }
        let waiting_cmds = self
            .cmds
            .iter()
            .filter(|c| !c.settled)
            .count();
        let open = self.outstanding.len().saturating_sub(waiting_cmds);
        if !matches!(op, Op::Crash | Op::Fs { .. } | Op::Sleep(_)) && self.flooded() {
            return false;
        }
        match op {
            Op::Crash | Op::Fs { .. } | Op::Cancel { .. } | Op::Sleep(_) => true,
            Op::Sync => open == 0 && self.out.is_empty(),
            Op::Resolve { back } | Op::Forge { back, .. } => {
                // wait for the answer of the code action request
                open < self.plan.cfg.window && (self.actions.len() > *back || open == 0)
            }
            Op::Apply { back, .. } => self.edits.len() > *back || open == 0,
            Op::Cfg { .. } => open < self.plan.cfg.window && waiting_cmds < 12,
            Op::Open { .. } | Op::Change { .. } | Op::Close { .. } => self.pending_messages() < 30,
            _ => open < self.plan.cfg.window && self.pending_messages() < 30,
        }
    }

    /// Four commands wait for the editor, and many messages were sent behind one of them. tower-lsp handles four
    /// messages at a time and queues 100 more: an editor which sent even more before its replies would not be
    /// understood any more (a known finding, met on purpose in the profile C01).
    fn flooded(&self) -> bool {
        if self.plan.cfg.flood {
            return false;
        }
        let (mut n, mut oldest) = (0, None);
        self.with(|l| {
            for c in &self.cmds {
                let waits = l.sent[c.sent].id.as_ref().map_or(false, |i| self.outstanding.iter().any(|o| &o.0 == i));
                if waits {
                    n += 1;
                    if c.mode != Reply::Never && oldest.is_none() {
                        oldest = Some(c.sent);
                    }
                }
            }
            n >= 4 && oldest.map_or(false, |o| l.sent.len() - o > 70)
        })
    }

    fn pending_messages(&self) -> usize {
        self.with(|l| {
            l.sent
                .iter()
                .rev()
                .take(40)
                .filter(|s| s.inst == self.inst && s.delivered.is_none())
                .count()
        })
    }

    fn issue(&mut self) {
        let Some((ix, op)) = self.todo.pop_front() else {
            return;
        };
        self.issued += 1;
        self.event(|| format!("op {} {:?}", ix, op));
        match op {
            Op::Init => {
                let p = self.init_params();
                self.init_sent = true;
                self.request(ix, "initialize", p);
            }
            Op::Open { doc, text, version } => {
                let uri = self.uri(doc);
                self.docs.insert(uri.clone(), (text.clone(), version));
                self.notify(ix, "textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "hir", "version": version, "text": text}}));
            }
            Op::Change { doc, version, texts } => {
                let uri = self.uri(doc);
                if !self.docs.contains_key(&uri) {
                    return;
                }
                if let Some(t) = texts.last() {
                    self.docs.insert(uri.clone(), (t.clone(), version));
                }
                let changes: Vec<Value> = texts.iter().map(|t| json!({"text": t})).collect();
                self.notify(ix, "textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}));
            }
            Op::Close { doc } => {
                let uri = self.uri(doc);
                if self.docs.remove(&uri).is_some() {
                    self.notify(ix, "textDocument/didClose", json!({"textDocument": {"uri": uri}}));
                }
            }
            Op::Req { doc, kind, pos, arg } => {
                let uri = self.uri(doc);
                self.req(ix, &uri, kind, &pos, &arg);
            }
            Op::Resolve { back } => {
                if self.actions.len() > back {
                    let (req, nth, action) = self.actions[self.actions.len() - 1 - back].clone();
                    let s = self.request(ix, "codeAction/resolve", action);
                    self.with(|l| l.sent[s].from = Some((req, nth)));
                }
            }
            Op::Forge { back, salt } => {
                if self.actions.len() > back {
                    let mut action = self.actions[self.actions.len() - 1 - back].2.clone();
                    let others: Vec<Value> = self.actions.iter().map(|a| a.2["data"].clone()).collect();
                    forge(&mut action["data"], &others, &mut crate::rng::Rng::new(salt));
                    self.with(|l| l.count("forged_actions", 1));
                    self.request(ix, "codeAction/resolve", action);
                }
            }
            Op::Apply { back, version } => {
                if self.edits.len() > back {
                    let (uri, text, edit) = self.edits[self.edits.len() - 1 - back].clone();
                    let same = self.docs.get(&uri).map_or(false, |d| d.0 == text);
                    let new = edits_of(&edit, &uri).and_then(|e| apply_edits(&text, &e));
                    if let (true, Some(new)) = (same, new) {
                        self.docs.insert(uri.clone(), (new.clone(), version));
                        self.with(|l| l.count("edits_applied", 1));
                        self.notify(ix, "textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": new}]}));
                    }
                }
            }
            Op::Cfg { doc, func, nth, reply, delay } => {
                let uri = self.uri(doc);
                let mut name = func;
                if name.is_empty() || name.starts_with('~') {
                    name = self.command_name(&uri, &name, nth);
                }
                // Commands for the same function are indistinguishable to the editor
                let (mode, delay) = self
                    .modes
                    .iter()
                    .find(|(f, _)| **f == name)
                    .map_or((reply, delay), |(_, m)| *m);
                // The server runs four requests at a time. Four questions the editor
                // never answers would (by design of tower-lsp) stop it for good.
                if mode == Reply::Never && self.cmds.iter().filter(|c| c.mode == Reply::Never).count() >= 3 {
                    return;
                }
                self.modes.insert(name.clone(), (mode, delay));
                let s = self.request(ix, "workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [uri, name]}));
                self.with(|l| {
                    l.sent[s].cfg = Some(CfgMeta {
                        uri,
                        func: name.clone(),
                        reply: mode,
                        replied: None,
                    })
                });
                self.cmds.push(Cmd {
                    sent: s,
                    func: name,
                    mode,
                    delay,
                    matched: false,
                    settled: false,
                    gave_up: false,
                });
            }
            Op::Cancel { back } => {
                // Prefer requests which are still outstanding
                let target = if self.outstanding.len() > back {
                    Some(self.outstanding[self.outstanding.len() - 1 - back].1)
                } else {
                    self.with(|l| l.sent.iter().rposition(|s| s.inst == self.inst && s.id.is_some()))
                };
                if let Some(t) = target {
                    let (id, method) = self.with(|l| (l.sent[t].msg["id"].clone(), l.sent[t].msg["method"].clone()));
                    if method == "initialize" || method == "shutdown" {
                        return;
                    }
                    self.with(|l| {
                        l.sent[t].cancelled = true;
                        l.count("cancellations", 1)
                    });
                    self.notify(ix, "$/cancelRequest", json!({ "id": id }));
                }
            }
            Op::Raw { method, params, id } => {
                if id {
                    self.request(ix, &method, params);
                } else {
                    self.notify(ix, &method, params);
                }
            }
            Op::DupId => {
                let Some(o) = self.outstanding.last().cloned() else {
                    return;
                };
                let id = self.with(|l| l.sent[o.1].msg["id"].clone());
                let uri = self.uri(0);
                self.with(|l| l.count("duplicate_ids", 1));
                self.send(ix, json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/foldingRange", "params": {"textDocument": {"uri": uri}}}));
            }
            Op::Fs { path, node } => {
                interpose::with_fs(|fs| {
                    match node {
                        Some(c) => fs.nodes.insert(path.clone(), node_of(c)),
                        None => fs.nodes.remove(&path),
                    };
                });
                let snap = interpose::with_fs(|fs| fs.nodes.clone());
                let step = self.step;
                self.with(|l| {
                    l.fs.push((step, snap));
                    l.count("fs_changes", 1)
                });
            }
            Op::Crash => {
                let lost = self.out.len() as u64;
                let busy = self.outstanding.len() as u64;
                self.with(|l| {
                    l.count("crashes", 1);
                    l.count("crashes_with_requests_in_flight", (busy > 0) as u64);
                    l.count("crashes_mid_message", (lost > 0) as u64);
                    l.insts.last_mut().unwrap().crashed = true;
                });
                self.absorb();
                crate::threads::kill_all();
                sim::kill_instance(self.inst);
                self.start();
                let docs = self.docs.clone();
                let n = self.plan.cfg.uris.clone();
                let mut first = VecDeque::new();
                first.push_back((ix, Op::Init));
                for (uri, (text, version)) in docs {
                    let doc = n.iter().position(|u| *u == uri).unwrap_or(0);
                    first.push_back((ix, Op::Open { doc, text, version }));
                }
                while let Some(x) = first.pop_back() {
                    self.todo.push_front(x);
                }
            }
            Op::Shutdown => {
                self.request(ix, "shutdown", Value::Null);
                self.shut = true;
            }
            Op::Exit => {
                self.notify(ix, "exit", Value::Null);
                self.exited = true;
            }
            Op::Sync => {}
            Op::Sleep(ms) => {
                self.with(|l| l.count("sleeps", 1));
                interpose::in_sut(|| sim::advance(ms * 1_000_000));
            }
        }
    }

    fn req(&mut self, op: usize, uri: &str, kind: Req, pos: &Pos, arg: &str) -> usize {
        let (l, c) = self.position(uri, pos);
        let p = json!({"line": l, "character": c});
        let td = json!({ "uri": uri });
        let (m, params) = match kind {
            Req::Definition => ("textDocument/definition", json!({"textDocument": td, "position": p})),
            Req::Declaration => ("textDocument/declaration", json!({"textDocument": td, "position": p})),
            Req::References => ("textDocument/references", json!({"textDocument": td, "position": p, "context": {"includeDeclaration": arg == "decl"}})),
            Req::PrepareRename => ("textDocument/prepareRename", json!({"textDocument": td, "position": p})),
            Req::Rename => ("textDocument/rename", json!({"textDocument": td, "position": p, "newName": arg})),
            Req::CodeAction => {
                let end = if arg == "range" { json!({"line": l, "character": c.saturating_add(1)}) } else { p.clone() };
                ("textDocument/codeAction", json!({"textDocument": td, "range": {"start": p, "end": end}, "context": {"diagnostics": []}}))
            }
            Req::Symbols => ("textDocument/documentSymbol", json!({ "textDocument": td })),
            Req::Folding => ("textDocument/foldingRange", json!({ "textDocument": td })),
            Req::Inlay => {
                let lines = self.docs.get(uri).map_or(1, |d| model::line_lengths(&d.0).len()) as u32;
                // What the editor displays may be a part of the document
                let (from, to) = match arg.split_once('-') {
                    Some((a, b)) => (a, b),
                    None => ("0.0", ""),
                };
                let place = |s: &str| -> (u32, u32) {
                    let (l, c) = s.split_once('.').unwrap_or((s, "0"));
                    (l.parse().unwrap_or(lines), c.parse().unwrap_or(0))
                };
                let (from, to) = (place(from), place(to));
                ("textDocument/inlayHint", json!({"textDocument": td, "range": {"start": {"line": from.0, "character": from.1}, "end": {"line": to.0, "character": to.1}}}))
            }
            Req::Lens => ("textDocument/codeLens", json!({ "textDocument": td })),
            Req::Tokens => ("textDocument/semanticTokens/full", json!({ "textDocument": td })),
        };
        self.request(op, m, params)
    }

    /// Read what the server wrote and react to it.
    fn absorb(&mut self) {
        if let Some(io) = self.io() {
            let mut io = io.lock().unwrap();
            if io.stdout.is_empty() {
                return;
            }
            let bytes = std::mem::take(&mut io.stdout);
            drop(io);
            self.progress += 1;
            self.parse.extend_from_slice(&bytes);
        }
        loop {
            let buf = &self.parse[self.parse_from..];
            let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") else {
                if buf.len() > 4096 {
                    self.bad_output("no header within 4096 bytes");
                }
                break;
            };
            let head = String::from_utf8_lossy(&buf[..h]).to_string();
            let mut len = None;
            for line in head.split("\r\n") {
                match line.split_once(':') {
                    Some((k, v)) if k.eq_ignore_ascii_case("content-length") => len = v.trim().parse::<usize>().ok(),
                    Some((k, _)) if k.eq_ignore_ascii_case("content-type") => {}
                    _ => {
                        self.bad_output(&format!("unexpected header line {:?}", line));
                        return;
                    }
                }
            }
            let Some(len) = len else {
                self.bad_output("header without Content-Length");
                return;
            };
            if buf.len() < h + 4 + len {
                break;
            }
            let body = buf[h + 4..h + 4 + len].to_vec();
            self.parse_from += h + 4 + len;
            let v: Value = match serde_json::from_slice(&body) {
                Ok(v) => v,
                Err(e) => {
                    self.bad_output(&format!("body is no JSON: {}", e));
                    return;
                }
            };
            self.receive(v);
        }
        if self.parse_from > 0 {
            self.parse.drain(..self.parse_from);
            self.parse_from = 0;
        }
    }

    fn bad_output(&mut self, why: &str) {
        let inst = self.inst;
        self.with(|l| {
            l.insts[inst].framing.get_or_insert(why.to_string());
        });
        self.parse.clear();
        self.parse_from = 0;
    }

    fn receive(&mut self, v: Value) {
        self.event(|| format!("server: {}", v));
        let (step, inst) = (self.step, self.inst);
        self.with(|l| {
            l.got.push(Got {
                step,
                inst,
                msg: v.clone(),
            })
        });
        if v.get("method").is_none() {
            let id = v["id"].to_string();
            let Some(p) = self.outstanding.iter().position(|o| o.0 == id) else {
                return;
            };
            let (_, s) = self.outstanding.remove(p);
            let m = self.with(|l| l.sent[s].msg.clone());
            if let Some(c) = self.cmds.iter_mut().find(|c| c.sent == s && !c.matched) {
                // rejected or cancelled before it showed anything
                c.settled = true;
            }
            match m["method"].as_str().unwrap_or("") {
                "initialize" if v.get("error").is_none() => {
                    self.inited = true;
                    self.with(|l| l.insts[inst].init_ok = true);
                    let op = self.with(|l| l.sent[s].op);
                    self.notify(op, "initialized", json!({}));
                }
                "textDocument/codeAction" => {
                    let uri = m["params"]["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                    for (i, a) in v["result"].as_array().into_iter().flatten().enumerate() {
                        self.actions.push((s, i, a.clone()));
                        self.note_edit(&uri, s, &a["edit"]);
                    }
                }
                "codeAction/resolve" => {
                    let from = self.with(|l| l.sent[s].from.map(|f| l.sent[f.0].msg["params"]["textDocument"]["uri"].clone()));
                    if let Some(Value::String(uri)) = from {
                        self.note_edit(&uri, s, &v["result"]["edit"]);
                    }
                }
                "textDocument/rename" => {
                    let uri = m["params"]["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                    self.note_edit(&uri, s, &v["result"]);
                }
                _ => {}
            }
            return;
        }
        let Some(id) = v.get("id") else { return };
        // A request of the server
        if v["method"] == "hyperir/showDot" {
            let title = v["params"]["title"].as_str().unwrap_or("");
            let mut best: Option<usize> = None;
            for (i, c) in self.cmds.iter().enumerate() {
                if !c.matched && best.is_none() && names(title, &c.func) {
                    best = Some(i);
                }
            }
            let best = best.or_else(|| self.cmds.iter().position(|c| !c.matched));
            let (mode, delay) = best.map_or((Reply::Ok, 0), |b| (self.cmds[b].mode, self.cmds[b].delay));
            if let Some(b) = best {
                self.cmds[b].matched = true;
                self.cmds[b].settled = false;
            }
            self.replies.push(PendingReply {
                id: id.clone(),
                mode,
                at_issue: self.issued + delay,
                cmd: best,
            });
        } else {
            self.replies.push(PendingReply {
                id: id.clone(),
                mode: Reply::Null,
                at_issue: 0,
                cmd: None,
            });
        }
    }

    fn note_edit(&mut self, uri: &str, sent: usize, edit: &Value) {
        // Only usable if the document has not changed since the request
        let same = self.with(|l| {
            !l.sent[sent..].iter().any(|s| {
                s.inst == self.inst
                    && matches!(s.msg["method"].as_str(), Some("textDocument/didChange") | Some("textDocument/didOpen"))
                    && s.msg["params"]["textDocument"]["uri"] == uri
            })
        });
        if let (true, Some((text, _)), true) = (same, self.docs.get(uri), edit.is_object()) {
            self.edits.push((uri.to_string(), text.clone(), edit.clone()));
        }
    }

    fn reply(&mut self, i: usize) {
        let r = self.replies.remove(i);
        let ok = json!({"jsonrpc": "2.0", "id": r.id, "result": {}});
        match r.mode {
            Reply::Ok | Reply::Never => {
                self.send(usize::MAX, ok);
            }
            Reply::Err => {
                self.with(|l| l.count("error_replies", 1));
                let codes = [-32000, -32800, -32603, -32601, -32801, 1, -32802, -32803];
                let code = codes[self.plan.seed as usize % codes.len()];
                self.send(usize::MAX, json!({"jsonrpc": "2.0", "id": r.id, "error": {"code": code, "message": "no viewer"}}));
            }
            Reply::Null => {
                self.send(usize::MAX, json!({"jsonrpc": "2.0", "id": r.id, "result": null}));
            }
            Reply::Twice => {
                self.with(|l| l.count("duplicated_replies", 1));
                self.send(usize::MAX, ok.clone());
                self.send(usize::MAX, ok);
            }
            Reply::UnknownFirst => {
                self.with(|l| l.count("unknown_replies", 1));
                self.send(usize::MAX, json!({"jsonrpc": "2.0", "id": 987654, "result": {}}));
                self.send(usize::MAX, ok);
            }
        }
        if let Some(c) = r.cmd {
            self.cmds[c].settled = true;
            let (s, step) = (self.cmds[c].sent, self.step);
            self.with(|l| {
                if let Some(m) = &mut l.sent[s].cfg {
                    m.replied = Some(step);
                }
            });
        }
    }

    fn deliver(&mut self, n: usize) {
        let n = n.min(self.out.len());
        let whole = n == self.out.len();
        if let Some(io) = self.io() {
            let mut io = io.lock().unwrap();
            for _ in 0..n {
                let b = self.out.pop_front().unwrap();
                io.stdin.push_back(b);
            }
            io.wake_reader();
        }
        self.progress += 1;
        self.delivered += n as u64;
        let (d, step, inst) = (self.delivered, self.step, self.inst);
        self.with(|l| {
            let mut split = !whole;
            for s in l.sent.iter_mut().rev() {
                if s.inst != inst || (s.delivered.is_some() && s.end <= d) && s.delivered != Some(step) {
                    break;
                }
                if s.end == d {
                    split = false;
                }
                if s.delivered.is_none() && s.end <= d {
                    s.delivered = Some(step);
                }
            }
            if split {
                l.count("fragmented_deliveries", 1);
            }
        });
    }

    fn chunk(&mut self) -> usize {
        let all = self.out.len();
        let frame = self.with(|l| {
            l.sent
                .iter()
                .filter(|s| s.inst == self.inst && s.end > self.delivered)
                .map(|s| (s.end - self.delivered) as usize)
                .next()
                .unwrap_or(all)
        });
        match self.plan.cfg.frag {
            0 => all,
            1 => [all, frame][self.ch.below(2)],
            2 => match self.ch.below(4) {
                0 => all,
                1 => frame,
                2 => 1 + self.ch.below(frame.min(40)),
                _ => 1 + self.ch.below(all),
            },
            _ => match self.ch.below(6) {
                0 => frame,
                1 => 1,
                2 => 2,
                3 => frame.saturating_sub(1).max(1),
                4 => 1 + self.ch.below(frame.min(25)),
                _ => (frame + 1).min(all),
            },
        }
    }

    fn poll(&mut self, task: usize) {
        self.with(|l| l.polls += 1);
        let _ = crate::last_panic();
        let out = interpose::in_sut(|| sim::poll_task(task));
        self.polls_since += 1;
        if task != self.main_task || !matches!(out, sim::PollOutcome::Panicked(_)) {
            self.note_panic();
        }
        if task == self.main_task {
            let (inst, step) = (self.inst, self.step);
            match out {
                sim::PollOutcome::Pending => {}
                sim::PollOutcome::Done => {
                    self.alive = false;
                    crate::threads::kill_all();
                    self.with(|l| l.insts[inst].done = true);
                }
                sim::PollOutcome::Panicked(m) => {
                    self.alive = false;
                    let m = crate::last_panic().unwrap_or(m);
                    self.with(|l| {
                        let i = &mut l.insts[inst];
                        i.dead = Some(format!("panic: {}", m));
                        i.dead_kind = "panic".into();
                        i.dead_step = step;
                    });
                }
            }
        }
    }

    /// A panic which something caught
    fn note_panic(&mut self) {
        if let Some(m) = crate::last_panic() {
            let inst = self.inst;
            self.with(|l| {
                l.insts[inst].panicked.get_or_insert(m);
            });
        }
    }

    fn next_step(&mut self, kind: u64) {
        self.step += 1;
        let step = self.step;
        self.with(|l| {
            l.steps = step;
            l.trace.add_u64(kind);
            l.inter.add(&[kind as u8]);
        });
    }

    /// The adversarial phase
    fn run_ops(&mut self) {
        loop {
            self.absorb();
            if !self.alive {
                return;
            }
            if self.step > MAX_STEPS {
                self.with(|l| l.overrun = true);
                return;
            }
            let w = self.plan.cfg.w;
            // 0 poll, 1 deliver, 2 credit, 3 reply, 4 timer, 5 issue, 6 spurious
            let mut acts: Vec<(u8, usize, u32)> = vec![];
            for t in sim::ready_tasks(self.inst) {
                acts.push((0, t, w[0]));
            }
            if !self.out.is_empty() {
                acts.push((1, 0, w[1]));
            }
            if let Some(io) = self.io() {
                let io = io.lock().unwrap();
                if io.credit == 0 && io.write_waker.is_some() {
                    acts.push((2, 0, w[2]));
                }
            }
            for (i, r) in self.replies.iter().enumerate() {
                if r.mode != Reply::Never && r.at_issue <= self.issued {
                    acts.push((3, i, w[3]));
                }
            }
            for t in crate::threads::ready() {
                acts.push((7, t, w[0]));
            }
            if next_timer().is_some() {
                acts.push((4, 0, 2));
            }
            let busy = !acts.is_empty();
            if self.may_issue() {
                acts.push((5, 0, w[4]));
            } else if !busy {
                // Nothing else can happen: a reply is due, or the operation's
                // precondition will never hold
                if let Some(i) = self.replies.iter().position(|r| r.mode != Reply::Never) {
                    self.next_step(3);
                    self.reply(i);
                    continue;
                }
                if self.todo.is_empty() {
                    return;
                }
                if self.init_sent && !self.inited && self.plan.cfg.patient {
                    return; // `initialize` was never answered
                }
                match self.todo.front() {
                    Some((_, Op::Cfg { .. })) => {
                        // all earlier commands wait for replies which never come
                        self.todo.pop_front();
                        continue;
                    }
                    Some((_, Op::Sync)) | Some((_, Op::Resolve { .. })) | Some((_, Op::Forge { .. })) | Some((_, Op::Apply { .. })) => {
                        self.todo.pop_front();
                        continue;
                    }
                    _ => acts.push((5, 0, 1)),
                }
            }
            if w[5] > 0 && busy {
                acts.push((6, 0, w[5]));
            }
            let ws: Vec<u32> = acts.iter().map(|a| a.2).collect();
            let pick = self.ch.weighted(&ws);
            let (kind, arg, _) = acts[pick];
            if acts.len() > 1 {
                self.with(|l| l.count("scheduling_decisions", 1));
            }
            self.next_step(kind as u64 | (arg as u64) << 8);
            self.take(kind, arg);
        }
    }

    fn take(&mut self, kind: u8, arg: usize) {
        match kind {
            0 => self.poll(arg),
            1 => {
                let n = self.chunk();
                self.event(|| format!("deliver {} bytes", n));
                self.deliver(n);
            }
            2 => {
                let most = self.plan.cfg.credit.max(1);
                let n = 1 + self.ch.below(most);
                if let Some(io) = self.io() {
                    let mut io = io.lock().unwrap();
                    io.credit = n;
                    io.wake_writer();
                }
                self.progress += 1;
                self.with(|l| l.count("stalled_reads_resumed", 1));
            }
            3 => self.reply(arg),
            4 => self.timer(),
            5 => {
                self.progress += 1;
                self.issue()
            }
            7 => self.run_thread(arg),
            _ => {
                let live = sim::live_tasks(self.inst);
                if !live.is_empty() {
                    let t = live[self.ch.below(live.len())];
                    sim::spurious_wake(t);
                    self.with(|l| l.count("spurious_wakeups", 1));
                }
            }
        }
    }

    fn run_thread(&mut self, t: usize) {
        self.polls_since += 1;
        self.with(|l| l.count("thread_turns", 1));
        crate::threads::run(t);
        self.note_panic();
    }

    fn timer(&mut self) {
        if let Some(d) = next_timer() {
            self.with(|l| l.count("timers_fired", 1));
            interpose::in_sut(|| sim::advance(d.max(1)));
        }
    }

    /// No faults from here on: everything in flight must come to an end.
    fn drain(&mut self) {
        if let Some(io) = self.io() {
            let mut io = io.lock().unwrap();
            io.credit = usize::MAX / 2;
            io.max_read = 0;
            io.max_write = 0;
            io.wake_writer();
        }
        let (mut seen, mut waited, mut timers) = (self.progress, 0u64, 0);
        self.polls_since = 0;
        loop {
            self.absorb();
            if !self.alive {
                return;
            }
            if self.progress != seen {
                seen = self.progress;
                self.polls_since = 0;
            }
            if self.polls_since > LIVELOCK {
                let (inst, step) = (self.inst, self.step);
                self.with(|l| {
                    let i = &mut l.insts[inst];
                    i.dead = Some(format!("the server is busy without making progress ({} polls)", LIVELOCK));
                    i.dead_kind = "livelock".into();
                    i.dead_step = step;
                });
                self.alive = false;
                return;
            }
            if let Some(t) = sim::ready_tasks(self.inst).first() {
                self.next_step(0);
                self.poll(*t);
                continue;
            }
            if let Some(t) = crate::threads::ready().first() {
                self.next_step(7);
                self.run_thread(*t);
                continue;
            }
            if !self.out.is_empty() {
                self.next_step(1);
                let n = self.out.len();
                self.deliver(n);
                continue;
            }
            if let Some(i) = self.replies.iter().position(|r| r.mode != Reply::Never) {
                self.next_step(3);
                self.reply(i);
                continue;
            }
            // The user gives up on commands the editor never reacted to
            let stuck: Vec<usize> = self
                .cmds
                .iter()
                .filter(|c| c.mode == Reply::Never && !c.gave_up)
                .map(|c| c.sent)
                .collect();
            if !stuck.is_empty() {
                for c in &mut self.cmds {
                    if c.mode == Reply::Never {
                        c.settled = true;
                        c.gave_up = true;
                    }
                }
                for s in stuck {
                    let (id, done) = self.with(|l| (l.sent[s].msg["id"].clone(), l.sent[s].cancelled));
                    if !done && !self.answered(&id.to_string()) {
                        self.with(|l| {
                            l.sent[s].cancelled = true;
                            l.count("unanswered_showdot", 1)
                        });
                        self.notify(usize::MAX, "$/cancelRequest", json!({ "id": id }));
                    }
                }
                continue;
            }
            if let Some(d) = next_timer() {
                timers += 1;
                waited += d;
                if timers < 500 && waited < 600_000_000_000 {
                    self.next_step(4);
                    self.timer();
                    continue;
                }
            }
            return;
        }
    }

    fn finish(&mut self) {
        let end = self.plan.cfg.end;
        self.with(|l| l.end = Some(end));
        let inst = |w: &World| w.inst;
        if !matches!(end, End::EofBusy | End::EofMidFrame) {
            self.drain();
            if !self.alive {
                return;
            }
            if self.inited && !self.shut && !self.exited {
                // Is the server still there, with the right documents?
                self.probing = true;
                for (uri, _) in self.docs.clone() {
                    for k in [Req::Symbols, Req::Tokens, Req::Folding] {
                        self.req(usize::MAX, &uri, k, &Pos::Abs(0, 0), "");
                    }
                }
                self.drain();
                self.probing = false;
                if !self.alive {
                    return;
                }
            }
            let i = inst(self);
            self.with(|l| l.insts[i].drained = true);
        }
        let step = self.step;
        let i = inst(self);
        match end {
            End::Keep => return,
            End::Clean => {
                if !self.exited {
                    if self.inited && !self.shut {
                        self.request(usize::MAX, "shutdown", Value::Null);
                        self.shut = true;
                        self.drain();
                    }
                    self.notify(usize::MAX, "exit", Value::Null);
                    self.drain();
                }
                self.eof();
            }
            End::Eof => self.eof(),
            End::EofBusy => {
                let n = self.out.len();
                self.deliver(n);
                self.eof();
                self.with(|l| l.count("eof_while_busy", 1));
            }
            End::EofMidFrame => {
                if !self.out.is_empty() {
                    let n = self.ch.below(self.out.len());
                    self.deliver(n);
                    self.out.clear();
                } else {
                    let half = b"Content-Length: 100\r\n\r\n{\"jsonrpc\":\"2.0\",";
                    let n = 1 + self.ch.below(half.len());
                    self.out.extend(&half[..n]);
                    self.queued += n as u64;
                    self.deliver(n);
                }
                self.eof();
                self.with(|l| l.count("eof_mid_message", 1));
            }
            End::BrokenPipe => {
                if let Some(io) = self.io() {
                    io.lock().unwrap().stdout_err = Some(std::io::ErrorKind::BrokenPipe);
                }
                self.with(|l| l.count("broken_pipes", 1));
                self.eof();
            }
            End::ReadError => {
                if let Some(io) = self.io() {
                    let mut io = io.lock().unwrap();
                    io.stdin_err = Some(std::io::ErrorKind::Other);
                    io.wake_reader();
                }
                self.with(|l| l.count("read_errors", 1));
            }
        }
        self.with(|l| l.insts[i].ended = Some(step));
        // Pending replies never come: the editor is gone
        self.replies.clear();
        for c in &mut self.cmds {
            c.settled = true;
            c.gave_up = true;
        }
        self.drain();
    }

    fn eof(&mut self) {
        if let Some(io) = self.io() {
            let mut io = io.lock().unwrap();
            io.stdin_eof = true;
            io.wake_reader();
        }
    }
}

fn body(plan: Plan, factory: Factory, log: Arc<Mutex<RunLog>>) {
    crate::threads::reset(plan.cfg.hash_seed);
    sim::reset();
    let fs0 = fs_map(&plan.cfg.fs);
    interpose::with_fs(|fs| {
        fs.nodes = fs0.clone();
        fs.lookups = 0;
        fs.faults = 0;
    });
    log.lock().unwrap().fs.push((0, fs0));
    let ch = match &plan.choices {
        Some(c) => Choices::replay(c.clone()),
        None => Choices::seeded(plan.seed),
    };
    let todo = plan.ops.iter().cloned().enumerate().collect();
    let mut w = World {
        factory,
        ch,
        log: log.clone(),
        inst: 0,
        main_task: 0,
        out: VecDeque::new(),
        delivered: 0,
        queued: 0,
        parse: vec![],
        parse_from: 0,
        todo,
        issued: 0,
        docs: BTreeMap::new(),
        next_id: 0,
        outstanding: vec![],
        cmds: vec![],
        modes: BTreeMap::new(),
        replies: vec![],
        init_sent: false,
        inited: false,
        shut: false,
        exited: false,
        alive: true,
        step: 0,
        actions: vec![],
        edits: vec![],
        probing: false,
        hostile: true,
        progress: 0,
        polls_since: 0,
        plan,
    };
    w.start();
    w.run_ops();
    if w.alive {
        w.finish();
    }
    w.absorb();
    if let Some(io) = w.io() {
        let io = io.lock().unwrap();
        w.with(|l| {
            l.count("short_reads", io.short_reads);
            l.count("short_writes", io.short_writes);
            l.count("blocked_writes", io.blocked_writes);
        });
    }
    let (lookups, faults) = interpose::with_fs(|fs| (fs.lookups, fs.faults));
    let rec = std::mem::take(&mut w.ch.rec);
    w.with(|l| {
        l.count("fs_lookups", lookups);
        l.count("fs_faults_hit", faults);
        l.choices = rec;
        l.sim_nanos = sim::now_nanos();
        l.finished = true;
    });
    crate::threads::kill_all();
    sim::kill_instance(w.inst);
    sim::reset();
}

/// Execute a plan on a thread of its own.
/// Only a shutdown the server accepted counts: one which overtook the end of
/// the initialisation may be rejected. Without an answer nobody knows.
fn settle_shutdown(l: &mut RunLog) {
    for ii in 0..l.insts.len() {
        // 0 running, 1 unknown, 2 shut down
        let mut state = 0;
        for k in 0..l.sent.len() {
            if l.sent[k].inst != ii {
                continue;
            }
            l.sent[k].after_shutdown = state == 2;
            l.sent[k].before_init |= state == 1;
            if state == 2 || l.sent[k].msg["method"] != "shutdown" || l.sent[k].id.is_none() {
                continue;
            }
            let s = &l.sent[k];
            let uses = l.sent.iter().filter(|x| x.inst == ii && x.id == s.id).count();
            let answer = l
                .got
                .iter()
                .find(|g| g.inst == ii && g.msg.get("method").is_none() && Some(g.msg["id"].to_string()) == s.id);
            let early = s.before_init || s.cancelled || uses > 1;
            state = match answer.map(|a| a.msg.get("error").is_none()) {
                _ if !early => 2,
                Some(true) if uses == 1 => 2,
                Some(false) if uses == 1 && !s.cancelled => state,
                _ => 1,
            };
        }
    }
}

/// Execute a plan in a process of its own, forked from this one, in which no server
/// code has ever run: neither static variables nor a crash outlive the run.
pub fn run(plan: &Plan, factory: Factory) -> RunLog {
    if std::env::var_os("DST_NOFORK").is_some() {
        return run_here(plan, factory);
    }
    let killed = |why: String| RunLog {
        insts: vec![Inst {
            dead: Some(why),
            dead_kind: "killed".into(),
            ..Default::default()
        }],
        ..Default::default()
    };
    match interpose::in_child(|| serde_json::to_vec(&run_here(plan, factory)).unwrap_or_default()) {
        interpose::ChildEnd::Data(d) => match serde_json::from_slice(&d) {
            Ok(l) => l,
            Err(_) => killed("the process ended on its own".into()),
        },
        interpose::ChildEnd::Exit(3) => std::process::exit(3),
        interpose::ChildEnd::Exit(c) => killed(format!("the process ended on its own with status {}", c)),
        interpose::ChildEnd::Signal(s) => killed(format!("the process was killed by signal {}", s)),
    }
}

fn run_here(plan: &Plan, factory: Factory) -> RunLog {
    let log = Arc::new(Mutex::new(RunLog::default()));
    let (tx, rx) = channel::<&'static str>();
    let (l2, p2, tx2) = (log.clone(), plan.clone(), tx.clone());
    let tid = Arc::new(Mutex::new(0i32));
    let t2 = tid.clone();
    let th = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            *t2.lock().unwrap() = crate::gettid();
            interpose::adopt_thread(p2.cfg.hash_seed, tx2.clone());
            body(p2, factory, l2);
            let _ = tx2.send("");
        })
        .expect("cannot start a simulation thread");
    drop(tx);
    let mut cpu_at = 0u64;
    let why: &'static str = loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(why) => break why,
            Err(RecvTimeoutError::Timeout) => {
                if let Some(why) = interpose::dying() {
                    break why;
                }
                // Last resort against a computation which never ends: a run
                // costs milliseconds, so 20 s of CPU time are beyond doubt
                let cpu = crate::thread_cpu_ms(*tid.lock().unwrap());
                if cpu_at == 0 {
                    cpu_at = cpu.max(1);
                }
                if cpu > 20_000 {
                    break "a single step does not end (20 s of CPU time)";
                }
            }
            Err(RecvTimeoutError::Disconnected) => break "harness: simulation thread vanished",
        }
    };
    if why.is_empty() {
        let _ = th.join();
    }
    let mut l = match log.try_lock() {
        Ok(l) => l.clone(),
        Err(_) if !why.is_empty() => RunLog::default(), // whoever holds it is not coming back
        Err(_) => log.lock().unwrap().clone(),
    };
    settle_shutdown(&mut l);
    if why.is_empty() {
        l.stray = interpose::flush_stray();
    }
    if !why.is_empty() {
        if th_finished_badly(why) {
            eprintln!("harness error: {} (seed {})", why, plan.seed);
            std::process::exit(3);
        }
        let step = l.steps;
        if l.insts.is_empty() {
            l.insts.push(Inst::default());
        }
        let i = l.insts.last_mut().unwrap();
        i.dead = Some(why.to_string());
        i.dead_kind = if interpose::dying().is_some() { "killed" } else { "stuck" }.into();
        i.dead_step = step;
    }
    l
}

fn th_finished_badly(why: &str) -> bool {
    why.starts_with("harness")
}

/// Alters some of the leaves of a value
fn forge(v: &mut Value, others: &[Value], r: &mut crate::rng::Rng) {
    fn leaves(v: &Value, path: String, out: &mut Vec<(String, Value)>) {
        match v {
            Value::Object(o) => o.iter().for_each(|(k, x)| leaves(x, format!("{}/{}", path, k), out)),
            Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| leaves(x, format!("{}/{}", path, k), out)),
            _ => out.push((path, v.clone())),
        }
    }
    let mut mine = vec![];
    leaves(v, String::new(), &mut mine);
    let mut pool = vec![];
    for o in others {
        leaves(o, String::new(), &mut pool);
    }
    if mine.is_empty() {
        *v = json!({"x": 1});
        return;
    }
    for _ in 0..1 + r.below(3) {
        let path = r.pick(&mine).0.clone();
        let same: Vec<Value> = pool.iter().filter(|p| p.0 == path).map(|p| p.1.clone()).collect();
        let Some(at) = v.pointer_mut(&path) else { continue };
        *at = match r.below(8) {
            0 | 1 if !same.is_empty() => r.pick(&same).clone(),
            2 if !pool.is_empty() => r.pick(&pool).1.clone(),
            3 => Value::Null,
            4 => json!(0),
            5 => json!(*r.pick(&[-1i64, 1, 2, 1000, i64::MAX, i64::MIN, u32::MAX as i64])),
            6 => match &*at {
                // Names of other kinds, as they appear in the data of nobody yet
                Value::String(_) => json!(*r.pick(&["Label", "LocalVar", "Function", "GlobalVar", "DbgAnnotation", "", "file:///nope"])),
                Value::Number(n) => json!(n.as_i64().unwrap_or(0).wrapping_add(*r.pick(&[-1, 1, 7]))),
                _ => json!(r.below(4)),
            },
            _ => match &*at {
                Value::Number(_) => Value::Null,
                Value::Null => json!(r.below(3)),
                _ => json!([]),
            },
        };
    }
}

/// Nanoseconds until something of the server wants to happen by itself
fn next_timer() -> Option<u64> {
    sim::next_timer().into_iter().chain(crate::threads::next_timer()).min()
}
