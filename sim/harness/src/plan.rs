//! A plan is everything that decides a run besides the scheduler's choices:
//! the operations of the simulated editor and the configuration of the world.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pos {
    /// the k-th (modulo their number) name-like token; where: 0 first
    /// character, 1 middle, 2 last character, 3 just behind
    Tok(usize, u8),
    /// (line, column), taken as is
    Abs(u32, u32),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Req {
    Definition,
    Declaration,
    References,
    PrepareRename,
    Rename,
    CodeAction,
    Symbols,
    Folding,
    Inlay,
    Lens,
    Tokens,
}

/// How the editor reacts to a `hyperir/showDot` request
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Reply {
    Ok,
    Err,
    /// `result: null`
    Null,
    /// not at all; the command is cancelled in the end
    Never,
    /// a second reply to the same request follows
    Twice,
    /// a reply to an id the server never used comes first
    UnknownFirst,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Init,
    Open { doc: usize, text: String, version: i32 },
    /// full-text changes; several or none per notification
    Change { doc: usize, version: i32, texts: Vec<String> },
    Close { doc: usize },
    Req { doc: usize, kind: Req, pos: Pos, arg: String },
    /// `codeAction/resolve` of the n-th last offered action
    Resolve { back: usize },
    /// the same with altered `data`, as a broken or malicious editor would send it
    Forge { back: usize, salt: u64 },
    /// apply the n-th last received edit and send the new text
    Apply { back: usize, version: i32 },
    /// run `visualize-cfg` for the n-th function of the document, or a name
    Cfg { doc: usize, func: String, nth: usize, reply: Reply, delay: usize },
    /// cancel the n-th last request
    Cancel { back: usize },
    /// any other message; `id` tells whether it is a request
    Raw { method: String, params: Value, id: bool },
    /// a request reusing the id of the last outstanding one
    DupId,
    /// create, replace or remove an entry of the simulated file system
    Fs { path: String, node: Option<char> },
    /// the server process disappears; the editor restarts it
    Crash,
    Shutdown,
    Exit,
    /// wait until nothing is outstanding
    Sync,
    /// let simulated time pass (milliseconds)
    Sleep(u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum End {
    /// drained, probed, shutdown + exit + end of input
    Clean,
    /// drained, probed, end of input
    Eof,
    /// end of input right after the last operation
    EofBusy,
    /// end of input within a message
    EofMidFrame,
    /// drained, then the pipe to the editor breaks and input ends
    BrokenPipe,
    /// drained, then reading fails
    ReadError,
    /// drained and probed, the process keeps running
    Keep,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub hash_seed: u64,
    /// 0 none, 1, 8 and 12 full lazy resolving; others lack one of its parts
    pub lazy: u8,
    /// 0 folders, 1 rootUri, 2 neither, 3 both, 4 rootUri and `null` folders
    pub root_mode: u8,
    pub roots: Vec<String>,
    pub fs: BTreeMap<String, char>,
    /// scheduler weights: poll, deliver, credit, reply, issue, spurious, fs/time
    pub w: [u32; 6],
    /// 0: everything at once .. 3: byte by byte
    pub frag: u8,
    pub max_read: usize,
    pub max_write: usize,
    /// bytes the editor reads at a time; 0: it never stalls
    pub credit: usize,
    /// at most this many unanswered requests
    pub window: usize,
    /// 0 plain header, 1 Content-Type first, 2 Content-Type last
    pub header: u8,
    /// 0 numbers, 1 strings, 2 both
    pub ids: u8,
    pub uris: Vec<String>,
    /// does the editor wait for the answer to `initialize`?
    pub patient: bool,
    /// does the editor send more messages behind waiting commands than the server's queue holds?
    #[serde(default)]
    pub flood: bool,
    pub end: End,
}

impl Cfg {
    pub fn lazy_supported(&self) -> bool {
        matches!(self.lazy, 1 | 8 | 12)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub profile: String,
    pub cfg: Cfg,
    pub ops: Vec<Op>,
    /// the scheduler's choices; absent: drawn from the seed
    pub choices: Option<Vec<u32>>,
}
