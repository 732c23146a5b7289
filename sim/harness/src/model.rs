//! The reference model: what a HyperIR document means, computed from its text
//! alone by a hand-written lexer and recogniser which share no code with the
//! system under test. Positions are (line, UTF-16 column) throughout.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TK {
    Comment,
    Num,
    Hex,
    Str,
    Local,
    Global,
    Dbg,
    Type,
    Ident,
    Modifier,
    Punct,
    Declare,
    Define,
    Newline,
}

/// A range within one line.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct R {
    pub line: u32,
    pub c0: u32,
    pub c1: u32,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: TK,
    pub text: String,
    pub r: R,
    /// byte offsets
    pub start: usize,
    pub end: usize,
    /// a string which spans lines: `r` is meaningless
    pub end_line: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    /// (line, column) of each place where characters had to be skipped
    pub errors: Vec<(u32, u32)>,
    /// constructs on which the model takes no position
    pub unsure: bool,
    pub lines: Vec<u32>,
}

const TYPES: [&str; 10] = [
    "void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr",
];
const MODIFIERS: [&str; 6] = [
    "exported",
    "async",
    "memberfunc",
    "noreturn",
    "nosideeffects",
    "pure",
];

/// LSP line lengths in UTF-16 code units. `\n`, `\r\n` and `\r` end a line.
pub fn line_lengths(text: &str) -> Vec<u32> {
    let mut out = vec![0u32];
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\n' => out.push(0),
            '\r' => {
                if cs.get(i + 1) == Some(&'\n') {
                    i += 1;
                }
                out.push(0)
            }
            c => *out.last_mut().unwrap() += c.len_utf16() as u32,
        }
        i += 1;
    }
    out
}

/// Byte offset of a LSP position; columns past the end of a line are clamped.
pub fn pos_to_byte(text: &str, line: u32, col: u32) -> Option<usize> {
    let mut l = 0u32;
    let mut c = 0u32;
    let mut it = text.char_indices().peekable();
    while let Some((i, ch)) = it.next() {
        if l == line && (c >= col || ch == '\n' || ch == '\r') {
            return Some(i);
        }
        match ch {
            '\n' => {
                l += 1;
                c = 0;
            }
            '\r' => {
                if matches!(it.peek(), Some((_, '\n'))) {
                    it.next();
                }
                l += 1;
                c = 0;
            }
            ch => c += ch.len_utf16() as u32,
        }
    }
    if l == line {
        Some(text.len())
    } else {
        None
    }
}

/// Line separators of the Unicode standard which LSP does not know.
pub fn is_odd_break(c: char) -> bool {
    matches!(c, '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')
}

pub fn lex(text: &str) -> Lexed {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|c| c.1);
    let byte = |i: usize| cs.get(i).map_or(text.len(), |c| c.0);
    let word = |c: char| c.is_alphanumeric() || c == '_';
    // `:`s are part of a name if a further name character follows
    let tail = |mut i: usize| -> usize {
        loop {
            let mut j = i;
            while at(j) == Some(':') {
                j += 1;
            }
            match at(j) {
                Some(c) if word(c) => i = j + 1,
                _ => return i,
            }
        }
    };
    let mut out = Lexed {
        lines: line_lengths(text),
        ..Default::default()
    };
    let (mut i, mut line, mut line_start) = (0usize, 0u32, 0usize);
    let u16len = |a: usize, b: usize| cs[a..b].iter().map(|c| c.1.len_utf16() as u32).sum::<u32>();
    let mut skipping = false;
    while i < cs.len() {
        let c = cs[i].1;
        if c == ' ' || c == '\t' {
            i += 1;
            continue;
        }
        let mut multiline = false;
        let (kind, end) = match c {
            '\n' => (Some(TK::Newline), i + 1),
            '\r' if at(i + 1) == Some('\n') => (Some(TK::Newline), i + 2),
            '#' => {
                let mut j = i;
                while j < cs.len() && at(j) != Some('\n') {
                    if at(j) == Some('\r') {
                        if at(j + 1) == Some('\n') {
                            break;
                        }
                        multiline = true;
                    }
                    j += 1;
                }
                (Some(TK::Comment), j)
            }
            '0' => {
                if at(i + 1) == Some('x') && at(i + 2).map_or(false, |c| c.is_ascii_hexdigit()) {
                    let mut j = i + 3;
                    if at(i + 2) == Some('0') {
                        out.unsure |= at(j).map_or(false, word);
                    } else {
                        while at(j).map_or(false, |c| c.is_ascii_hexdigit()) {
                            j += 1;
                        }
                    }
                    (Some(TK::Hex), j)
                } else {
                    (Some(TK::Num), i + 1)
                }
            }
            '1'..='9' => {
                let mut j = i + 1;
                while at(j).map_or(false, |c| c.is_ascii_digit()) {
                    j += 1;
                }
                (Some(TK::Num), j)
            }
            '"' => {
                let mut j = i + 1;
                while j < cs.len() && at(j) != Some('"') {
                    multiline |= matches!(at(j), Some('\n') | Some('\r'));
                    j += 1;
                }
                if j < cs.len() {
                    (Some(TK::Str), j + 1)
                } else {
                    multiline = false;
                    (None, i + 1)
                }
            }
            '@' => (Some(TK::Global), tail(i + 1)),
            '%' => (Some(TK::Local), tail(i + 1)),
            '!' => (Some(TK::Dbg), tail(i + 1)),
            c if "[]{}()<>=,;:*.".contains(c) => (Some(TK::Punct), i + 1),
            c if c.is_alphabetic() || c == '_' => (Some(TK::Ident), tail(i + 1)),
            _ => (None, i + 1),
        };
        let col = u16len(line_start, i);
        match kind {
            None => {
                // Consecutive unknown characters are one error
                if !skipping {
                    out.errors.push((line, col));
                }
                skipping = true;
                out.unsure |= is_odd_break(c);
                if c == '\r' {
                    line += 1;
                    line_start = end;
                }
            }
            Some(kind) => {
                skipping = false;
                let t = text[byte(i)..byte(end)].to_string();
                let kind = match kind {
                    TK::Ident if t == "declare" => TK::Declare,
                    TK::Ident if t == "define" => TK::Define,
                    TK::Ident if TYPES.contains(&t.as_str()) => TK::Type,
                    TK::Ident if MODIFIERS.contains(&t.as_str()) => TK::Modifier,
                    k => k,
                };
                out.unsure |= t.chars().any(is_odd_break);
                out.toks.push(Tok {
                    kind,
                    r: R {
                        line,
                        c0: col,
                        c1: col + u16len(i, end),
                    },
                    start: byte(i),
                    end: byte(end),
                    text: t,
                    end_line: line,
                });
                if kind == TK::Newline {
                    line += 1;
                    line_start = end;
                } else if multiline {
                    for k in i..end {
                        if at(k) == Some('\n') || (at(k) == Some('\r') && at(k + 1) != Some('\n')) {
                            line += 1;
                            line_start = k + 1;
                        }
                    }
                    out.toks.last_mut().unwrap().end_line = line;
                }
            }
        }
        i = end;
    }
    out
}

// ---------------------------------------------------------------- structure

#[derive(Clone, Debug)]
pub struct Instr {
    pub target: Option<usize>,
    pub name: usize,
    pub refs: Vec<usize>,
    pub dbg: Option<usize>,
    /// last token
    pub last: usize,
    pub first: usize,
}
#[derive(Clone, Debug)]
pub struct Block {
    pub label: Option<usize>,
    pub colon: Option<usize>,
    pub instrs: Vec<Instr>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub define: usize,
    pub name: usize,
    pub args: Vec<usize>,
    pub blocks: Vec<Block>,
    pub close: usize,
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Global { name: usize },
    Decl { name: usize, dbg: Option<usize> },
    Def(Func),
    Depends,
    Annot { name: usize, soup: Vec<usize> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    GlobalVar,
    Function,
    Dbg,
    Label,
    Local,
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub kind: Kind,
    pub func: Option<usize>,
    pub name: String,
    pub decls: Vec<R>,
    pub defs: Vec<R>,
    pub uses: Vec<R>,
    pub ext: Vec<(String, u32)>,
}

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub toks: Vec<Tok>,
    pub lex_errors: Vec<(u32, u32)>,
    /// token regions which belong to no statement: first, one past the last,
    /// and the furthest token looked at when trying to make sense of it
    pub skipped: Vec<(usize, usize, usize)>,
    pub funcs: Vec<Func>,
    pub decl_count: usize,
    pub syms: Vec<Sym>,
    pub annots: BTreeMap<String, String>,
    pub lines: Vec<u32>,
    /// one debug reference declares several functions
    pub ext_unsure: bool,
}

/// Recogniser over the tokens without comments. Every function returns the
/// position after what it recognised.
struct P<'a> {
    t: &'a [Tok],
    ix: Vec<usize>,
    unsure: std::cell::Cell<bool>,
    far: std::cell::Cell<usize>,
}

impl<'a> P<'a> {
    fn tok(&self, p: usize) -> Option<&'a Tok> {
        self.far.set(self.far.get().max(p));
        self.ix.get(p).map(|i| &self.t[*i])
    }
    fn kind(&self, p: usize) -> Option<TK> {
        self.tok(p).map(|t| t.kind)
    }
    fn is(&self, p: usize, k: TK) -> Option<usize> {
        (self.kind(p) == Some(k)).then_some(p + 1)
    }
    fn punct(&self, p: usize, s: &str) -> Option<usize> {
        (self.kind(p) == Some(TK::Punct) && self.tok(p).unwrap().text == s).then_some(p + 1)
    }
    fn ident(&self, p: usize, s: &str) -> Option<usize> {
        (self.kind(p) == Some(TK::Ident) && self.tok(p).unwrap().text == s).then_some(p + 1)
    }
    fn nls(&self, mut p: usize) -> usize {
        while self.kind(p) == Some(TK::Newline) {
            p += 1;
        }
        p
    }
    fn eol(&self, p: usize) -> Option<usize> {
        match self.kind(p) {
            None => Some(p),
            Some(TK::Newline) => Some(p + 1),
            _ => None,
        }
    }
    fn line_end(&self, mut p: usize) -> usize {
        while !matches!(self.kind(p), None | Some(TK::Newline)) {
            p += 1;
        }
        p
    }

    fn signature(&self, mut p: usize) -> Option<(usize, Vec<usize>, usize)> {
        while self.kind(p) == Some(TK::Modifier) {
            p += 1;
        }
        p = self.is(p, TK::Type)?;
        let name = p;
        p = self.is(p, TK::Global)?;
        p = self.punct(p, "(")?;
        let mut args = vec![];
        if let (Some(TK::Type), Some(TK::Local)) = (self.kind(p), self.kind(p + 1)) {
            args.push(p + 1);
            p += 2;
            while self.punct(p, ",").is_some()
                && self.kind(p + 1) == Some(TK::Type)
                && self.kind(p + 2) == Some(TK::Local)
            {
                args.push(p + 2);
                p += 3;
            }
        }
        p = self.punct(p, ")")?;
        Some((name, args, p))
    }

    /// `[dbgref]` and the (not consumed) end of the line
    fn instr_end(&self, p: usize) -> Option<(Option<usize>, usize)> {
        let (d, p) = if self.kind(p) == Some(TK::Dbg) {
            (Some(p), p + 1)
        } else {
            (None, p)
        };
        (self.kind(p) == Some(TK::Newline)).then_some((d, p))
    }

    fn branch(&self, p: usize) -> Option<(Vec<usize>, Option<usize>, usize)> {
        // br label
        if self.ident(p, "br").is_some() && self.kind(p + 1) == Some(TK::Ident) {
            if let Some((d, e)) = self.instr_end(p + 2) {
                return Some((vec![p + 1], d, e));
            }
        }
        // br int1 cond, label, label
        let cond = || -> Option<(Vec<usize>, Option<usize>, usize)> {
            self.ident(p, "br")?;
            if self.tok(p + 1)?.text != "int1" || self.kind(p + 1) != Some(TK::Type) {
                return None;
            }
            self.tok(p + 2)?;
            let a = self.punct(p + 3, ",")?;
            self.is(a, TK::Ident)?;
            let b = self.punct(a + 1, ",")?;
            self.is(b, TK::Ident)?;
            let (d, e) = self.instr_end(b + 1)?;
            Some((vec![a, b], d, e))
        };
        if let Some(r) = cond() {
            return Some(r);
        }
        // somethingbr .., cont=label, overflow=label
        let overflow = || -> Option<(Vec<usize>, Option<usize>, usize)> {
            self.is(p, TK::Ident)?;
            let a = self.find_arg(p + 1, "cont")?;
            self.is(a, TK::Ident)?;
            let o = self.punct(a + 1, ",")?;
            let o = self.ident(o, "overflow")?;
            let b = self.punct(o, "=")?;
            self.is(b, TK::Ident)?;
            let (d, e) = self.instr_end(b + 1)?;
            if !self.tok(p)?.text.ends_with("br") {
                self.unsure.set(true);
            }
            Some((vec![a, b], d, e))
        };
        if let Some(r) = overflow() {
            return Some(r);
        }
        // switch .., default=label, type val label=label, ..
        let switch = || -> Option<(Vec<usize>, Option<usize>, usize)> {
            self.ident(p, "switch")?;
            let d = self.find_arg(p + 1, "default")?;
            self.is(d, TK::Ident)?;
            let mut refs = vec![d];
            let mut q = self.punct(d + 1, ",")?;
            let case = |q: usize| -> Option<usize> {
                self.is(q, TK::Type)?;
                self.tok(q + 1)?;
                let l = self.ident(q + 2, "label")?;
                let l = self.punct(l, "=")?;
                self.is(l, TK::Ident)
            };
            if let Some(e) = case(q) {
                refs.push(e - 1);
                q = e;
                while let Some(e) = self.punct(q, ",").and_then(case) {
                    refs.push(e - 1);
                    q = e;
                }
            }
            let (d, e) = self.instr_end(q)?;
            Some((refs, d, e))
        };
        if let Some(r) = switch() {
            return Some(r);
        }
        // phi [label, ..], [label, ..]
        let phi = || -> Option<(Vec<usize>, Option<usize>, usize)> {
            self.ident(p, "phi")?;
            let mut refs = vec![];
            let mut q = p + 1;
            let entry = |q: usize| -> Option<(usize, usize)> {
                let l = self.punct(q, "[")?;
                self.is(l, TK::Ident)?;
                let mut e = self.punct(l + 1, ",")?;
                while self.punct(e, "]").is_none() {
                    if matches!(self.kind(e), None | Some(TK::Newline)) {
                        return None;
                    }
                    e += 1;
                }
                Some((l, e + 1))
            };
            if let Some((l, e)) = entry(q) {
                refs.push(l);
                q = e;
                while let Some((l, e)) = self.punct(q, ",").and_then(entry) {
                    refs.push(l);
                    q = e;
                }
            }
            let (d, e) = self.instr_end(q)?;
            Some((refs, d, e))
        };
        phi()
    }

    /// The token after `, <key>=`
    fn find_arg(&self, mut p: usize, key: &str) -> Option<usize> {
        loop {
            if matches!(self.kind(p), None | Some(TK::Newline)) {
                return None;
            }
            if self.punct(p, ",").is_some() {
                if self.ident(p + 1, key).is_some() {
                    return self.punct(p + 2, "=");
                }
                // A comma directly in front of a comma or the line's end
                if self.punct(p + 1, ",").is_some() || matches!(self.kind(p + 1), None | Some(TK::Newline)) {
                    self.unsure.set(true);
                    return None;
                }
                p += 1;
            }
            p += 1;
        }
    }

    fn instr(&self, p0: usize) -> Option<(Instr, usize)> {
        let mut p = p0;
        let mut target = None;
        if self.kind(p) == Some(TK::Type)
            && self.kind(p + 1) == Some(TK::Local)
            && self.punct(p + 2, "=").is_some()
        {
            target = Some(p + 1);
            p += 3;
        }
        self.is(p, TK::Ident)?;
        let (refs, dbg, e) = match self.branch(p) {
            Some(r) => r,
            None => {
                // Any other instruction: not a label, and a debug reference only at its end
                if self.punct(p + 1, ":").is_some() || self.tok(p + 1).is_none() {
                    return None;
                }
                let mut q = p + 1;
                while !matches!(self.kind(q), None | Some(TK::Newline) | Some(TK::Dbg)) {
                    q += 1;
                }
                let (d, e) = self.instr_end(q)?;
                (vec![], d, e)
            }
        };
        Some((
            Instr {
                target,
                name: p,
                refs,
                dbg,
                last: e - 1,
                first: p0,
            },
            e,
        ))
    }

    fn instrs(&self, mut p: usize) -> (Vec<Instr>, usize) {
        let mut out = vec![];
        while let Some((i, e)) = self.instr(self.nls(p)) {
            out.push(i);
            p = self.nls(e);
        }
        (out, p)
    }

    fn func_def(&self, p0: usize) -> Option<(Func, usize)> {
        let p = self.is(p0, TK::Define)?;
        let (name, args, p) = self.signature(p)?;
        let p = self.punct(p, "{")?;
        self.is(p, TK::Newline)?;
        let mut p = self.nls(p);
        let mut blocks = vec![];
        let (first, e) = self.instrs(p);
        if !first.is_empty() {
            blocks.push(Block {
                label: None,
                colon: None,
                instrs: first,
            });
            p = e;
        }
        while self.kind(p) == Some(TK::Ident)
            && self.punct(p + 1, ":").is_some()
            && self.kind(p + 2) == Some(TK::Newline)
        {
            let (instrs, e) = self.instrs(self.nls(p + 2));
            blocks.push(Block {
                label: Some(p),
                colon: Some(p + 1),
                instrs,
            });
            p = e;
        }
        let close = p;
        let p = self.punct(p, "}")?;
        let p = self.eol(p)?;
        Some((
            Func {
                define: p0,
                name,
                args,
                blocks,
                close,
            },
            p,
        ))
    }

    fn stmt(&self, p: usize) -> Option<(Stmt, usize)> {
        match self.kind(p)? {
            TK::Global => {
                if self.punct(p + 1, "=").is_some() {
                    let e = self.line_end(p + 2);
                    return Some((Stmt::Global { name: p }, self.eol(e)?));
                }
                let q = self.ident(p + 1, "depends")?;
                let mut q = self.ident(q, "on")?;
                if self.kind(q) == Some(TK::Global) {
                    q += 1;
                    while self.punct(q, ",").is_some() && self.kind(q + 1) == Some(TK::Global) {
                        q += 2;
                    }
                }
                Some((Stmt::Depends, q))
            }
            TK::Declare => {
                let (name, _, mut q) = self.signature(p + 1)?;
                if self.punct(q, "=").is_some() && self.kind(q + 1) == Some(TK::Hex) {
                    q += 2;
                }
                let mut dbg = None;
                if self.kind(q) == Some(TK::Dbg) {
                    dbg = Some(q);
                    q += 1;
                }
                Some((Stmt::Decl { name, dbg }, self.eol(q)?))
            }
            TK::Define => self.func_def(p).map(|(f, e)| (Stmt::Def(f), e)),
            TK::Dbg => {
                let s = self.punct(p + 1, "=")?;
                let e = self.line_end(s);
                Some((
                    Stmt::Annot {
                        name: p,
                        soup: (s..e).collect(),
                    },
                    self.eol(e)?,
                ))
            }
            _ => None,
        }
    }
}

/// None: the text contains something the model takes no position on.
pub fn analyze(text: &str) -> Option<Module> {
    let lexed = lex(text);
    if lexed.unsure || text.chars().any(is_odd_break) {
        return None;
    }
    let ix: Vec<usize> = (0..lexed.toks.len())
        .filter(|i| lexed.toks[*i].kind != TK::Comment)
        .collect();
    let p = P {
        t: &lexed.toks,
        ix,
        unsure: Default::default(),
        far: Default::default(),
    };
    let mut far = 0;
    let mut stmts = vec![];
    let mut skipped = vec![];
    let mut pos = p.nls(0);
    let mut skip_from: Option<usize> = None;
    while pos < p.ix.len() {
        p.far.set(pos);
        match p.stmt(pos) {
            Some((s, e)) => {
                if let Some(f) = skip_from.take() {
                    let far = p.ix.get(far).copied().unwrap_or(lexed.toks.len());
                    skipped.push((p.ix[f], p.ix[pos], far));
                }
                far = 0;
                stmts.push(s);
                pos = p.nls(e);
            }
            None => {
                skip_from.get_or_insert(pos);
                far = far.max(p.far.get());
                pos += 1;
            }
        }
    }
    if let Some(f) = skip_from {
        skipped.push((p.ix[f], lexed.toks.len(), lexed.toks.len()));
    }
    if p.unsure.get() {
        return None;
    }
    let ix = p.ix.clone();
    let tk = |i: usize| &lexed.toks[ix[i]];

    let mut m = Module {
        lex_errors: lexed.errors.clone(),
        skipped,
        lines: lexed.lines.clone(),
        ..Default::default()
    };
    // All symbols, keyed by (kind, function, name)
    let mut syms: BTreeMap<(Kind, Option<usize>, String), Sym> = BTreeMap::new();
    let mut seen: BTreeSet<(Kind, Option<usize>, String, R)> = BTreeSet::new();
    let mut add = |k: Kind, f: Option<usize>, t: &Tok, what: u8| {
        let key = (k, f, t.text.clone());
        let s = syms.entry(key).or_insert_with(|| Sym {
            kind: k,
            func: f,
            name: t.text.clone(),
            decls: vec![],
            defs: vec![],
            uses: vec![],
            ext: vec![],
        });
        if !seen.insert((k, f, t.text.clone(), t.r)) {
            return;
        }
        match what {
            0 => s.decls.push(t.r),
            1 => s.defs.push(t.r),
            _ => s.uses.push(t.r),
        }
    };
    let mut fnames: BTreeSet<String> = BTreeSet::new();
    let mut gnames: BTreeSet<String> = BTreeSet::new();
    let mut dbg_to_func: BTreeMap<String, String> = BTreeMap::new();
    let mut ext: Vec<(String, String, u32)> = vec![];
    for s in &stmts {
        match s {
            Stmt::Global { name } => {
                gnames.insert(tk(*name).text.clone());
                add(Kind::GlobalVar, None, tk(*name), 1)
            }
            Stmt::Decl { name, dbg } => {
                m.decl_count += 1;
                fnames.insert(tk(*name).text.clone());
                add(Kind::Function, None, tk(*name), 0);
                if let Some(d) = dbg {
                    let prev = dbg_to_func.insert(tk(*d).text.clone(), tk(*name).text.clone());
                    m.ext_unsure |= prev.map_or(false, |p| p != tk(*name).text);
                }
            }
            Stmt::Depends => {}
            Stmt::Annot { name, soup } => {
                add(Kind::Dbg, None, tk(*name), 1);
                if let (Some(a), Some(b)) = (soup.first(), soup.last()) {
                    m.annots.insert(
                        tk(*name).text.clone(),
                        text[tk(*a).start..tk(*b).end].to_string(),
                    );
                }
                if let (Some(f), [one]) = (dbg_to_func.get(&tk(*name).text), &soup[..]) {
                    if tk(*one).kind == TK::Str {
                        let v = tk(*one).text.trim_matches('"').to_string();
                        if let [path, line] = v.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = line.parse::<u32>() {
                                ext.push((f.clone(), path.to_string(), line));
                            }
                        }
                    }
                }
            }
            Stmt::Def(f) => {
                let id = m.funcs.len();
                fnames.insert(tk(f.name).text.clone());
                add(Kind::Function, None, tk(f.name), 1);
                for a in &f.args {
                    add(Kind::Local, Some(id), tk(*a), 1);
                }
                for b in &f.blocks {
                    if let Some(l) = b.label {
                        add(Kind::Label, Some(id), tk(l), 1);
                    }
                    for i in &b.instrs {
                        if let Some(t) = i.target {
                            add(Kind::Local, Some(id), tk(t), 1);
                        }
                        for r in &i.refs {
                            add(Kind::Label, Some(id), tk(*r), 2);
                        }
                    }
                }
                m.funcs.push(f.clone());
            }
        }
    }
    if fnames.intersection(&gnames).next().is_some() {
        return None; // a name which is both a variable and a function
    }
    for t in &lexed.toks {
        match t.kind {
            TK::Global if fnames.contains(&t.text) => add(Kind::Function, None, t, 2),
            TK::Global => add(Kind::GlobalVar, None, t, 2),
            TK::Dbg => add(Kind::Dbg, None, t, 2),
            TK::Local => {
                let f = m.funcs.iter().position(|f| {
                    tk(f.define).start <= t.start && t.start < tk(f.close).end
                });
                if let Some(f) = f {
                    add(Kind::Local, Some(f), t, 2)
                }
            }
            _ => {}
        }
    }
    for (f, path, line) in ext {
        if let Some(s) = syms.get_mut(&(Kind::Function, None, f)) {
            s.ext.push((path, line))
        }
    }
    m.syms = syms.into_values().collect();
    // Token indexes without comments -> all tokens
    for f in &mut m.funcs {
        f.define = ix[f.define];
        f.name = ix[f.name];
        f.close = ix[f.close];
        for a in &mut f.args {
            *a = ix[*a];
        }
        for b in &mut f.blocks {
            b.label = b.label.map(|l| ix[l]);
            b.colon = b.colon.map(|l| ix[l]);
            for i in &mut b.instrs {
                i.target = i.target.map(|l| ix[l]);
                i.name = ix[i.name];
                i.first = ix[i.first];
                i.last = ix[i.last];
                i.dbg = i.dbg.map(|l| ix[l]);
                for r in &mut i.refs {
                    *r = ix[*r];
                }
            }
        }
    }
    m.toks = lexed.toks;
    Some(m)
}

impl Module {
    pub fn well_formed(&self) -> bool {
        self.lex_errors.is_empty() && self.skipped.is_empty()
    }

    /// The symbol under the cursor. `Err`: just behind a symbol, where
    /// reasonable implementations differ.
    pub fn symbol_at(&self, line: u32, col: u32) -> Result<Option<(&Sym, R)>, ()> {
        let col = col.min(self.lines.get(line as usize).copied().unwrap_or(0));
        let mut behind = false;
        for s in &self.syms {
            for r in s.decls.iter().chain(&s.defs).chain(&s.uses) {
                if r.line == line && r.c0 <= col && col < r.c1 {
                    return Ok(Some((s, *r)));
                }
                behind |= r.line == line && r.c1 == col;
            }
        }
        if behind {
            Err(())
        } else {
            Ok(None)
        }
    }

    pub fn tok(&self, i: usize) -> &Tok {
        &self.toks[i]
    }
    pub fn is_branch(&self, i: &Instr) -> bool {
        let n = &self.toks[i.name].text;
        n.ends_with("br") || n == "switch"
    }
    /// Control flow edges (from, to) between labelled blocks, in text order
    pub fn edges(&self, f: &Func) -> Vec<(String, R, String)> {
        let mut out = vec![];
        for b in &f.blocks {
            let Some(l) = b.label else { continue };
            for i in &b.instrs {
                if self.is_branch(i) {
                    for r in &i.refs {
                        out.push((
                            self.toks[l].text.clone(),
                            self.toks[l].r,
                            self.toks[*r].text.clone(),
                        ));
                    }
                }
            }
        }
        out
    }
}

/// Trailing number of an identifier: (prefix, number)
pub fn split_number(id: &str) -> Option<(&str, i64)> {
    let name = id.trim_end_matches(|c: char| c.is_numeric());
    let nr = &id[name.len()..];
    Some((name, nr.parse().ok()?))
}

/// Is `new_name` (with or without its prefix) acceptable? None: no position.
pub fn rename_target(kind: Kind, new_name: &str) -> Option<Result<String, ()>> {
    let prefix = match kind {
        Kind::GlobalVar | Kind::Function => "@",
        Kind::Dbg => "!",
        Kind::Label => "",
        Kind::Local => "%",
    };
    let bare = new_name.strip_prefix(prefix).unwrap_or(new_name);
    if bare.is_empty() || bare.chars().any(|c| !c.is_alphanumeric() && c != '_' && c != ':') {
        return Some(Err(()));
    }
    let first = bare.chars().next().unwrap();
    if first.is_numeric() && kind != Kind::Dbg {
        return Some(Err(()));
    }
    if bare.ends_with(':') {
        return Some(Err(()));
    }
    if first == ':' {
        return if kind == Kind::Label { Some(Err(())) } else { None };
    }
    if kind == Kind::Label
        && (TYPES.contains(&bare)
            || MODIFIERS.contains(&bare)
            || bare == "declare"
            || bare == "define")
    {
        return Some(Err(()));
    }
    Some(Ok(format!("{}{}", prefix, bare)))
}
