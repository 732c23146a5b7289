//! A reader for the DOT language, as Graphviz defines it.
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    /// an unquoted word which is a keyword
    Key(String),
    P(char),
    Edge(bool),
}

fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut line_start = true;
    while i < c.len() {
        match c[i] {
            '\n' => {
                line_start = true;
                i += 1;
                continue;
            }
            x if x.is_whitespace() => i += 1,
            '#' if line_start => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                    i += 1;
                }
                i += 2;
            }
            '{' | '}' | '[' | ']' | ';' | ',' | '=' | ':' => {
                out.push(T::P(c[i]));
                i += 1;
            }
            '-' if matches!(c.get(i + 1), Some('>') | Some('-')) => {
                out.push(T::Edge(c[i + 1] == '>'));
                i += 2;
            }
            '"' => {
                let mut v = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("unterminated string".into()),
                        Some('"') => break,
                        Some('\\') if c.get(i + 1) == Some(&'"') => {
                            v.push('"');
                            i += 2;
                        }
                        Some(x) => {
                            v.push(*x);
                            i += 1;
                        }
                    }
                }
                i += 1;
                out.push(T::Id(v));
            }
            x if x.is_ascii_digit() || x == '.' || x == '-' => {
                let mut v = String::from(x);
                i += 1;
                while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                    v.push(c[i]);
                    i += 1;
                }
                out.push(T::Id(v));
            }
            x if x.is_ascii_alphabetic() || x == '_' || !x.is_ascii() => {
                let mut v = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || !c[i].is_ascii()) {
                    v.push(c[i]);
                    i += 1;
                }
                let low = v.to_lowercase();
                out.push(if ["node", "edge", "graph", "digraph", "subgraph", "strict"].contains(&&*low) { T::Key(low) } else { T::Id(v) });
            }
            x => return Err(format!("unexpected character `{}`", x)),
        }
        line_start = false;
    }
    Ok(out)
}

struct P {
    t: Vec<T>,
    i: usize,
    edges: BTreeSet<(String, String)>,
    doubled: bool,
}

impl P {
    fn eat(&mut self, t: &T) -> bool {
        let ok = self.t.get(self.i) == Some(t);
        self.i += ok as usize;
        ok
    }
    fn id(&mut self) -> Option<String> {
        if let Some(T::Id(v)) = self.t.get(self.i) {
            self.i += 1;
            return Some(v.clone());
        }
        None
    }
    fn want(&mut self, t: T) -> Result<(), String> {
        if self.eat(&t) {
            Ok(())
        } else {
            Err(format!("{:?} instead of {:?}", self.t.get(self.i), t))
        }
    }
    fn attrs(&mut self) -> Result<(), String> {
        while self.eat(&T::P('[')) {
            while !self.eat(&T::P(']')) {
                self.id().ok_or("attribute expected")?;
                if self.eat(&T::P('=')) {
                    self.id().ok_or("attribute value expected")?;
                }
                let _ = self.eat(&T::P(';')) || self.eat(&T::P(','));
            }
        }
        Ok(())
    }
    /// A node, or all nodes of a subgraph
    fn end(&mut self) -> Result<Vec<String>, String> {
        if self.eat(&T::Key("subgraph".into())) {
            self.id();
        }
        if self.eat(&T::P('{')) {
            let n = self.stmts()?;
            self.want(T::P('}'))?;
            return Ok(n);
        }
        let n = self.id().ok_or_else(|| format!("{:?} instead of a node", self.t.get(self.i)))?;
        for _ in 0..2 {
            if self.eat(&T::P(':')) {
                self.id().ok_or("port expected")?;
            }
        }
        Ok(vec![n])
    }
    fn stmts(&mut self) -> Result<Vec<String>, String> {
        let mut nodes = vec![];
        while !matches!(self.t.get(self.i), None | Some(T::P('}'))) {
            if self.eat(&T::P(';')) {
                continue;
            }
            if let Some(T::Key(k)) = self.t.get(self.i) {
                if k != "subgraph" {
                    if !matches!(&**k, "node" | "edge" | "graph") || self.t.get(self.i + 1) != Some(&T::P('[')) {
                        return Err(format!("misplaced keyword `{}`", k));
                    }
                    self.i += 1;
                    self.attrs()?;
                    continue;
                }
            }
            if matches!(self.t.get(self.i), Some(T::Id(_))) && self.t.get(self.i + 1) == Some(&T::P('=')) {
                self.i += 2;
                self.id().ok_or("value expected")?;
                continue;
            }
            let mut from = self.end()?;
            nodes.extend(from.clone());
            while self.eat(&T::Edge(true)) {
                let to = self.end()?;
                nodes.extend(to.clone());
                for a in &from {
                    for b in &to {
                        self.doubled |= !self.edges.insert((a.clone(), b.clone()));
                    }
                }
                from = to;
            }
            self.attrs()?;
        }
        Ok(nodes)
    }
}

/// The edges of a directed graph
pub fn edges(dot: &str) -> Result<BTreeSet<(String, String)>, String> {
    let mut p = P {
        t: lex(dot)?,
        i: 0,
        edges: BTreeSet::new(),
        doubled: false,
    };
    let strict = p.eat(&T::Key("strict".into()));
    p.want(T::Key("digraph".into()))?;
    p.id();
    p.want(T::P('{'))?;
    p.stmts()?;
    p.want(T::P('}'))?;
    if p.i < p.t.len() {
        return Err(format!("{:?} after the graph", p.t[p.i]));
    }
    if p.doubled && !strict {
        return Err("an edge is drawn twice".into());
    }
    Ok(p.edges)
}
