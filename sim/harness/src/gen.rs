//! Workload documents: HyperIR modules, the edits a user makes to them, and
//! the damage an editor session meets (half-typed lines, torn tails, garbage).
use crate::rng::Rng;

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub unicode: bool,
    pub crlf: bool,
    /// dangling references, duplicates, missing blocks
    pub sloppy: bool,
    pub backtraces: bool,
    /// annotations are mostly source locations
    pub sources: bool,
    pub max_funcs: usize,
    /// names of different kinds, functions and documents are alike
    pub collide: bool,
    /// numbers with leading zeros, huge ones, digits of other scripts
    pub odd_numbers: bool,
    /// tabs, several blanks and blanks at line ends
    pub loose: bool,
}

const TYPES: [&str; 9] = ["int32", "int64", "int1", "ptr", "data128", "float64", "int8", "int16", "float32"];
const COMMON: [&str; 7] = ["a", "x1", "x2", "v1", "v2", "body_0", "done"];

/// The number at the end of a name
fn num(r: &mut Rng, st: &Style, i: usize) -> String {
    if !st.odd_numbers || r.chance(1, 2) {
        return i.to_string();
    }
    match r.below(8) {
        0 => format!("0{}", i),
        1 => format!("00{}", i),
        2 => format!("{}", i64::MAX - i as i64),
        3 => format!("9{}", i64::MAX),
        4 => "٣".to_string(),
        5 => format!("{}²", i),
        6 => format!("½{}", i),
        _ => format!("{}", 9 + i),
    }
}

/// Names as templates and mangling produce them
fn long_name(r: &mut Rng, st: &Style, i: usize) -> String {
    let part = if st.unicode { *r.pick(&["hyper::rts", "größer", "テーブル", "a_b"]) } else { *r.pick(&["hyper::rts", "_ZN5hyper", "a_b"]) };
    let mut s = format!("@{}", "x".repeat(r.below(4)));
    let n = r.range(8, 120);
    while s.chars().count() < n {
        s += part;
        s += "_";
    }
    format!("{}n{}", s, i)
}

fn gname(r: &mut Rng, st: &Style, i: usize) -> String {
    if st.collide {
        return format!("@{}", COMMON[i % COMMON.len()]);
    }
    if r.chance(1, 25) {
        return long_name(r, st, i);
    }
    let i = num(r, st, i);
    let n = i.parse::<usize>().unwrap_or(7);
    match r.below(if st.unicode { 7 } else { 5 }) {
        0 => format!("@g{}", i),
        1 => format!("@ns::var_{}", i),
        2 => format!("@{}", n.wrapping_add(1)),
        3 => format!("@_tab:{}", n.wrapping_add(10)),
        4 => format!("@glob{}x", i),
        5 => format!("@größe_{}", i),
        _ => format!("@変数{}", i),
    }
}
fn fname(r: &mut Rng, st: &Style, i: usize) -> String {
    if st.collide {
        return COMMON.get(i + 3).map_or(format!("@f{}", i), |c| format!("@{}", c));
    }
    if r.chance(1, 25) {
        return long_name(r, st, i + 50);
    }
    if st.odd_numbers && r.chance(1, 2) {
        return format!("@func{}", num(r, st, i));
    }
    match r.below(if st.unicode { 6 } else { 5 }) {
        0 => format!("@_{}_test", i),
        1 => format!("@hyper::rts::Fn{}", i),
        2 => format!("@func{}", i + 1),
        3 => format!("@a{}::b::c_{}", i, i + 7),
        4 => format!("@run{}", i),
        _ => format!("@überfn{}", i),
    }
}

fn comment(r: &mut Rng, st: &Style) -> String {
    if st.unicode && r.chance(1, 2) {
        r.pick(&["# größer als 5", "# 日本語 comment", "# emoji 😀 here", "#é"])
            .to_string()
    } else {
        r.pick(&["# comment", "#", "# note: %v1 @g0 !3 \" unbalanced", "# -> done"])
            .to_string()
    }
}

pub struct Names {
    pub globals: Vec<String>,
    pub funcs: Vec<String>,
    pub dbgs: Vec<String>,
}

/// File names as Hyper prints them, and some it should not
fn source_file(r: &mut Rng, st: &Style) -> String {
    match r.below(16) {
        0 => "hyper/ir/Builder.cpp".to_string(),
        1 => "hyper/codegen/Gen.cpp".to_string(),
        2 | 3 => "src/a.cpp".to_string(),
        4 => "./src/b.cpp".to_string(),
        5 => "src/only1.cpp".to_string(),
        6 => "win/path/c.cpp".to_string(),
        7 => "src/dir/d.cpp".to_string(),
        8 => "src/sp ace.cpp".to_string(),
        9 if st.unicode => "src/größe.cpp".to_string(),
        10 => "src/x#1.cpp".to_string(),
        11 => "src/100%.cpp".to_string(),
        12 => "a.cpp".to_string(),
        13 => "hyper/ircode/e.cpp".to_string(),
        14 => "src/q?y.cpp".to_string(),
        _ => format!("missing/x{}.cpp", r.below(3)),
    }
}

fn line_number(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "0".into(),
        1 => "1".into(),
        2 => "4294967295".into(),
        3 => "4294967296".into(),
        4 => "-3".into(),
        5 => "12:7".into(),
        6 => "".into(),
        7 => "x".into(),
        8 => "007".into(),
        _ => r.below(100).to_string(),
    }
}

pub fn backtrace_json(r: &mut Rng, st: &Style) -> String {
    let n = match r.below(96) {
        0 => r.range(20, 90),
        1..=8 => 5 + r.below(8),
        _ => r.below(4),
    };
    let mut frames = vec![];
    let team = r.chance(1, 3);
    for _ in 0..n {
        let long = "hyper::algebra::translation::SomeVeryLongTranslator::produceSomethingElse";
        let sym = match if team { *r.pick(&[0, 1, 2, 3, 8, 9, 14]) } else { r.below(16) } {
            0 => "hyper::TableScanTranslator::consume(int)".to_string(),
            1 => "FooTranslator::deriveValue".to_string(),
            2 => "Translator::drivePipeline".to_string(),
            3 => "XTranslator::produceMaterializedResult".to_string(),
            4 => "".to_string(),
            5 => long[..r.range(44, 54)].to_string(),
            6 if st.unicode => "fünktion<日本>::größte".repeat(r.range(1, 4)),
            7 => "operator*[x](`y`)".to_string(),
            8 => "Translator::other".to_string(),
            12 => "ns::operator+=<a_b-c, d/e*>::~f(x=1)".to_string(),
            13 => "](http://e.vil) <b>![i](j) {k} | $l; #m & 'n' ^ ~ @o %p ?".to_string(),
            9 => "JoinTranslator::consumeLeft".to_string(),
            14 => r
                .pick(&[
                    "void hyper::XTranslator::consume(Ctx &, int) const",
                    "std::function<void (Translator::consume)>::operator()(int) const",
                    "virtual Translator::deriveValue",
                    "(anonymous namespace)::YTranslator::drivePipeline() [clone .cold]",
                    "Translator",
                    "translator::consume(x)",
                    "Translator:: consume",
                    "consume Translator::produceMaterializedResult",
                    "lambda#1 in Translator::produce",
                ])
                .to_string(),
            10 => "esc\\u00e4pe\\\\d \\t tab".to_string(),
            11 => {
                let n = if r.chance(1, 6) { 600 } else { 60 };
                format!("{}{}", "x".repeat(r.below(5)), r.pick(&["😀", "é", "日"]).repeat(r.range(1, n)))
            }
            _ => format!("helper{}", r.below(5)),
        };
        let file = match r.below(8) {
            0 => "noline.cpp".to_string(),
            1 => "win\\\\path\\\\c.cpp:9".to_string(),
            2 => "mixed/dir\\\\c.cpp:9".to_string(),
            _ => format!("{}:{}", source_file(r, st), line_number(r)),
        };
        frames.push(match r.below(14) {
            0 => format!("[\"{}\"]", sym),
            1 => format!("[null, \"{}\"]", file),
            2 => "[]".to_string(),
            3 => "[null, null]".to_string(),
            4 => format!("[17, \"{}\", \"more\"]", file),
            5 => "{\"x\": 1}".to_string(),
            6 => format!("[\"{}\", 5]", sym),
            _ => format!("[\"{}\", \"{}\"]", sym, file),
        });
    }
    let pre = if r.chance(1, 8) { "\"x\": [1, {\"backtrace\": 5}], " } else { "" };
    format!("{{{}\"backtrace\": [{}]}}", pre, frames.join(", "))
}

fn annotation_value(r: &mut Rng, st: &Style) -> String {
    if st.sources && r.chance(3, 4) {
        let line = if r.chance(1, 4) { line_number(r) } else { r.below(3).to_string() };
        return format!("\"{}:{}\"", source_file(r, st), line);
    }
    match r.below(10) {
        0 => "{}".to_string(),
        1 => "{\"some\": \"data\"}".to_string(),
        2 if !st.backtraces => "[1, 2, 3]".to_string(),
        3 | 4 => format!("\"{}:{}\"", source_file(r, st), r.below(40)),
        5 => format!("\"{}:{}\"", source_file(r, st), line_number(r)),
        6 => r
            .pick(&["\"a:b:3\"", "\"noline\"", "\":3\"", "\"\"", "\"src/a.cpp:3\" x", "src/a.cpp:3", "{\"backtrace\": 5}", "{\"backtrace\": [5", "\"src/a.cpp:3\" # c", "\"src\\a.cpp:3\""])
            .to_string(),
        7 if r.chance(1, 3) => "".to_string(),
        _ => backtrace_json(r, st),
    }
}

fn args(r: &mut Rng, st: &Style) -> Vec<(String, String)> {
    let n = if r.chance(1, 30) { r.range(5, 14) } else { r.below(4) };
    (0..n)
        .map(|i| {
            let n = match r.below(8) {
                _ if st.collide => format!("%{}", r.pick(&COMMON)),
                _ if st.odd_numbers && r.chance(1, 3) => format!("%v{}", num(r, st, i)),
                0 => "%".to_string(),
                1 if st.unicode => format!("%ärg{}", i),
                2 => format!("%arg_{}", i + 1),
                _ => format!("%v{}", i + 1),
            };
            (r.pick(&TYPES).to_string(), n)
        })
        .collect()
}
fn args_txt(a: &[(String, String)]) -> String {
    a.iter()
        .map(|(t, n)| format!("{} {}", t, n))
        .collect::<Vec<_>>()
        .join(", ")
}

fn modifiers(r: &mut Rng) -> String {
    let mut s = String::new();
    while r.chance(1, 4) {
        s += *r.pick(&["exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"]);
        s += " ";
    }
    s
}

fn dbg_suffix(r: &mut Rng, n: &Names) -> String {
    if !n.dbgs.is_empty() && r.chance(1, 3) {
        format!("    {}", r.pick(&n.dbgs))
    } else {
        String::new()
    }
}

/// One instruction; `vars` collects the local variables defined so far.
pub fn instr(r: &mut Rng, st: &Style, n: &Names, labels: &[String], vars: &mut Vec<String>) -> String {
    let l = plain_instr(r, st, n, labels, vars);
    if r.chance(1, 30) {
        odd_instr(r, &l)
    } else {
        l
    }
}

/// An instruction whose operands are not the usual ones: still an instruction, but maybe no branch
fn odd_instr(r: &mut Rng, line: &str) -> String {
    use crate::model::TK;
    let toks: Vec<_> = crate::model::lex(line).toks.into_iter().filter(|t| t.kind != TK::Newline).collect();
    let Some(op) = toks.iter().position(|t| t.kind == TK::Ident) else { return line.to_string() };
    let end = toks.iter().position(|t| t.kind == TK::Dbg).unwrap_or(toks.len());
    let head = &line[..toks[op].end];
    let tail = toks.get(end).map_or("", |t| &line[t.start..]);
    let mut mid: Vec<String> = toks[op + 1..end].iter().map(|t| t.text.clone()).collect();
    for _ in 0..1 + r.below(2) {
        let k = r.below(mid.len() + 1);
        match r.below(6) {
            0 if !mid.is_empty() => {
                mid.remove(k.min(mid.len() - 1));
            }
            1 if !mid.is_empty() => {
                let x = r.pick(&mid).clone();
                mid.insert(k, x);
            }
            2 if mid.len() > 1 => {
                let k = k.min(mid.len() - 2);
                mid.swap(k, k + 1);
            }
            3 => mid.truncate(k),
            4 => mid.push(r.pick(&["junk", ",", "%v1", "]", "[", "int32", "=", ", x", "5", "label=x"]).to_string()),
            _ => mid.insert(k, r.pick(&["junk", ",", "%v1", "]", "[", "int32", "=", "5", "phi", "br", "0x1fg", "0xFF", "0x", "00", "12ab", "1.5", "0", "\"\"", "a.b*<c>;"]).to_string()),
        }
    }
    if mid.first().map_or(false, |m| m == ":") {
        mid.remove(0);
    }
    format!("{} {} {}", head, mid.join(" "), tail).trim_end().to_string()
}

fn plain_instr(r: &mut Rng, st: &Style, n: &Names, labels: &[String], vars: &mut Vec<String>) -> String {
    let lbl = |r: &mut Rng| -> String {
        if labels.is_empty() || (st.sloppy && r.chance(1, 12)) {
            format!("missing_{}", r.below(3))
        } else {
            r.pick(labels).clone()
        }
    };
    let var = |r: &mut Rng, vars: &Vec<String>| -> String {
        if vars.is_empty() || (st.sloppy && r.chance(1, 10)) {
            if st.sloppy {
                format!("%undef{}", r.below(3))
            } else {
                "7".to_string()
            }
        } else {
            r.pick(vars).clone()
        }
    };
    let new_var = |r: &mut Rng, vars: &mut Vec<String>| -> String {
        let v = if st.sloppy && !vars.is_empty() && r.chance(1, 12) {
            r.pick(vars).clone()
        } else {
            match r.below(9) {
                _ if st.collide => format!("%{}", COMMON[vars.len() % COMMON.len()]),
                _ if st.odd_numbers && r.chance(1, 3) => format!("%v{}", num(r, st, vars.len())),
                0 if st.unicode => format!("%é{}", vars.len()),
                1 => format!("%res_{}", vars.len()),
                2 => format!("%x{}y", vars.len()),
                3 if st.unicode => format!("%v😀", ).replace('😀', "ß") + &vars.len().to_string(),
                _ => format!("%v{}", vars.len() + 1),
            }
        };
        if !vars.contains(&v) {
            vars.push(v.clone());
        }
        v
    };
    let global = |r: &mut Rng| -> String {
        if n.globals.is_empty() || (st.sloppy && r.chance(1, 10)) {
            if st.sloppy || n.globals.is_empty() && n.funcs.is_empty() {
                return "null".to_string();
            }
            return r.pick(&n.funcs).clone();
        }
        r.pick(&n.globals).clone()
    };
    let d = dbg_suffix(r, n);
    match r.below(16) {
        0 | 1 => format!("br {}{}", lbl(r), d),
        2 => {
            let v = if r.chance(1, 6) {
                r.pick(&["0", "1", "0x1", "true", "undef", "@flag", "\"s\""]).to_string()
            } else {
                var(r, vars)
            };
            format!("br int1 {}, {}, {}{}", v, lbl(r), lbl(r), d)
        }
        3 => {
            let (a, b) = (var(r, vars), var(r, vars));
            let v = new_var(r, vars);
            let op = *r.pick(&["saddbr", "smulbr", "ssubbr", "uaddbr", "umulbr", "xbr"]);
            let ty = if r.chance(1, 3) { *r.pick(&TYPES) } else { "int32" };
            let head = match r.below(12) {
                // The result is not used, or there are more operands
                0 => format!("{} {} {}, {} {}", op, ty, a, ty, b),
                1 => format!("{} {} = {} {} {}, {}, 17, ptr null", ty, v, op, ty, a, b),
                2 => format!("{} {} = {} {} 0x1f, {} {}", ty, v, op, ty, ty, b),
                _ => format!("{} {} = {} {} {}, {} {}", ty, v, op, ty, a, ty, b),
            };
            format!("{}, cont={}, overflow={}{}", head, lbl(r), lbl(r), d)
        }
        4 => {
            let v = var(r, vars);
            let n = if r.chance(1, 20) { r.range(4, 30) } else { r.range(1, 3) };
            let ty = if r.chance(1, 4) { *r.pick(&TYPES) } else { "int32" };
            let odd = r.chance(1, 4);
            let cases = (0..n)
                .map(|i| {
                    let c = match r.below(8) {
                        0 if odd => format!("0x{:x}", i * 11),
                        1 if odd => "\"s\"".to_string(),
                        2 if odd => "case_a".to_string(),
                        3 if odd => var(r, vars),
                        4 if odd => format!("{}", i64::MAX),
                        _ => i.to_string(),
                    };
                    format!("{} {} label={}", ty, c, lbl(r))
                })
                .collect::<Vec<_>>()
                .join(", ");
            format!("switch int32 {}, default={}, {}{}", v, lbl(r), cases, d)
        }
        5 => {
            let v = new_var(r, vars);
            let n = if r.chance(1, 20) { r.range(4, 30) } else { r.range(1, 3) };
            let es = (0..n)
                .map(|_| match r.below(10) {
                    0 => format!("[{}, int32 {}]", lbl(r), var(r, vars)),
                    1 => format!("[{}, \"s\"]", lbl(r)),
                    2 => format!("[{}, 0x{:x}]", lbl(r), r.below(99)),
                    3 => format!("[{}, int32 {}, x={}]", lbl(r), var(r, vars), lbl(r)),
                    _ => format!("[{}, {}]", lbl(r), var(r, vars)),
                })
                .collect::<Vec<_>>()
                .join(", ");
            format!("int32 {} = phi {}{}", v, es, d)
        }
        6 | 7 if !n.funcs.is_empty() => {
            let f = r.pick(&n.funcs).clone();
            let a = (0..r.below(3))
                .map(|_| {
                    if r.chance(1, 3) {
                        format!("ptr {}", global(r))
                    } else {
                        format!("int32 {}", var(r, vars))
                    }
                })
                .collect::<Vec<_>>()
                .join(", ");
            if r.chance(1, 2) {
                let v = new_var(r, vars);
                format!("int64 {} = call {} ({}){}", v, f, a, d)
            } else {
                format!("call {} ({}){}", f, a, d)
            }
        }
        8 => format!("ret int32 {}{}", var(r, vars), d),
        9 => format!("ret{}", d),
        10 => {
            let g = global(r);
            let v = new_var(r, vars);
            format!("ptr {} = load ptr {}, 0x{:x}{}", v, g, r.range(1, 4000), d)
        }
        11 if st.sloppy => r
            .pick(&["br", "br int1 %v1", "switch int32 %v1", "phi", "unreachable", "bridge int32 %v1", "brk", "abr x", "switchx a", "phix [a, 1]", "Br a", "BR", "switch_"])
            .to_string(),
        _ => {
            let (a, b) = (var(r, vars), var(r, vars));
            let v = new_var(r, vars);
            let op = *r.pick(&["add", "sub", "mul", "icmp", "getelementptr"]);
            format!("int32 {} = {} int32 {}, {}{}", v, op, a, b, d)
        }
    }
}

fn labels(r: &mut Rng, st: &Style) -> Vec<String> {
    let k = if r.chance(1, 40) { r.range(9, 40) } else { r.below(5) };
    (0..k)
        .map(|i| match r.below(8) {
            _ if st.collide => COMMON[(i * 3 + 1) % COMMON.len()].to_string(),
            _ if st.odd_numbers && r.chance(1, 3) => format!("bb{}", num(r, st, i)),
            0 => format!("loop_{}", i),
            1 if st.unicode => format!("schleife_ü{}", i),
            2 => format!("bb:x{}", i),
            3 => "done".to_string(),
            4 => format!("cont{}a", i),
            _ => format!("body_{}", i),
        })
        .collect()
}

pub fn function(r: &mut Rng, st: &Style, n: &Names, name: &str) -> Vec<String> {
    let mut ls = labels(r, st);
    if !st.sloppy {
        ls.dedup();
        let mut u = vec![];
        for l in ls {
            if !u.contains(&l) {
                u.push(l)
            }
        }
        ls = u;
    }
    let mut a = args(r, st);
    if !st.sloppy {
        let mut seen: Vec<String> = vec![];
        a.retain(|x| {
            let dup = seen.contains(&x.1);
            seen.push(x.1.clone());
            !dup
        });
    }
    let mut vars: Vec<String> = a.iter().map(|x| x.1.clone()).collect();
    let mut out = vec![format!(
        "define {}{} {}({}) {{{}",
        modifiers(r),
        if r.chance(1, 2) { "void" } else { "int32" },
        name,
        args_txt(&a),
        if r.chance(1, 8) { comment(r, st).insert_space() } else { String::new() }
    )];
    if ls.is_empty() || r.chance(1, 3) {
        for _ in 0..r.below(4) {
            out.push(format!("  {}", instr(r, st, n, &ls, &mut vars)));
        }
    }
    for l in ls.clone() {
        out.push(format!("{}:", l));
        for _ in 0..r.below(5) {
            if r.chance(1, 14) {
                out.push(String::new());
            }
            if r.chance(1, 14) {
                out.push(format!("    {}", comment(r, st)));
            }
            let tail = if r.chance(1, 10) { comment(r, st).insert_space() } else { String::new() };
            out.push(format!("    {}{}", instr(r, st, n, &ls, &mut vars), tail));
        }
    }
    out.push("}".to_string());
    out
}

trait InsertSpace {
    fn insert_space(self) -> String;
}
impl InsertSpace for String {
    fn insert_space(self) -> String {
        format!(" {}", self)
    }
}

fn annotations(r: &mut Rng, st: &Style, n: &Names, lines: &mut Vec<String>) {
    for d in &n.dbgs {
        if !(st.sloppy && r.chance(1, 8)) {
            lines.push(format!("{} = {}", d, annotation_value(r, st)));
        }
        if st.sloppy && r.chance(1, 12) {
            lines.push(format!("{} = {}", d, annotation_value(r, st)));
        }
    }
}

/// Dumps of the real compiler
const REAL: [&str; 2] = [include_str!("../data/fcf.hir"), include_str!("../data/relation.hir")];

/// What a global may be: anything up to the end of the line
fn soup(r: &mut Rng) -> String {
    let toks = [
        "x", "br", "phi", "depends", "on", "define", "declare", "pure", "void", "int32", "ptr", "5", "0x1F", "\"s\"", "\"\"", "\"a # b\"", "%v1", "@g0", "@x1",
        "!1", "[", "]", "{", "}", "(", ")", "<", ">", "=", ",", ";", ":", "*", ".", "a:b", "::", "label=x", "%", "@", "!",
    ];
    (0..r.below(9)).map(|_| *r.pick(&toks)).collect::<Vec<_>>().join(if r.chance(1, 8) { "  " } else { " " })
}

pub fn module(r: &mut Rng, st: &Style) -> String {
    if r.chance(1, 250) {
        return r.pick(&REAL).to_string();
    }
    let big = r.chance(1, 120);
    let ng = if big { r.below(40) } else { r.below(4) };
    let nf = if big { r.below(20) } else { r.below(3) };
    let nd = if big { r.below(20) } else { r.below(st.max_funcs + 1) };
    let nb = if big { r.below(60) } else { r.below(5) };
    let n = Names {
        globals: (0..ng).map(|i| gname(r, st, i)).collect(),
        funcs: (0..nf + nd).map(|i| fname(r, st, i)).collect(),
        dbgs: (0..nb)
            .map(|i| match r.below(3) {
                _ if st.collide => format!("!{}", COMMON[(i * 2) % COMMON.len()]),
                _ if st.odd_numbers && r.chance(1, 2) => format!("!{}", num(r, st, i)),
                0 => format!("!f{}", i),
                _ => format!("!{}", i + 1),
            })
            .collect(),
    };
    let mut lines: Vec<String> = vec![];
    if r.chance(1, 6) {
        lines.push(String::new());
    }
    if r.chance(1, 6) {
        lines.push(comment(r, st));
    }
    let first = r.chance(1, 6);
    if first {
        annotations(r, st, &n, &mut lines);
    }
    for g in &n.globals {
        let v = match r.below(4) {
            0 => "[0,0,4,0]".to_string(),
            1 if st.unicode => "\"tést 😀\"".to_string(),
            2 if ng > 1 => format!("[ptr {}]", r.pick(&n.globals)),
            3 if r.chance(1, 6) => soup(r),
            _ => "\"test\"".to_string(),
        };
        lines.push(format!("{} = {}", g, v));
    }
    for f in n.funcs.iter().take(nf) {
        let a = args(r, st);
        let addr = if r.chance(1, 2) { format!(" = 0x{:x}", r.range(1, 0xffff)) } else { String::new() };
        let d = match dbg_suffix(r, &n) {
            d if d.is_empty() && st.sources && !n.dbgs.is_empty() => format!(" {}", r.pick(&n.dbgs)),
            d => d,
        };
        lines.push(format!("declare {}int32 {}({}){}{}", modifiers(r), f, args_txt(&a), addr, d));
    }
    for f in n.funcs.iter().skip(nf) {
        if r.chance(1, 6) {
            lines.push(format!("declare int32 {}()", f));
        }
        if r.chance(1, 2) {
            lines.push(String::new());
        }
        lines.extend(function(r, st, &n, f));
    }
    if st.sloppy && r.chance(1, 4) && !n.funcs.is_empty() {
        let f = r.pick(&n.funcs).clone();
        lines.extend(function(r, st, &n, &f));
    }
    if n.funcs.len() > 1 && r.chance(1, 3) {
        let (a, b) = (r.pick(&n.funcs).clone(), r.pick(&n.funcs).clone());
        lines.push(format!("{} depends on {}", a, b));
    }
    if !first || r.chance(1, 4) {
        annotations(r, st, &n, &mut lines);
    }
    if st.sloppy && r.chance(1, 80) {
        // Very many findings
        let k = r.range(60, 300);
        lines.push("define void @storm() {".into());
        for i in 0..k {
            lines.push(match r.below(3) {
                0 => format!("  x int32 %undef{}", i % 7),
                1 => format!("  int32 %same = x {}", i),
                _ => "  br".to_string(),
            });
        }
        lines.push("}".into());
    }
    if r.chance(1, 100) {
        many(r, &n, &mut lines);
    }
    finish(r, st, lines)
}

/// More things of one kind than fit into a byte
fn many(r: &mut Rng, n: &Names, lines: &mut Vec<String>) {
    let k = r.range(257, 640);
    let ns = r.range(1, 300);
    match r.below(9) {
        6 | 7 => {
            // One symbol in very many places
            let hub = r.pick(&["int32 %hub1", "@hub2", "hub3", "!4"]).to_string();
            let per = *r.pick(&[1, 1, 3, k]);
            match &hub[..2] {
                "@h" => lines.push(format!("{} = [1,2]", hub)),
                "!4" => lines.push("!4 = \"src/a.cpp:7\"".to_string()),
                _ => {}
            }
            let arg = if hub.starts_with("int32") { hub.as_str() } else { "" };
            lines.push(format!("define void @hubuser({}) {{", arg));
            if hub == "hub3" {
                lines.push("hub3:".to_string());
            }
            let mut left = k;
            while left > 0 {
                let n = per.min(left);
                left -= n;
                let l = match hub.as_str() {
                    "hub3" if n > 1 => format!("  switch int32 1, default=hub3{}", (0..n).map(|i| format!(", int32 {} label=hub3", i)).collect::<String>()),
                    "hub3" => "  br hub3".to_string(),
                    "!4" => "  x !4".to_string(),
                    h => format!("  x {}", vec![h; n].join(", ")),
                };
                lines.push(l);
            }
            lines.push("}".to_string());
        }
        8 => {
            // Very many arguments, operands and targets
            let list = |f: &dyn Fn(usize) -> String| (0..k).map(|i| f(i)).collect::<Vec<_>>().join(", ");
            let d = if n.dbgs.is_empty() { String::new() } else { format!(" {}", r.pick(&n.dbgs)) };
            lines.push(format!("declare void @manyargs({}){}", list(&|i| format!("int32 %a{}", i)), d));
            lines.push(format!("define void @manyops({}) {{", list(&|i| format!("int32 %v{}", i))));
            lines.push("bb_0:".to_string());
            lines.push(format!("  int32 %p = phi {}", list(&|i| format!("[bb_{}, int32 %v{}]", i % 3, i))));
            lines.push(format!("  switch int32 %p, default=bb_1, {}", list(&|i| format!("int32 {} label=bb_{}", i, i % ns % 3))));
            lines.extend(["bb_1:".to_string(), "  ret".to_string(), "bb_2:".to_string(), "  br bb_0".to_string(), "}".to_string()]);
        }
        0 => {
            for i in 0..k {
                lines.push(format!("define void @many{}(int32 %v{}) {{", i, i % ns));
                match r.below(4) {
                    0 => lines.push(format!("  ret int32 %v{}", i % ns)),
                    1 => lines.extend([format!("bb_{}:", i % ns), format!("  br bb_{}", i % ns), "two:".to_string(), format!("  br bb_{}", i % ns)]),
                    _ => lines.push("  ret".to_string()),
                }
                lines.push("}".to_string());
            }
        }
        1 => {
            lines.push("define void @manyblocks() {".to_string());
            let fan = *r.pick(&[1, 2, 7, k]);
            for i in 0..k {
                lines.push(format!("bb_{}:", i));
                lines.push(format!("  br bb_{}", if r.chance(1, 2) { r.below(fan) } else { i / 2 }));
            }
            lines.push("}".to_string());
        }
        2 => {
            lines.push("define int32 @manyvars(int32 %v0) {".to_string());
            for i in 1..k {
                lines.push(format!("  int32 %v{} = add int32 %v{}, {}", i, if r.chance(1, 2) { i - 1 } else { r.below(i) }, i));
            }
            lines.push("}".to_string());
        }
        3 => {
            for i in 0..k {
                lines.push(format!("@many{} = [ptr @many{}]", i, r.below(k)));
            }
        }
        4 => {
            for i in 0..k {
                lines.push(format!("!{} = \"src/a.cpp:{}\"", i + 1000, i));
            }
            lines.push("define void @manydbg() {".to_string());
            for _ in 0..r.below(400) {
                lines.push(format!("  x !{}", 1000 + r.below(k)));
            }
            lines.push("}".to_string());
        }
        _ => {
            for i in 0..k {
                let d = if n.dbgs.is_empty() || i % 5 != 0 { String::new() } else { format!(" {}", r.pick(&n.dbgs)) };
                lines.push(format!("declare void @many{}(){}", i, d));
            }
            let list: Vec<String> = (0..r.range(1, 300)).map(|_| format!("@many{}", r.below(k))).collect();
            lines.push(format!("@many0 depends on {}", list.join(", ")));
        }
    }
}

/// Blanks between tokens which have none
fn spread(r: &mut Rng, line: &str) -> String {
    let mut out = String::new();
    let mut last = 0;
    for t in crate::model::lex(line).toks {
        out += &line[last..t.start];
        if t.start == last && last != 0 && r.chance(1, 3) {
            out += *r.pick(&[" ", "\t", "  "]);
        }
        out += &line[t.start..t.end];
        last = t.end;
    }
    out + &line[last..]
}

fn finish(r: &mut Rng, st: &Style, mut lines: Vec<String>) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    if st.loose {
        let mut k = 1;
        while k < lines.len() {
            if r.chance(1, 12) {
                // Between two lines there may be more of them
                let l = match r.below(6) {
                    0 => comment(r, st),
                    1 => format!("\t {}", comment(r, st)),
                    2 => "  \t".to_string(),
                    _ => String::new(),
                };
                lines.insert(k, l);
                k += 1;
            }
            k += 1;
        }
        for l in lines.iter_mut() {
            if r.chance(1, 10) && !l.contains('#') {
                *l += *r.pick(&[" ", "", "\t"]);
                *l += &comment(r, st);
            }
            if r.chance(1, 6) {
                *l = spread(r, l);
            }
        }
        for l in lines.iter_mut() {
            if !r.chance(1, 3) {
                continue;
            }
            let mut out = String::new();
            let mut it = l.chars().peekable();
            while let Some(c) = it.next() {
                let sigil = matches!(it.peek(), Some('@' | '%' | '!'));
                match (c, r.below(6)) {
                    // Names need no blank before them
                    (' ', 3) if sigil && !out.is_empty() && r.chance(1, 2) => {}
                    (' ', 0) => out += "\t",
                    (' ', 1) => out += "   ",
                    (' ', 2) => out += " \t ",
                    _ => out.push(c),
                }
            }
            if r.chance(1, 4) {
                out += *r.pick(&[" ", "\t", "  \t"]);
            }
            if r.chance(1, 8) {
                out.insert(0, ' ');
            }
            *l = out;
        }
    }
    if r.chance(1, 60) {
        // A long gap, or a long line; rarely one beyond 16 bit
        let at = r.below(lines.len() + 1);
        let huge = r.chance(1, 8);
        match r.below(5) {
            4 => {
                // Deeply nested, or the same thing again and again
                let n = if huge { r.range(3000, 12000) } else { r.range(20, 400) };
                let c = *r.pick(&["[", "(", "{", "<", "[{", "=", ",", "((", "*", "0x", ":", "\"\"", "@", "%"]);
                let close = match c {
                    "[" => "]",
                    "(" => ")",
                    "{" => "}",
                    _ => "",
                };
                // These make names, whose number counts
                let n = if matches!(c, "@" | "%" | "0x" | ":") { n / 8 } else { n };
                let line = format!("@deep_1 = {}1{}", c.repeat(n), close.repeat(n));
                lines.insert(at, line)
            }
            0 => {
                let n = if huge { r.range(65000, 67000) } else { r.range(200, 700) };
                lines.splice(at..at, std::iter::repeat(String::new()).take(n));
            }
            1 => {
                let n = if huge { 5600 } else { r.range(20, 400) };
                lines.insert(at, format!("# {}", "lorem ipsum ".repeat(n)))
            }
            2 => {
                let n = if huge { r.range(65400, 70000) } else { r.range(100, 2000) };
                lines.insert(at, format!("@wide_1 = \"{}\", ptr @wide_1, ptr @wide_2, 12", "x".repeat(n)))
            }
            _ => {
                let n = if huge { r.range(300, 1600) } else { r.range(10, 120) };
                let k = r.range(1, 3);
                let list: Vec<String> = (0..n).map(|i| format!("ptr @wide_{}", i % k)).collect();
                lines.insert(at, format!("@wide_2 = [{}]", list.join(", ")))
            }
        }
    }
    let mut s = lines.join(nl);
    if !s.is_empty() && r.chance(3, 4) {
        s += nl;
    }
    s
}

fn names_of(text: &str) -> Names {
    let mut n = Names {
        globals: vec![],
        funcs: vec![],
        dbgs: vec![],
    };
    for t in crate::model::lex(text).toks {
        use crate::model::TK;
        let v = match t.kind {
            TK::Global => &mut n.globals,
            TK::Dbg => &mut n.dbgs,
            _ => continue,
        };
        if !v.contains(&t.text) {
            v.push(t.text)
        }
    }
    n.funcs = n.globals.clone();
    n
}

pub const GARBAGE: [&str; 14] = [
    "broken line",
    "$",
    "$$ ?",
    "{",
    "}",
    "define",
    "define void @f(",
    "declare int32",
    "@x",
    "!7",
    "int32 %v1 =",
    "foo: bar",
    "@a depends",
    "-5 + 3",
];

/// An edit as a user (or a tool) would make it.
pub fn edit(r: &mut Rng, st: &Style, text: &str, damage: bool) -> String {
    let nl = if text.contains("\r\n") || (st.crlf && !text.contains('\n')) { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = text.split('\n').map(|l| l.trim_end_matches('\r').to_string()).collect();
    let at = r.below(lines.len());
    match r.below(if damage { 25 } else { 13 }) {
        11 | 12 => return same_length(r, text),
        0 => {
            lines.remove(at);
        }
        1 => {
            let l = lines[at].clone();
            lines.insert(at, l);
        }
        2 => lines.insert(at, String::new()),
        3 => lines.insert(at, comment(r, st)),
        4 => {
            let n = names_of(text);
            let mut vars = vec!["%v1".to_string(), "%v2".to_string()];
            let l = format!("    {}", instr(r, st, &n, &["body_0".to_string(), "done".to_string()], &mut vars));
            // Prefer a place inside of a function
            let inside: Vec<usize> = (1..lines.len())
                .filter(|i| lines[i - 1].starts_with(' ') || lines[i - 1].ends_with(':') || lines[i - 1].ends_with('{'))
                .collect();
            let p = if inside.is_empty() { at } else { *r.pick(&inside) };
            lines.insert(p, l);
        }
        5 => {
            // Change one token
            let toks: Vec<_> = crate::model::lex(text)
                .toks
                .into_iter()
                .filter(|t| {
                    use crate::model::TK;
                    matches!(t.kind, TK::Global | TK::Local | TK::Dbg | TK::Ident | TK::Num)
                })
                .collect();
            if toks.is_empty() {
                return text.to_string();
            }
            let t = r.pick(&toks).clone();
            let other = r.pick(&toks).clone();
            let new = if other.kind == t.kind { other.text } else { format!("{}1", t.text) };
            return format!("{}{}{}", &text[..t.start], new, &text[t.end..]);
        }
        6 => {
            let b = r.below(lines.len());
            lines.swap(at, b);
        }
        7 => {
            let n = names_of(text);
            let nm = format!("@new{}", r.below(4));
            let f = function(r, st, &n, &nm);
            // Only between top-level statements
            let tops: Vec<usize> = (0..=lines.len())
                .filter(|i| *i == 0 || lines[i - 1] == "}" || lines[i - 1].starts_with('@'))
                .collect();
            let p = *r.pick(&tops);
            for (k, l) in f.into_iter().enumerate() {
                lines.insert(p + k, l);
            }
        }
        8 => {
            // Remove a whole function
            let starts: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].starts_with("define")).collect();
            if !starts.is_empty() {
                let s = *r.pick(&starts);
                if let Some(e) = (s..lines.len()).find(|i| lines[*i] == "}") {
                    lines.drain(s..=e);
                }
            }
        }
        9 => {
            let v = annotation_value(r, st);
            lines.push(format!("!{} = {}", r.range(1, 6), v));
        }
        10 => return module(r, st),
        // Damage from here on
        13 | 14 => {
            // Torn tail
            let cut = r.below(text.len() + 1);
            let cut = (0..=cut).rev().find(|c| text.is_char_boundary(*c)).unwrap_or(0);
            return text[..cut].to_string();
        }
        15 | 16 => lines.insert(at, r.pick(&GARBAGE).to_string()),
        17 => {
            let l = &mut lines[at];
            let cut = r.below(l.len() + 1);
            let cut = (0..=cut).rev().find(|c| l.is_char_boundary(*c)).unwrap_or(0);
            l.truncate(cut);
        }
        18 => {
            let c = if r.chance(1, 3) {
                // what looks like a blank, or like nothing at all
                *r.pick(&["\u{a0}", "\u{3000}", "\u{2003}", "\u{feff}", "\u{200b}", "\0", "\u{8}", "\u{1f}", "\u{ad}", "\u{301}"])
            } else {
                *r.pick(&[
                    "$", "\"", "%", "@", "{", "}", "\u{2028}", "é", "😀", "\t", "-", "~", "\r", "\"\n\"", "&", "|", "/", "\\", "'", "`", "^", "?", "+", "//",
                    ";", "²", "٣", "½",
                ])
            };
            let p = r.below(text.len() + 1);
            let p = (0..=p).rev().find(|c| text.is_char_boundary(*c)).unwrap_or(0);
            return format!("{}{}{}", &text[..p], c, &text[p..]);
        }
        19 => return String::new(),
        20 => {
            // Something next to a separator, a bracket or the end of a line
            let toks: Vec<_> = crate::model::lex(text)
                .toks
                .into_iter()
                .filter(|t| matches!(t.kind, crate::model::TK::Punct | crate::model::TK::Newline))
                .collect();
            if toks.is_empty() {
                return text.to_string();
            }
            let t = r.pick(&toks).clone();
            let p = if r.chance(3, 4) { t.start } else { t.end };
            let c = *r.pick(&[",", ",", ",", ", ", ";", ".", ":", "=", "(", ")", "\n", " \n"]);
            return format!("{}{}{}", &text[..p], c, &text[p..]);
        }
        _ => {
            // One token is missing, doubled, or replaced
            let toks: Vec<_> = crate::model::lex(text).toks;
            if toks.is_empty() {
                return text.to_string();
            }
            let t = r.pick(&toks).clone();
            let new = match r.below(4) {
                0 => String::new(),
                1 => format!("{} {}", &text[t.start..t.end], &text[t.start..t.end]),
                2 => r.pick(&["%v1", "@g0", "!1", "x", "int32", "(", ")", ",", "=", "0x1", "define", "declare", "pure", "\"s\"", ":", "5", "[", "{"]).to_string(),
                _ => {
                    let o = r.pick(&toks).clone();
                    text[o.start..o.end].to_string()
                }
            };
            return format!("{}{}{}", &text[..t.start], new, &text[t.end..]);
        }
    }
    lines.join(nl)
}

/// Replaces characters of one token in place
fn same_length(r: &mut Rng, text: &str) -> String {
    use crate::model::TK;
    let toks: Vec<_> = crate::model::lex(text)
        .toks
        .into_iter()
        .filter(|t| matches!(t.kind, TK::Global | TK::Local | TK::Dbg | TK::Ident | TK::Num | TK::Str | TK::Comment | TK::Hex) && t.end - t.start > 1)
        .collect();
    if toks.is_empty() {
        return text.to_string();
    }
    let t = r.pick(&toks).clone();
    // Mostly digits, as they are what differs between neighbouring names
    let places: Vec<usize> = (t.start + 1..t.end)
        .filter(|i| text.as_bytes()[*i].is_ascii_digit())
        .collect();
    let at = if places.is_empty() || r.chance(1, 4) { r.range(t.start + 1, t.end - 1) } else { *r.pick(&places) };
    let c = text.as_bytes()[at];
    let new = match c {
        b'0'..=b'9' => b'0' + (c - b'0' + 1 + r.below(8) as u8) % 10,
        b'a'..=b'z' => b'a' + (c - b'a' + 1 + r.below(24) as u8) % 26,
        _ => return text.to_string(),
    };
    format!("{}{}{}", &text[..at], new as char, &text[at + 1..])
}
