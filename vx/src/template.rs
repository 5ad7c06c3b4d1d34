//! Parser for .vt templates: raw Verus text interleaved with `//@` directives.
use std::collections::BTreeMap;

#[derive(Debug, Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub ret: Option<String>,
    pub spec: String,
    pub attrs: String,
    pub ghost_params: String,
    pub start: String,
    pub tail: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub chain_after: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, ClosureSpec>,
    pub before: Vec<(usize, String, String)>,
    pub after: Vec<(usize, String, String)>,
    pub opts: Vec<String>,
    pub ghost_args: Vec<(String, String)>,
    pub props: Vec<String>,
}

#[derive(Debug, Default, Clone)]
pub struct ClosureSpec {
    pub types: Vec<String>,
    pub text: String,
    pub optmap: bool,
}

#[derive(Debug, Clone)]
pub enum Node {
    Raw(String),
    Item { src: String, kind: String, name: String, attrs: String, ghost: String },
    Fn { src: String, spec: FnSpec },
    Derive { src: String, name: String, what: String, props: Vec<String>, cond: String },
    Impl { src: String, sel: String, opts: Vec<String>, add: String, fns: Vec<FnSpec>, skip: Vec<String>, all: bool },
    Trait { src: String, name: String, opts: Vec<String>, add: String, fns: Vec<FnSpec>, skip: Vec<String> },
}

pub fn parse(text: &str, fname: &str) -> Vec<Node> {
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut out = Vec::new();
    let mut raw = String::new();
    let mut src = String::new();
    let mut cur_fn: Option<FnSpec> = None;
    let mut cur_block: Option<Node> = None;
    macro_rules! die { ($($a:tt)*) => {{ eprintln!("{}:{}: {}", fname, i + 1, format!($($a)*)); std::process::exit(3) }}; }
    fn flush_fn(cur_fn: &mut Option<FnSpec>, cur_block: &mut Option<Node>, out: &mut Vec<Node>, src: &str) {
        if let Some(f) = cur_fn.take() {
            match cur_block {
                Some(Node::Impl { fns, .. }) | Some(Node::Trait { fns, .. }) => fns.push(f),
                _ => out.push(Node::Fn { src: src.to_string(), spec: f }),
            }
        }
    }
    while i < lines.len() {
        let t = lines[i].trim();
        if !t.starts_with("//@") {
            if cur_fn.is_none() && cur_block.is_none() {
                raw.push_str(lines[i]);
                raw.push('\n');
            } else if !t.is_empty() && !t.starts_with("//") {
                die!("raw text inside a block: {}", t);
            }
            i += 1;
            continue;
        }
        let mut d = t[3..].trim().to_string();
        let mut payload = String::new();
        if d.ends_with("<<") {
            d = d[..d.len() - 2].trim().to_string();
            i += 1;
            loop {
                if i >= lines.len() { die!("unterminated payload of {}", d); }
                if lines[i].trim() == "//@>>" { break; }
                payload.push_str(lines[i]);
                payload.push('\n');
                i += 1;
            }
        } else if let Some(p) = d.find(": ") {
            let head = d[..p].to_string();
            let w = head.split_whitespace().next().unwrap_or("");
            if ["spec", "ret", "attr", "start", "tail", "loop", "loopstart", "loopend", "beforeloop", "afterloop", "afterchain", "closure", "add", "ghostparam", "derive"].contains(&w) {
                payload = d[p + 2..].to_string();
                d = head;
            }
        }
        let words: Vec<String> = d.split_whitespace().map(|x| x.to_string()).collect();
        let w0 = words.get(0).cloned().unwrap_or_default();
        let n = || -> usize { words.get(1).and_then(|x| x.parse().ok()).unwrap_or(1) };
        match w0.as_str() {
            "src" => { src = words[1..].join(" "); }
            "struct" | "enum" | "type" => {
                if !raw.is_empty() { out.push(Node::Raw(std::mem::take(&mut raw))); }
                let (a, g) = match payload.find("//@ghost") { Some(p) => (payload[..p].to_string(), payload[p + 8..].to_string()), None => (payload, String::new()) };
                out.push(Node::Item { src: src.clone(), kind: w0.clone(), name: words[1].clone(), attrs: a, ghost: g });
            }
            "derive" => {
                if !raw.is_empty() { out.push(Node::Raw(std::mem::take(&mut raw))); }
                out.push(Node::Derive { src: src.clone(), name: words[1].clone(), what: words[2].clone(), props: words[3..].to_vec(), cond: payload });
            }
            "impl" | "trait" => {
                if !raw.is_empty() { out.push(Node::Raw(std::mem::take(&mut raw))); }
                let mut sel: Vec<String> = Vec::new();
                let mut opts = Vec::new();
                for x in &words[1..] { if let Some(o) = x.strip_prefix('+') { opts.push(o.to_string()) } else { sel.push(x.clone()) } }
                let sel = sel.join(" ");
                let all = opts.contains(&"all".to_string());
                cur_block = Some(if w0 == "impl" {
                    Node::Impl { src: src.clone(), sel, opts, add: String::new(), fns: vec![], skip: vec![], all }
                } else {
                    Node::Trait { src: src.clone(), name: sel, opts, add: String::new(), fns: vec![], skip: vec![] }
                });
            }
            "add" => match cur_block.as_mut() {
                Some(Node::Impl { add, .. }) | Some(Node::Trait { add, .. }) => add.push_str(&payload),
                _ => die!("add outside block"),
            },
            "skip" => match cur_block.as_mut() {
                Some(Node::Impl { skip, .. }) | Some(Node::Trait { skip, .. }) => skip.extend(words[1..].iter().cloned()),
                _ => die!("skip outside block"),
            },
            "fn" => {
                if !raw.is_empty() { out.push(Node::Raw(std::mem::take(&mut raw))); }
                flush_fn(&mut cur_fn, &mut cur_block, &mut out, &src);
                let mut f = FnSpec { name: words[1].clone(), ..Default::default() };
                for x in &words[2..] {
                    if let Some(o) = x.strip_prefix('+') { f.opts.push(o.to_string()) }
                    else { f.props.push(x.clone()) }
                }
                cur_fn = Some(f);
            }
            "end" => {
                flush_fn(&mut cur_fn, &mut cur_block, &mut out, &src);
                if let Some(b) = cur_block.take() { out.push(b); }
            }
            _ => {
                let f = match cur_fn.as_mut() { Some(f) => f, None => die!("directive {} outside fn", w0) };
                match w0.as_str() {
                    "ret" => f.ret = Some(if payload.is_empty() { words[1].clone() } else { payload }),
                    "spec" => f.spec.push_str(&payload),
                    "attr" => { f.attrs.push_str(&payload); f.attrs.push('\n'); }
                    "ghostparam" => f.ghost_params = payload,
                    "ghostarg" => { let p = words[1].clone(); f.ghost_args.push((p, words[2..].join(" "))); }
                    "start" => f.start.push_str(&payload),
                    "tail" => f.tail.push_str(&payload),
                    "loop" => { f.loops.insert(n(), payload); }
                    "loopstart" => { f.loop_start.insert(n(), payload); }
                    "loopend" => { f.loop_end.insert(n(), payload); }
                    "beforeloop" => { f.loop_before.insert(n(), payload); }
                    "afterloop" => { f.loop_after.insert(n(), payload); }
                    "afterchain" => { f.chain_after.insert(n(), payload); }
                    "closure" => {
                        // closure N [+optmap] [types T1 ;; T2]: text
                        let rest = words[2..].join(" ");
                        let mut c = ClosureSpec::default();
                        let mut r = rest.trim();
                        if let Some(x) = r.strip_prefix("+optmap") { c.optmap = true; r = x.trim(); }
                        if let Some(x) = r.strip_prefix("types") { c.types = x.split(";;").map(|y| y.trim().to_string()).collect(); }
                        c.text = payload;
                        f.closures.insert(n(), c);
                    }
                    "before" | "after" => {
                        let k: usize = match words[1].parse() { Ok(k) => k, Err(_) => die!("before/after K PATTERN") };
                        let p = words[2..].join("").replace(' ', "");
                        if w0 == "before" { f.before.push((k, p, payload)) } else { f.after.push((k, p, payload)) }
                    }
                    _ => die!("unknown directive {}", w0),
                }
            }
        }
        i += 1;
    }
    if cur_fn.is_some() || cur_block.is_some() { eprintln!("{}: unterminated block", fname); std::process::exit(3); }
    if !raw.is_empty() { out.push(Node::Raw(raw)); }
    out
}
