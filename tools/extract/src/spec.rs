//! Parser of the contract files
//!
//! ```text
//! @@module NAME FILE [FILE ..]      (NAME `-` means top level)
//! @@text [props=A01,..]             verbatim verifier text up to the next `@@`
//! @@type NAME [ghost=FIELD:TYPE]    following lines are attributes
//! @@fn PATH [props=..] [trusted] [opcall] [nodecreases] [name=NAME] [index] [mono=B:P] [raw]
//! requires .. ensures ..
//! @@impl TYPE as TRAIT [props=..] [only=f,g]   whole trait implementation; following lines are its ghost members
//! @in FN DIRECTIVE   the sub directive DIRECTIVE (or `contract`) for function FN of an `@@impl`
//! @@foreach X Y : a b ; c d   repeats the lines up to `@@endfor` with `{X}`, `{Y}` replaced
//! @loop N   loop specification of the Nth loop
//! @hoist N    name of a variable for the Nth closure, types of its parameters separated by `;`
//! @closure N  return binding and specification of the Nth closure, `$0` is its first parameter
//! @start / @end / @body N / @tail N / @before N / @after N / @at CALL K / @pre CALL K   ghost text
//! ```

use std::{collections::BTreeMap, fs, path::Path};

pub struct SpecFile {
    pub modules: Vec<SpecModule>,
}

pub struct SpecModule {
    pub name: Option<String>,
    pub files: Vec<String>,
    pub items: Vec<SpecItem>,
}

pub enum SpecItem {
    Text(String, Vec<String>),
    /// name, attributes, ghost field `NAME:TYPE`
    Type(String, String, Option<String>),
    Fn(FnSpec),
    Impl(ImplSpec),
}

#[derive(Default)]
pub struct ImplSpec {
    /// `Type as Trait`
    pub path: String,
    pub props: Vec<String>,
    pub only: Option<Vec<String>>,
    pub ghost: String,
    pub fns: BTreeMap<String, FnSpec>,
}

#[derive(Default)]
pub struct FnSpec {
    pub path: String,
    pub props: Vec<String>,
    pub trusted: bool,
    pub opcall: bool,
    pub nodecreases: bool,
    pub rename: Option<String>,
    /// emit a trait method as a free function
    pub free: bool,
    /// write indexing as calls of `vp_index` and `vp_index_mut`
    pub index: bool,
    /// raw memory operations get the ghost memory of `self` as an argument
    pub raw: bool,
    /// methods called with closures are replaced by their bodies
    pub beta: bool,
    /// the closure with this number as a function of its own
    pub lift: Option<usize>,
    /// type parameter of the impl to instantiate, with its type
    pub mono: Option<(String, String)>,
    /// emitted inside of an `@@impl`
    pub in_impl: bool,
    pub attrs: String,
    pub contract: String,
    /// keyed by directive such as `loop 0`, `start`
    pub subs: BTreeMap<String, String>,
}

impl FnSpec {
    pub fn name(&self) -> &str {
        self.path.rsplit("::").next().unwrap()
    }
}

/// Expands `@@foreach`
fn foreach(txt: &str) -> String {
    let mut out = String::new();
    let mut it = txt.lines();
    while let Some(l) = it.next() {
        let Some(head) = l.strip_prefix("@@foreach ") else {
            out.push_str(l);
            out.push('\n');
            continue
        };
        let (vars, vals) = head.split_once(':').expect("`@@foreach X : a ; b`");
        let vars: Vec<&str> = vars.split_whitespace().collect();
        let mut body = String::new();
        for l in it.by_ref() {
            if l.starts_with("@@endfor") {
                break
            }
            body.push_str(l);
            body.push('\n');
        }
        for v in vals.split(';') {
            let mut b = body.clone();
            for (x, y) in vars.iter().zip(v.split_whitespace()) {
                b = b.replace(&format!("{{{x}}}"), y);
            }
            out.push_str(&b);
        }
    }
    out
}

pub fn parse(p: &Path) -> SpecFile {
    let txt = fs::read_to_string(p).unwrap_or_else(|e| panic!("{p:?}: {e}"));
    let txt = foreach(&txt);
    let mut res = SpecFile { modules: vec![] };
    let mut sub: Option<String> = None;
    for line in txt.lines() {
        if let Some(rest) = line.strip_prefix("@@") {
            sub = None;
            let words: Vec<&str> = rest.split_whitespace().collect();
            if words[0] == "module" {
                res.modules.push(SpecModule {
                    name: if words[1] == "-" {
                        None
                    } else {
                        Some(words[1].to_owned())
                    },
                    files: words[2..].iter().map(|s| s.to_string()).collect(),
                    items: vec![],
                });
                continue
            }
            let m = res.modules.last_mut().expect("`@@module` first");
            let props = |w: &str| -> Option<Vec<String>> {
                w.strip_prefix("props=")
                    .map(|s| s.split(',').map(|s| s.to_owned()).collect())
            };
            match words[0] {
                "text" => {
                    let mut ps = vec![];
                    for w in &words[1..] {
                        if let Some(p) = props(w) {
                            ps = p;
                        }
                    }
                    m.items.push(SpecItem::Text(String::new(), ps));
                }
                "type" => m
                    .items
                    .push(SpecItem::Type(
                        words[1].to_owned(),
                        String::new(),
                        words.get(2).and_then(|w| w.strip_prefix("ghost=")).map(|w| w.to_owned()),
                    )),
                "fn" => {
                    let mut f = FnSpec::default();
                    let mut path: Vec<&str> = vec![];
                    for w in &words[1..] {
                        if let Some(p) = props(w) {
                            f.props = p;
                        } else if *w == "trusted" {
                            f.trusted = true;
                        } else if *w == "free" {
                            f.free = true;
                        } else if let Some(k) = w.strip_prefix("lift=") {
                            f.lift = k.parse().ok();
                        } else if *w == "beta" {
                            f.beta = true;
                        } else if *w == "raw" {
                            f.raw = true;
                        } else if *w == "index" {
                            f.index = true;
                        } else if let Some((a, b)) =
                            w.strip_prefix("mono=").and_then(|s| s.split_once(':'))
                        {
                            f.mono = Some((a.to_owned(), b.to_owned()));
                        } else if *w == "opcall" {
                            f.opcall = true;
                        } else if *w == "nodecreases" {
                            f.nodecreases = true;
                        } else if let Some(n) = w.strip_prefix("name=") {
                            f.rename = Some(n.to_owned());
                        } else {
                            path.push(w);
                        }
                    }
                    f.path = path.join(" ");
                    m.items.push(SpecItem::Fn(f));
                }
                "impl" => {
                    let mut f = ImplSpec::default();
                    let mut path: Vec<&str> = vec![];
                    for w in &words[1..] {
                        if let Some(p) = props(w) {
                            f.props = p;
                        } else if let Some(n) = w.strip_prefix("only=") {
                            f.only = Some(n.split(',').map(|s| s.to_owned()).collect());
                        } else {
                            path.push(w);
                        }
                    }
                    f.path = path.join(" ");
                    m.items.push(SpecItem::Impl(f));
                }
                "end" => m.items.push(SpecItem::Text(String::new(), vec![])),
                x => panic!("unknown directive @@{x} in {p:?}"),
            }
            continue
        }
        let Some(m) = res.modules.last_mut() else {
            continue
        };
        match m.items.last_mut() {
            None => (),
            Some(SpecItem::Text(t, _)) | Some(SpecItem::Type(_, t, _)) => {
                t.push_str(line);
                t.push('\n');
            }
            Some(SpecItem::Impl(i)) => {
                if let Some(rest) = line.strip_prefix("@in ") {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let f = i.fns.entry(w[0].to_owned()).or_default();
                    if w[1] == "attr" {
                        f.attrs.push_str(&w[2..].join(" "));
                        f.attrs.push('\n');
                        continue
                    }
                    let key = w[1..].join(" ");
                    f.subs.insert(key.clone(), String::new());
                    sub = Some(format!("{} {}", w[0], key));
                } else if let Some(k) = &sub {
                    let (n, k) = k.split_once(' ').unwrap();
                    let t = i.fns.get_mut(n).unwrap().subs.get_mut(k).unwrap();
                    t.push_str(line);
                    t.push('\n');
                } else {
                    i.ghost.push_str(line);
                    i.ghost.push('\n');
                }
            }
            Some(SpecItem::Fn(f)) => {
                if let Some(rest) = line.strip_prefix('@') {
                    let key = rest.split_whitespace().collect::<Vec<_>>().join(" ");
                    if key.starts_with("attr ") {
                        f.attrs.push_str(&rest[5..]);
                        f.attrs.push('\n');
                        continue
                    }
                    f.subs.insert(key.clone(), String::new());
                    sub = Some(key);
                } else if let Some(k) = &sub {
                    let t = f.subs.get_mut(k).unwrap();
                    t.push_str(line);
                    t.push('\n');
                } else {
                    f.contract.push_str(line);
                    f.contract.push('\n');
                }
            }
        }
    }
    res
}
