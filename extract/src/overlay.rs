//! Contract overlay files (/verif/contracts/*.vc): a line format, `@directive` at column 0.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub key: String,
    pub ret: Option<String>,
    /// a ghost (erased) parameter added to the function
    pub ghost_param: Option<(String, String)>,
    /// callee -> what this function passes for the callee's ghost parameter
    pub ghost_args: BTreeMap<String, String>,
    pub spec: String,
    pub attr: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, (String, String)>,
    /// (anchor kind, text); kinds: start, exit, loop_before k, loop_start k, loop_end k, loop_after k,
    /// before n "tokens", after n "tokens"
    pub anchors: Vec<(String, String)>,
    pub props: Vec<String>,
    pub used: bool,
}

#[derive(Default, Debug)]
pub struct Overlay {
    /// module path -> prelude text
    pub prelude: BTreeMap<String, String>,
    /// "module::key" -> spec
    pub fns: BTreeMap<String, FnSpec>,
    /// "module::impl-or-trait key" -> items text
    pub inject: BTreeMap<String, String>,
    /// "module::Type" -> attribute text
    pub item_attr: BTreeMap<String, String>,
    /// raw top-level text (shims, theory)
    pub top: String,
}

pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn parse(text: &str, file: &str, ov: &mut Overlay) {
    let mut module = String::new();
    let mut cur_fn: Option<String> = None;
    let mut lines = text.lines().peekable();
    let block = |lines: &mut std::iter::Peekable<std::str::Lines>| {
        let mut s = String::new();
        while let Some(l) = lines.peek() {
            if l.starts_with('@') {
                break;
            }
            s.push_str(l);
            s.push('\n');
            lines.next();
        }
        s
    };
    while let Some(line) = lines.next() {
        if !line.starts_with('@') {
            let t = line.trim();
            if t.is_empty() || t.starts_with("//") {
                continue;
            }
            panic!("{}: text outside a directive: {}", file, line);
        }
        let (dir, rest) = match line[1..].split_once(char::is_whitespace) {
            Some((d, r)) => (d, r.trim()),
            None => (&line[1..], ""),
        };
        match dir {
            "module" => {
                module = rest.to_string();
                cur_fn = None;
            }
            "top" => {
                let b = block(&mut lines);
                ov.top.push_str(&b);
            }
            "prelude" => {
                let b = block(&mut lines);
                ov.prelude.entry(module.clone()).or_default().push_str(&b);
            }
            "inject" => {
                let b = block(&mut lines);
                ov.inject.insert(format!("{}::{}", module, squash(rest)), b);
            }
            "item_attr" => {
                let b = block(&mut lines);
                ov.item_attr.insert(format!("{}::{}", module, squash(rest)), b);
            }
            "fn" => {
                let key = format!("{}::{}", module, squash(rest));
                let f = FnSpec { key: key.clone(), ..Default::default() };
                if ov.fns.insert(key.clone(), f).is_some() {
                    panic!("{}: duplicate @fn {}", file, key);
                }
                cur_fn = Some(key);
            }
            _ => {
                let f = ov
                    .fns
                    .get_mut(cur_fn.as_ref().unwrap_or_else(|| panic!("{}: {} outside @fn", file, line)))
                    .unwrap();
                match dir {
                    "ghost_param" => {
                        let (n, t) = rest.split_once(char::is_whitespace).expect("ghost_param name type");
                        f.ghost_param = Some((n.to_string(), t.trim().to_string()));
                    }
                    "ghost_arg" => {
                        let (n, t) = rest.split_once(char::is_whitespace).expect("ghost_arg callee expr");
                        f.ghost_args.insert(n.to_string(), t.trim().to_string());
                    }
                    "ret" => f.ret = Some(rest.to_string()),
                    "props" => f.props.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "spec" => {
                        let b = block(&mut lines);
                        f.spec.push_str(&b)
                    }
                    "attr" => {
                        let b = block(&mut lines);
                        f.attr.push_str(&b)
                    }
                    "loop" => {
                        let k: usize = rest.parse().expect("loop index");
                        let b = block(&mut lines);
                        f.loops.insert(k, b);
                    }
                    "closure" => {
                        let (k, header) = rest.split_once(char::is_whitespace).expect("closure header");
                        let b = block(&mut lines);
                        f.closures.insert(k.parse().unwrap(), (header.to_string(), b));
                    }
                    "start" | "exit" | "loop_before" | "loop_start" | "loop_end" | "loop_after" | "before"
                    | "after" => {
                        let b = block(&mut lines);
                        f.anchors.push((format!("{} {}", dir, rest).trim().to_string(), b));
                    }
                    _ => panic!("{}: unknown directive {}", file, line),
                }
            }
        }
    }
}
