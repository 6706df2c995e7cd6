//! vx - mechanical extraction of functions of /repo/src into a Verus file.
//!
//! usage: vx UNIT.vc --repo /repo --out OUT.rs --map OUT.json [--stub KEY]... [--canary]
//! --canary puts `assert(false)` at the start of every body: each must fail (vacuity guard)
//!
//! The unit file is Verus text with directives (lines starting with `@`):
//!   @include FILE [assumed]  include another contract file (relative to this one); assumed: its functions are
//!                            emitted without their bodies (they are verified in another unit)
//!   @rule PAT => TEMPLATE    expression rewrite applied to extracted code; __a, __b.. are metavariables
//!   @path A::B => C          path rewrite applied to extracted code (expressions, patterns and types)
//!   @eta [fn] PATH (T1, T2) -> R  constructor (or function) passed as function: rewritten to a closure with its contract
//!   @type FILE NAME [derive=A,B] [as=NEW]      copy a struct/enum definition/type alias
//!   @const FILE NAME         copy a const item
//!   @fn FILE KEY : PROPS     copy a function, with contract sections up to @endfn:
//!      @opt inherent | traitimpl | free=BOUND | impl=HEADER | attr=ATTR | name=NEW | sig=.. 
//!      @ret NAME
//!      @spec / @loop K : HEADER / @closure K (T, ..) -> (r: R) / @start / @end
//!      @loopstart K / @loopend K / @beforeloop K / @afterloop K / @before NAME K / @after NAME K
//! Everything else is emitted as it is.

use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type Map<K, V> = BTreeMap<K, V>;

fn die(msg: String) -> ! {
    eprintln!("vx: {msg}");
    std::process::exit(2)
}

// ---------------------------------------------------------------- tokens

fn flat(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push_str(a);
                flat(g.stream(), out);
                out.push_str(b);
                out.push(' ');
            }
            TokenTree::Punct(p) => out.push(p.as_char()),
            t => {
                let s = t.to_string();
                if out.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                    out.push(' ');
                }
                out.push_str(&s);
            }
        }
    }
}
fn norm<T: ToTokens>(t: &T) -> String {
    let mut s = String::new();
    flat(t.to_token_stream(), &mut s);
    let s = s.replace(' ', "\u{1}");
    // keep separating spaces only between identifier characters
    let cs: Vec<char> = s.chars().collect();
    let mut r = String::new();
    for (i, c) in cs.iter().enumerate() {
        if *c == '\u{1}' {
            let w = |c: Option<&char>| c.is_some_and(|c| c.is_alphanumeric() || *c == '_');
            if i > 0 && w(cs.get(i - 1)) && w(cs.get(i + 1)) {
                r.push(' ');
            }
        } else {
            r.push(*c);
        }
    }
    r
}
fn norm_str(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => norm(&t),
        Err(_) => s.to_string(),
    }
}

// ---------------------------------------------------------------- unit file

#[derive(Default, Clone)]
struct FnSpec {
    file: String,
    key: String,
    props: Vec<String>,
    opts: Map<String, String>,
    ret: Option<String>,
    sections: Vec<(String, Vec<String>)>, // (directive text, lines)
}

enum Item {
    Raw(String),
    Type { file: String, name: String, opts: Map<String, String> },
    Const { file: String, name: String, opts: Map<String, String> },
    Fn(Box<FnSpec>),
}

struct Eta {
    tys: Vec<String>,
    ret: String,
    fun: bool,
}

struct Rule {
    pat: syn::Expr,
    template: String,
    text: String,
}

#[derive(Default)]
struct Unit {
    items: Vec<Item>,
    rules: Vec<Rule>,
    paths: Vec<(String, String)>,
    etas: HashMap<String, Eta>,
    /// what another import of a name stands for: full path, name in the contracts
    aliases: HashMap<String, String>,
}

fn parse_opts(words: &[&str]) -> Map<String, String> {
    let mut m = Map::new();
    for w in words {
        if let Some((a, b)) = w.split_once('=') {
            m.insert(a.to_string(), b.to_string());
        } else {
            m.insert((*w).to_string(), String::new());
        }
    }
    m
}

fn read_unit(path: &Path, u: &mut Unit, seen: &mut BTreeSet<PathBuf>) {
    let path = path.to_path_buf();
    if !seen.insert(path.clone()) {
        return;
    }
    let text = fs::read_to_string(&path).unwrap_or_else(|e| die(format!("{}: {e}", path.display())));
    let mut cur: Option<FnSpec> = None;
    for (n, line) in text.lines().enumerate() {
        let at = || format!("{}:{}", path.display(), n + 1);
        let t = line.trim_start();
        if !t.starts_with('@') || t.starts_with("@@") {
            if let Some(f) = &mut cur {
                if let Some(s) = f.sections.last_mut() {
                    s.1.push(line.to_string());
                } else if !t.is_empty() && !t.starts_with("//") {
                    die(format!("{}: text outside a section", at()));
                }
            } else {
                match u.items.last_mut() {
                    Some(Item::Raw(r)) => {
                        r.push_str(line);
                        r.push('\n');
                    }
                    _ => u.items.push(Item::Raw(format!("{line}\n"))),
                }
            }
            continue;
        }
        let t = t.trim_end();
        let (dir, rest) = t[1..].split_once(char::is_whitespace).unwrap_or((&t[1..], ""));
        let rest = rest.trim();
        let words: Vec<&str> = rest.split_whitespace().collect();
        if let Some(f) = &mut cur {
            match dir {
                "endfn" => u.items.push(Item::Fn(Box::new(cur.take().unwrap()))),
                "opt" => {
                    if let Some((a, b)) = rest.split_once('=') {
                        let e = f.opts.entry(a.trim().to_string()).or_default();
                        if !e.is_empty() {
                            e.push('\n');
                        }
                        e.push_str(b.trim());
                    } else {
                        f.opts.insert(rest.to_string(), String::new());
                    }
                }
                "ret" => f.ret = Some(rest.to_string()),
                "spec" | "collect" | "each" | "loop" | "closure" | "start" | "end" | "loopstart" | "loopend" | "beforeloop"
                | "afterloop" | "before" | "after" => f.sections.push((t[1..].to_string(), vec![])),
                _ => die(format!("{}: unknown directive {dir}", at())),
            }
            continue;
        }
        match dir {
            "include" => {
                let k = u.items.len();
                read_unit(&path.parent().unwrap().join(words[0]), u, seen);
                if words.get(1) == Some(&"assumed") {
                    for i in &mut u.items[k..] {
                        if let Item::Fn(f) = i {
                            f.opts.insert("assumed".into(), String::new());
                        }
                    }
                }
            }
            "rule" => {
                u.rules.push(parse_rule(rest));
            }
            "path" => {
                u.paths.push(parse_path(rest));
            }
            "alias" => {
                let (a, b) = parse_path(rest);
                u.aliases.insert(a, b);
            }
            "eta" => {
                // PATH (T,..) -> R
                let (p, r) = rest.split_once('(').unwrap_or_else(|| die(format!("{}: eta", at())));
                let (tys, ret) = r.rsplit_once("->").unwrap_or_else(|| die(format!("{}: eta", at())));
                let tys = tys.trim();
                let tys = tys.strip_suffix(')').unwrap_or(tys);
                let (p, fun) = match p.trim().strip_prefix("fn ") { Some(p) => (p, true), None => (p, false) };
                u.etas.insert(
                    norm_str(p),
                    Eta { tys: split_top(tys), ret: ret.trim().to_string(), fun },
                );
            }
            "type" => u.items.push(Item::Type {
                file: words[0].into(),
                name: words[1].into(),
                opts: parse_opts(&words[2..]),
            }),
            "const" => u.items.push(Item::Const {
                file: words[0].into(),
                name: words[1].into(),
                opts: parse_opts(&words[2..]),
            }),
            "fn" => {
                let (a, props) = rest.split_once(" : ").unwrap_or((rest, ""));
                let (file, key) = a.trim().split_once(char::is_whitespace).unwrap();
                cur = Some(FnSpec {
                    file: file.into(),
                    key: key.trim().into(),
                    props: props.split_whitespace().map(String::from).collect(),
                    ..FnSpec::default()
                });
            }
            _ => die(format!("{}: unknown directive {dir}", at())),
        }
    }
    if cur.is_some() {
        die(format!("{}: missing @endfn", path.display()));
    }
}

fn parse_rule(rest: &str) -> Rule {
    let (a, b) = rest.split_once("=>").unwrap_or_else(|| die(format!("rule {rest}")));
    let pat = syn::parse_str::<syn::Expr>(a.trim()).unwrap_or_else(|e| die(format!("rule {rest}: {e}")));
    Rule { pat, template: b.trim().to_string(), text: rest.to_string() }
}
fn parse_path(rest: &str) -> (String, String) {
    let (a, b) = rest.split_once("=>").unwrap_or_else(|| die(format!("path {rest}")));
    (norm_str(a), b.trim().to_string())
}

fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![];
    let (mut d, mut a, mut cur) = (0i32, 0i32, String::new());
    let mut prev = ' ';
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            '<' => a += 1,
            '>' if prev != '-' && prev != '=' => a -= 1,
            ',' if d == 0 && a <= 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                prev = c;
                continue;
            }
            _ => {}
        }
        cur.push(c);
        prev = c;
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

// ---------------------------------------------------------------- source files

struct Src {
    text: String,
    ast: syn::File,
}

/// Expands the calls of one-argument, one-arm `macro_rules!` of the file: `($x:expr) => { body }`.
fn expand_macros(mut text: String) -> Result<String, String> {
    struct Calls<'a> {
        defs: &'a HashMap<String, (String, String)>,
        found: Option<((usize, usize), String, String)>,
    }
    impl<'a> Calls<'a> {
        fn mac(&mut self, m: &syn::Macro, r: (usize, usize)) {
            if let Some(i) = m.path.get_ident() {
                if self.found.is_none() && self.defs.contains_key(&i.to_string()) {
                    let mut lo = usize::MAX;
                    let mut hi = 0;
                    for t in m.tokens.clone() {
                        let (a, b) = br(t.span());
                        lo = lo.min(a);
                        hi = hi.max(b);
                    }
                    self.found = Some((r, i.to_string(), format!("{lo} {hi}")));
                }
            }
        }
    }
    impl<'a, 'ast> Visit<'ast> for Calls<'a> {
        fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
            self.mac(&m.mac, range(m));
        }
        fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
            self.mac(&m.mac, range(&m.mac));
        }
    }
    for _ in 0..200 {
        let ast = syn::parse_file(&text).map_err(|e| e.to_string())?;
        let mut defs = HashMap::new();
        for it in &ast.items {
            let syn::Item::Macro(m) = it else { continue };
            let Some(name) = &m.ident else { continue };
            let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
            let arms = toks.iter().filter(|t| matches!(t, TokenTree::Group(_))).count();
            let gs: Vec<_> = toks.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
            if arms != 2 {
                continue;
            }
            let param = norm(&gs[0].stream());
            let Some(v) = param.strip_prefix('$').and_then(|p| p.strip_suffix(":expr")) else { continue };
            let (lo, hi) = br(gs[1].span());
            let body = text[lo + 1..hi - 1].to_string();
            if body.contains("//") || body.contains("/*") {
                continue;
            }
            defs.insert(name.to_string(), (format!("${v}"), body.replace('\n', " ")));
        }
        if defs.is_empty() {
            return Ok(text);
        }
        let mut c = Calls { defs: &defs, found: None };
        c.visit_file(&ast);
        let Some(((lo, hi), name, r)) = c.found else { return Ok(text) };
        let (a, b) = r.split_once(' ').unwrap();
        let (a, b): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
        if a > b {
            return Ok(text);
        }
        let (var, body) = &defs[&name];
        let t = format!("{{ {} }}", body.replace(var.as_str(), &format!("({})", &text[a..b])));
        text.replace_range(lo..hi, &t);
    }
    Ok(text)
}

// ---------------------------------------------------------------- helpers that have no contract

/// Consts of a file, with their key.
fn all_consts(ast: &syn::File) -> Vec<(String, &syn::Type, &syn::Expr)> {
    let mut out = vec![];
    for it in &ast.items {
        match it {
            syn::Item::Const(c) => out.push((c.ident.to_string(), &*c.ty, &*c.expr)),
            syn::Item::Impl(im) => {
                for ii in &im.items {
                    if let syn::ImplItem::Const(c) = ii {
                        out.push((format!("Self::{}", c.ident), &c.ty, &c.expr));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

/// Types of a file with their members, as texts.
fn all_types(ast: &syn::File) -> Vec<(String, Vec<(String, String)>)> {
    let fields = |fs: &syn::Fields, pre: &str| -> Vec<(String, String)> {
        fs.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map_or(i.to_string(), |n| n.to_string()), format!("{pre}{}", norm(&f.ty)))).collect()
    };
    let mut out = vec![];
    for it in &ast.items {
        match it {
            syn::Item::Struct(s) if !is_test(&s.attrs) => out.push((s.ident.to_string(), fields(&s.fields, ""))),
            syn::Item::Enum(e) if !is_test(&e.attrs) => {
                let mut m = vec![];
                for v in &e.variants {
                    let fs = fields(&v.fields, "");
                    let tys: Vec<String> = fs.iter().map(|f| f.1.clone()).collect();
                    m.push((v.ident.to_string(), format!("variant {}", tys.join(","))));
                    m.extend(fields(&v.fields, "of variant "));
                }
                out.push((e.ident.to_string(), m));
            }
            _ => {}
        }
    }
    out
}
/// Signatures of a file's functions without their names.
fn all_sigs(ast: &syn::File) -> Vec<(String, String)> {
    let mut out = vec![];
    let text = |s: &syn::Signature| {
        let mut s = s.clone();
        s.ident = syn::Ident::new("f", s.ident.span());
        for i in &mut s.inputs {
            if let syn::FnArg::Typed(t) = i {
                t.attrs.clear();
                *t.pat = syn::Pat::Wild(syn::PatWild { attrs: vec![], underscore_token: Default::default() });
            }
        }
        norm(&s)
    };
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => out.push((f.sig.ident.to_string(), text(&f.sig))),
            syn::Item::Impl(im) if !is_test(&im.attrs) && im.trait_.is_none() => {
                let base = ty_base(&im.self_ty);
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        out.push((format!("{base}::{}", f.sig.ident), format!("{base} {}", text(&f.sig))));
                    }
                }
            }
            _ => {}
        }
    }
    out
}
fn file_facts(ast: &syn::File) -> serde_json::Value {
    json!({
        "fns": all_fns(ast).into_iter().map(|k| k.1).collect::<Vec<_>>(),
        "sigs": all_sigs(ast),
        "consts": all_consts(ast).iter().map(|c| c.0.clone()).collect::<Vec<_>>(),
        "values": all_consts(ast).iter().map(|(n, t, e)| (n.clone(), format!("{}{} = {}", if n.contains("::") { "Self " } else { "" }, norm(*t), norm(*e)))).collect::<Vec<_>>(),
        "types": all_types(ast),
    })
}
/// What a file brings into scope: names with their full paths, traits without a name, globs.
#[derive(Default, PartialEq, Clone)]
struct Imports {
    names: Map<String, String>,
    unnamed: BTreeSet<String>,
}
fn use_tree(t: &syn::UseTree, at: &[String], module: &[String], out: &mut Imports) {
    let full = |at: &[String], last: Option<&str>| -> String {
        let mut p: Vec<String> = at.to_vec();
        p.extend(last.map(String::from));
        // relative to the crate
        let mut m: Option<Vec<String>> = None;
        let mut i = 0;
        while i < p.len() {
            match (p[i].as_str(), &mut m) {
                ("crate", None) => m = Some(vec!["crate".into()]),
                ("self", None) => m = Some(module.to_vec()),
                ("super", None) => {
                    let mut v = module.to_vec();
                    v.pop();
                    m = Some(v);
                }
                ("super", Some(v)) => {
                    v.pop();
                }
                ("self", Some(_)) => {}
                _ => break,
            }
            i += 1;
        }
        let mut p: Vec<String> = match m {
            Some(mut v) => {
                v.extend(p[i..].iter().cloned());
                v
            }
            None => p,
        };
        if p.last().is_some_and(|l| l == "self") {
            p.pop();
        }
        if p.first().is_some_and(|f| f == "core" || f == "alloc") {
            p[0] = "std".into();
        }
        p.join("::")
    };
    match t {
        syn::UseTree::Path(p) => {
            let mut a = at.to_vec();
            a.push(p.ident.to_string());
            use_tree(&p.tree, &a, module, out);
        }
        syn::UseTree::Name(n) => {
            let id = n.ident.to_string();
            let name = if id == "self" { at.last().cloned().unwrap_or_default() } else { id.clone() };
            out.names.insert(name, full(at, Some(&id)));
        }
        syn::UseTree::Rename(r) => {
            let p = full(at, Some(&r.ident.to_string()));
            if r.rename == "_" {
                out.unnamed.insert(p);
            } else {
                out.names.insert(r.rename.to_string(), p);
            }
        }
        syn::UseTree::Glob(_) => {
            out.unnamed.insert(full(at, Some("*")));
        }
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| use_tree(t, at, module, out)),
    }
}
fn module_of(file: &str) -> Vec<String> {
    let f = file.strip_prefix("src/").unwrap_or(file).trim_end_matches(".rs");
    let mut m = vec!["crate".to_string()];
    m.extend(f.split('/').filter(|s| !["lib", "mod", "main"].contains(s)).map(String::from));
    m
}
fn imports(ast: &syn::File, file: &str) -> Imports {
    let mut out = Imports::default();
    for it in &ast.items {
        if let syn::Item::Use(u) = it {
            if !is_test(&u.attrs) {
                use_tree(&u.tree, &[], &module_of(file), &mut out);
            }
        }
    }
    out
}
/// imports inside of functions
struct LocalUses(Imports, Vec<String>);
impl<'ast> Visit<'ast> for LocalUses {
    fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
        use_tree(&u.tree, &[], &self.1, &mut self.0);
    }
}
fn local_uses(b: &syn::Block, file: &str) -> Imports {
    let mut l = LocalUses(Imports::default(), module_of(file));
    l.visit_block(b);
    l.0
}
/// imports and trait implementations of every file of the crate
fn crate_facts(repo: &Path) -> Map<String, serde_json::Value> {
    fn walk(d: &Path, out: &mut Vec<PathBuf>) {
        for e in fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs") {
                out.push(p);
            }
        }
    }
    let mut files = vec![];
    walk(&repo.join("src"), &mut files);
    let mut out = Map::new();
    for p in files {
        let name = p.strip_prefix(repo).unwrap_or(&p).to_string_lossy().into_owned();
        let t = fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(expand_macros);
        if let Some(ast) = t.ok().and_then(|t| syn::parse_file(&t).ok()) {
            let i = imports(&ast, &name);
            let fns: Vec<String> = all_fns(&ast).into_iter().map(|k| k.1).collect();
            let t = norm(&ast);
            let cfg = t.matches("cfg").count() - t.matches("cfg(test)").count();
            out.insert(name, json!({ "names": i.names, "unnamed": i.unnamed, "fns": fns, "cfg": cfg }));
        }
    }
    out
}
fn import_names(v: &serde_json::Value) -> Map<String, String> {
    v["names"].as_object().map_or_else(Map::new, |o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect())
}
// names that need no import
const PRELUDE: &[&str] = &[
    "Option", "Some", "None", "Result", "Ok", "Err", "Vec", "String", "Box", "From", "Into", "TryFrom", "TryInto", "AsRef", "AsMut", "Iterator", "IntoIterator",
    "DoubleEndedIterator", "ExactSizeIterator", "Extend", "Default", "Clone", "Copy", "Drop", "Fn", "FnMut", "FnOnce", "PartialEq", "Eq", "PartialOrd", "Ord", "ToString",
    "ToOwned", "FromIterator", "drop", "usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "u128", "i128", "f32", "f64", "bool", "char", "str",
    "std", "core", "nom", "image", "cast", "log",
];
/// Follows imports that changed: a name imported from elsewhere stands for what the contracts call it, if they know
/// it (`@alias`); an imported item under another name gets its name back. The other changes are returned.
fn follow_imports(mut text: String, file: &str, base: &serde_json::Value, aliases: &HashMap<String, String>) -> Result<(String, Vec<(String, String)>), String> {
    if base.is_null() {
        return Ok((text, vec![]));
    }
    let old = import_names(base);
    let now = imports(&syn::parse_file(&text).map_err(|e| e.to_string())?, file).names;
    let mut odd = vec![];
    let mut subst: Vec<(String, String)> = vec![];
    for (n, p) in &old {
        match now.get(n) {
            Some(q) if q == p => {}
            Some(q) => match aliases.get(&norm_str(q)) {
                Some(a) => subst.push((n.clone(), a.clone())),
                None => odd.push((n.clone(), q.clone())),
            },
            None => match now.iter().find(|(m, q)| *q == p && !old.contains_key(*m)) {
                Some((m, _)) => subst.push((m.clone(), n.clone())),
                None => odd.push((n.clone(), "not imported".into())),
            },
        }
    }
    for (n, p) in &now {
        if !old.contains_key(n) && !subst.iter().any(|s| s.0 == *n) {
            if let Some(a) = aliases.get(&norm_str(p)) {
                subst.push((n.clone(), a.clone()));
            } else if let Some((m, _)) = old.iter().find(|(m, q)| *q == p && now.get(*m) == Some(p)) {
                subst.push((n.clone(), m.clone()));
            } else if PRELUDE.contains(&n.as_str()) {
                odd.push((n.clone(), p.clone()));
            }
        }
    }
    for (a, b) in subst {
        text = replace_word(&text, &a, &b);
    }
    // the same through the module: `fs::create_dir_all` for `create_dir_all`
    struct Long<'a> {
        old: &'a Map<String, String>,
        now: &'a Map<String, String>,
        aliases: &'a HashMap<String, String>,
        edits: Vec<Edit>,
    }
    impl<'ast> Visit<'ast> for Long<'_> {
        fn visit_item_use(&mut self, _: &'ast syn::ItemUse) {}
        fn visit_path(&mut self, p: &'ast syn::Path) {
            let seg: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            for k in (2..=seg.len()).rev() {
                if p.segments.iter().take(k - 1).any(|s| !s.arguments.is_empty()) {
                    continue;
                }
                let full = match self.now.get(&seg[0]) {
                    Some(m) => format!("{m}::{}", seg[1..k].join("::")),
                    None => seg[..k].join("::"),
                };
                let full = full.strip_prefix("core::").map_or(full.clone(), |r| format!("std::{r}"));
                let n = self.aliases.get(&norm_str(&full)).or_else(|| {
                    let (n, _) = self.old.iter().find(|(_, q)| **q == full)?;
                    (!self.now.contains_key(n)).then_some(n)
                });
                if let Some(n) = n {
                    let (lo, _) = range(&p.segments[0].ident);
                    let (_, hi) = range(&p.segments[k - 1].ident);
                    let lo = p.leading_colon.as_ref().map_or(lo, |c| range(c).0);
                    self.edits.push(Edit { lo, hi, text: n.clone() });
                    break;
                }
            }
            visit::visit_path(self, p);
        }
    }
    let ast = syn::parse_file(&text).map_err(|e| e.to_string())?;
    let mut l = Long { old: &old, now: &now, aliases, edits: vec![] };
    l.visit_file(&ast);
    if !l.edits.is_empty() {
        // an import replaced by its module is not lost
        odd.retain(|(n, w)| w != "not imported" || !l.edits.iter().any(|e| e.text == *n));
        text = apply(&text, 0, text.len(), l.edits);
    }
    Ok((text, odd))
}

/// an item that only changed its name: gone, with one new item that has its contents
fn moved(old: &[(String, String)], new: &[(String, String)]) -> Option<(String, String)> {
    let gone: Vec<_> = old.iter().filter(|(n, _)| !new.iter().any(|(m, _)| m == n)).collect();
    let come: Vec<_> = new.iter().filter(|(n, _)| !old.iter().any(|(m, _)| m == n)).collect();
    for (n, c) in &gone {
        let m: Vec<_> = come.iter().filter(|(_, d)| d == c).collect();
        if m.len() == 1 && gone.iter().filter(|(_, d)| d == c).count() == 1 {
            let last = |s: &str| s.rsplit("::").next().unwrap().to_string();
            return Some((last(n), last(&m[0].0)));
        }
    }
    None
}
fn renamed_item(ast: &syn::File, base: &serde_json::Value) -> Option<(String, String)> {
    let pairs = |v: &serde_json::Value| -> Vec<(String, String)> {
        v.as_array().map_or(vec![], |a| a.iter().map(|p| (p[0].as_str().unwrap_or("").to_string(), p[1].as_str().map_or_else(|| p[1].to_string(), String::from))).collect())
    };
    let now = file_facts(ast);
    if base["types"].is_null() {
        return None;
    }
    // types, then members of a type, then functions and consts
    if let Some(m) = moved(&pairs(&base["types"]), &pairs(&now["types"])) {
        return Some(m);
    }
    for t in base["types"].as_array().unwrap_or(&vec![]) {
        if let Some(u) = now["types"].as_array().unwrap().iter().find(|u| u[0] == t[0]) {
            let (a, b) = (pairs(&t[1]), pairs(&u[1]));
            let apart: Vec<usize> = (0..a.len().min(b.len())).filter(|&k| a[k].0 != b[k].0).collect();
            if a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.1 == y.1) {
                // in the same place, or under a name that tells
                if let Some(&k) = apart.iter().find(|&&k| !b.iter().any(|y| y.0 == a[k].0) && !a.iter().any(|x| x.0 == b[k].0)) {
                    return Some((a[k].0.clone(), b[k].0.clone()));
                }
            }
        }
    }
    moved(&pairs(&base["sigs"]), &pairs(&now["sigs"])).or_else(|| moved(&pairs(&base["values"]), &pairs(&now["values"])))
}
fn replace_word(s: &str, from: &str, to: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(from) {
        let before = rest[..i].chars().next_back().or(o.chars().next_back()).is_some_and(id);
        let after = rest[i + from.len()..].chars().next().is_some_and(id);
        o.push_str(&rest[..i]);
        o.push_str(if before || after { from } else { to });
        rest = &rest[i + from.len()..];
    }
    o.push_str(rest);
    o
}

#[derive(Clone)]
struct Helper {
    base: Option<String>, // of a method
    generic_impl: bool,
    sig: syn::Signature,
    block: syn::Block,
    guarded: Option<String>, // the body without its returns
    leaves: bool, // has ? or return
    ok_return: bool, // has a return that is not of an Err
}
#[derive(Default)]
struct Leaves {
    leaves: bool,
    ok: bool,
}
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Closure(_) => return,
            syn::Expr::Try(_) => self.leaves = true,
            syn::Expr::Return(r) => {
                self.leaves = true;
                let err = matches!(r.expr.as_deref(), Some(syn::Expr::Call(c)) if norm(&c.func) == "Err");
                let none = matches!(r.expr.as_deref(), Some(syn::Expr::Path(p)) if p.path.is_ident("None"));
                self.ok |= !err && !none;
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
/// what `?` returns from a function of this type
fn err_type(r: &syn::ReturnType) -> Option<String> {
    let syn::ReturnType::Type(_, t) = r else { return None };
    let syn::Type::Path(p) = &**t else { return None };
    let s = p.path.segments.last()?;
    let args: Vec<String> = match &s.arguments {
        syn::PathArguments::AngleBracketed(a) => a.args.iter().filter(|a| !matches!(a, syn::GenericArgument::Lifetime(_))).map(norm).collect(),
        _ => return None,
    };
    let head: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
    match (s.ident.to_string().as_str(), args.len()) {
        ("Option", _) => Some("None".into()),
        ("Result", 2) => Some(args[1].clone()),
        ("Result", 1) => Some(head.join("::")),
        ("IResult", 2) => Some(format!("IResult {}", args[0])),
        _ => None,
    }
}
fn words_replace(s: &str, from: &str, to: &str) -> String {
    rename(s, &[(from.to_string(), to.to_string())])
}
/// a type as it can be written in a `let`: without lifetimes
fn let_type(src: &str, t: &syn::Type, generics: &[String]) -> Option<String> {
    let (lo, hi) = range(t);
    let mut s = String::new();
    let mut rest = &src[lo..hi];
    while let Some(i) = rest.find('\'') {
        s.push_str(&rest[..i]);
        let r = &rest[i + 1..];
        let n = r.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(r.len());
        s.push_str("'_");
        rest = &r[n..];
    }
    s.push_str(rest);
    let words: Vec<&str> = s.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
    (!words.contains(&"impl") && !words.contains(&"dyn") && !words.iter().any(|w| generics.iter().any(|g| g == w))).then_some(s)
}

/// `if c { return x; } rest` as `if c { x } else { rest }`, when nothing else returns
fn guards(text: &str, block: &syn::Block) -> Option<String> {
    let leaves = |s: &mut dyn Iterator<Item = &syn::Stmt>| {
        let mut l = Leaves::default();
        s.for_each(|s| l.visit_stmt(s));
        l.leaves
    };
    let mut o = String::from("{ ");
    let mut open = 0;
    for s in &block.stmts {
        let (lo, hi) = range(s);
        if !leaves(&mut std::iter::once(s)) {
            o.push_str(&text[lo..hi]);
            o.push('\n');
            continue;
        }
        if let syn::Stmt::Expr(syn::Expr::Return(r), _) = s {
            // at the end
            let (x, y) = range(r.expr.as_deref()?);
            o.push_str(&text[x..y]);
            continue;
        }
        let syn::Stmt::Expr(syn::Expr::If(i), _) = s else { return None };
        if i.else_branch.is_some() {
            return None;
        }
        let Some((syn::Stmt::Expr(syn::Expr::Return(r), _), front)) = i.then_branch.stmts.split_last() else { return None };
        let x = r.expr.as_deref()?;
        let mut l = Leaves::default();
        l.visit_expr(&i.cond);
        l.visit_expr(x);
        if l.leaves || leaves(&mut front.iter()) {
            return None;
        }
        let (ca, cb) = range(&*i.cond);
        let (ba, _) = range(&i.then_branch);
        let (ra, _) = range(r);
        let (xa, xb) = range(x);
        o.push_str(&format!("if {} {}{} }} else {{\n", &text[ca..cb], &text[ba..ra], &text[xa..xb]));
        open += 1;
    }
    o.push_str(&" }".repeat(open + 1));
    Some(o)
}

struct Sites<'a> {
    helpers: &'a [Helper],
    known: &'a dyn Fn(&str) -> bool,
    base: Option<String>,
    ret: Option<syn::ReturnType>,
    inside: bool,
    closures: usize,
    tail: Vec<(usize, usize)>,
    tried: Vec<(usize, usize)>,
    // where, helper, receiver and arguments
    found: Option<((usize, usize), usize, Option<(usize, usize)>, Vec<(usize, usize)>)>,
}
impl Sites<'_> {
    fn body(&mut self, sig: &syn::Signature, block: &syn::Block) {
        self.ret = Some(sig.output.clone());
        self.inside = true;
        self.tail.clear();
        if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
            self.tail.push(range(e));
        }
        self.visit_block(block);
        self.inside = false;
    }
    fn fits(&self, h: &Helper, r: (usize, usize)) -> bool {
        if !h.leaves {
            return true;
        }
        if self.closures > 0 {
            return false;
        }
        let Some(ret) = &self.ret else { return false };
        if self.tail.contains(&r) && norm(ret) == norm(&h.sig.output) {
            return true;
        }
        self.tried.contains(&r) && !h.ok_return && err_type(ret).is_some() && err_type(ret) == err_type(&h.sig.output)
    }
}
impl<'ast> Visit<'ast> for Sites<'_> {
    fn visit_item_impl(&mut self, im: &'ast syn::ItemImpl) {
        if is_test(&im.attrs) {
            return;
        }
        let base = ty_base(&im.self_ty);
        self.base = Some(base.clone());
        for ii in &im.items {
            if let syn::ImplItem::Fn(f) = ii {
                let name = f.sig.ident.to_string();
                let key = match &im.trait_ {
                    None => format!("{base}::{name}"),
                    Some((_, p, _)) => format!("<{} for {base}>::{name}", p.segments.last().unwrap().ident),
                };
                if (self.known)(&key) {
                    self.body(&f.sig, &f.block);
                }
            }
        }
        self.base = None;
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if !is_test(&f.attrs) && (self.known)(&f.sig.ident.to_string()) {
            self.body(&f.sig, &f.block);
        }
    }
    fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
    fn visit_item_trait(&mut self, _: &'ast syn::ItemTrait) {}
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.found.is_some() || !self.inside {
            return;
        }
        match e {
            syn::Expr::Closure(c) => {
                self.closures += 1;
                visit::visit_expr_closure(self, c);
                self.closures -= 1;
                return;
            }
            syn::Expr::Try(t) => self.tried.push(range(&*t.expr)),
            syn::Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    self.tail.push(range(&**x));
                }
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let w: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    for (k, h) in self.helpers.iter().enumerate() {
                        let hit = match (&h.base, w.as_slice()) {
                            (None, [n]) => h.sig.ident == *n,
                            (Some(b), [q, n]) => {
                                h.sig.ident == *n && h.sig.receiver().is_none() && (q == b && !h.generic_impl || q == "Self" && self.base.as_ref() == Some(b))
                            }
                            _ => false,
                        };
                        if hit && h.sig.inputs.len() == c.args.len() && self.fits(h, range(e)) {
                            self.found = Some((range(e), k, None, c.args.iter().map(range).collect()));
                            return;
                        }
                    }
                }
            }
            syn::Expr::MethodCall(c) => {
                for (k, h) in self.helpers.iter().enumerate() {
                    let own = matches!(&*c.receiver, syn::Expr::Path(p) if p.path.is_ident("self")) && h.base == self.base;
                    let var = matches!(&*c.receiver, syn::Expr::Path(p) if p.path.get_ident().is_some_and(|i| i != "self"))
                        && h.sig.receiver().is_some_and(|r| r.reference.is_some() && r.mutability.is_none());
                    if h.sig.ident == c.method && h.sig.receiver().is_some() && (own || var && !h.generic_impl) && h.sig.inputs.len() == c.args.len() + 1 && self.fits(h, range(e)) {
                        self.found = Some((range(e), k, (!own).then(|| range(&*c.receiver)), c.args.iter().map(range).collect()));
                        return;
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

/// Functions and consts added to a file since its contracts were written have no contract of
/// their own: they are put in place where they are used.
fn inline_new(mut text: String, base: &serde_json::Value, told: &mut Vec<String>) -> Result<String, String> {
    let list = |k: &str| -> Option<Vec<String>> { base[k].as_array().map(|a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect()) };
    let (Some(fns), Some(consts)) = (list("fns"), list("consts")) else { return Ok(text) };
    for _ in 0..60 {
        let ast = syn::parse_file(&text).map_err(|e| e.to_string())?;
        // consts
        let new: Vec<_> = all_consts(&ast).into_iter().filter(|(n, _, _)| !consts.contains(n)).collect();
        if !new.is_empty() {
            struct Uses<'a> {
                names: &'a [(String, &'a syn::Type, &'a syn::Expr)],
                found: Option<((usize, usize), usize, bool)>,
            }
            impl Uses<'_> {
                fn path(&mut self, p: &syn::Path, pat: bool) {
                    let w: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                    if let Some(k) = self.names.iter().position(|(n, _, _)| *n == w.join("::")) {
                        self.found = Some((range(p), k, pat));
                    }
                }
            }
            impl<'a, 'ast> Visit<'ast> for Uses<'a> {
                fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
                fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                    self.path(&p.path, false);
                }
                fn visit_pat(&mut self, p: &'ast syn::Pat) {
                    match p {
                        syn::Pat::Ident(i) => {
                            if let Some(k) = self.names.iter().position(|(n, _, _)| i.ident == *n) {
                                self.found = Some((range(i), k, true));
                            }
                        }
                        syn::Pat::Path(p) => self.path(&p.path, true),
                        _ => {}
                    }
                    visit::visit_pat(self, p);
                }
            }
            let mut u = Uses { names: &new, found: None };
            u.visit_file(&ast);
            if let Some(((lo, hi), k, pat)) = u.found {
                let (_, ty, e) = &new[k];
                let (a, b) = range(*e);
                let ts = norm(*ty);
                let int = matches!(ts.as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64");
                let lit = matches!(e, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if i.suffix().is_empty());
                let (ta, tb) = range(*ty);
                let r = if int && lit {
                    format!("{}{ts}", &text[a..b])
                } else if pat {
                    text[a..b].to_string()
                } else {
                    format!("({{ let vx_c: {} = {}; vx_c }})", &text[ta..tb], &text[a..b])
                };
                told.push(format!("const {}", new[k].0));
                text.replace_range(lo..hi, &r);
                continue;
            }
        }
        // functions
        let mut helpers = vec![];
        for it in &ast.items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) && !fns.contains(&f.sig.ident.to_string()) => helpers.push((None, false, &f.sig, &*f.block)),
                syn::Item::Impl(im) if !is_test(&im.attrs) && im.trait_.is_none() => {
                    let b = ty_base(&im.self_ty);
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if !fns.contains(&format!("{b}::{}", f.sig.ident)) {
                                helpers.push((Some(b.clone()), !im.generics.params.is_empty(), &f.sig, &f.block));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let helpers: Vec<Helper> = helpers
            .into_iter()
            .map(|(base, generic_impl, sig, block)| {
                let mut l = Leaves::default();
                l.visit_block(block);
                let guarded = if l.leaves { guards(&text, block) } else { None };
                Helper { base, generic_impl, sig: sig.clone(), block: block.clone(), leaves: l.leaves && guarded.is_none(), guarded, ok_return: l.ok }
            })
            .collect();
        if helpers.is_empty() {
            return Ok(text);
        }
        let known = |k: &str| fns.iter().any(|f| norm_key(f) == norm_key(k));
        let mut s = Sites { helpers: &helpers, known: &known, base: None, ret: None, inside: false, closures: 0, tail: vec![], tried: vec![], found: None };
        s.visit_file(&ast);
        let Some(((lo, hi), k, recv, args)) = s.found else { return Ok(text) };
        let h = &helpers[k];
        let generics: Vec<String> = h.sig.generics.type_params().map(|p| p.ident.to_string()).collect();
        let (a, b) = range(&h.block);
        let mut body = h.guarded.clone().unwrap_or_else(|| text[a..b].to_string());
        let mut lets = String::new();
        let mut bound = Binders(vec![]);
        bound.visit_block(&h.block);
        let mut short = Shorthands(vec![]);
        short.visit_block(&h.block);
        if let Some((x, y)) = recv {
            lets.push_str(&format!("let vx_self = &{};\n", &text[x..y]));
            body = words_replace(&body, "self", "vx_self");
        }
        if let Some(b) = &h.base {
            if !h.generic_impl {
                body = words_replace(&body, "Self", b);
            }
        }
        let params: Vec<&syn::PatType> = h.sig.inputs.iter().filter_map(|i| if let syn::FnArg::Typed(t) = i { Some(t) } else { None }).collect();
        let mut second = String::new();
        let mut renames = vec![];
        for (i, (p, (x, y))) in params.iter().zip(&args).enumerate() {
            let arg = &text[*x..*y];
            let id = arg.chars().all(|c| c.is_alphanumeric() || c == '_') && !arg.starts_with(|c: char| c.is_ascii_digit());
            let (pl, ph) = range(&*p.pat);
            let pat = &text[pl..ph];
            if let (true, syn::Pat::Ident(pi)) = (id, &*p.pat) {
                if pi.mutability.is_none() && !bound.0.iter().any(|b| b == arg || b == pat) && (pat == arg || !short.0.iter().any(|b| b == pat)) && !params.iter().any(|q| norm(&*q.pat) == arg && norm(&*q.pat) != pat) {
                    if pat != arg {
                        renames.push((pat.to_string(), arg.to_string()));
                    }
                    continue;
                }
            }
            match let_type(&text, &p.ty, &generics) {
                Some(t) => lets.push_str(&format!("let vx_h{i}: {t} = {arg};\n")),
                None => lets.push_str(&format!("let vx_h{i} = {arg};\n")),
            }
            second.push_str(&format!("let {pat} = vx_h{i};\n"));
        }
        let body = rename(&body, &renames);
        let ret = match &h.sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => let_type(&text, t, &generics),
        };
        let r = match ret {
            Some(t) if t != "Self" => format!("({{ {lets}{second}let vx_h: {t} = {body};\nvx_h }})"),
            _ => format!("({{ {lets}{second}{body} }})"),
        };
        told.push(format!("fn {}", h.sig.ident));
        text.replace_range(lo..hi, &r);
    }
    Ok(text)
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

/// Range of a syntax node (the join of its first and last tokens).
fn range<T: ToTokens>(t: &T) -> (usize, usize) {
    let mut lo = usize::MAX;
    let mut hi = 0;
    fn go(ts: TokenStream, lo: &mut usize, hi: &mut usize) {
        for t in ts {
            let (a, b) = match &t {
                TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::None => {
                    go(g.stream(), lo, hi);
                    continue;
                }
                t => br(t.span()),
            };
            if a == b {
                continue;
            }
            *lo = (*lo).min(a);
            *hi = (*hi).max(b);
        }
    }
    go(t.to_token_stream(), &mut lo, &mut hi);
    (lo, hi)
}

struct Found<'a> {
    sig: &'a syn::Signature,
    block: Option<&'a syn::Block>,
    imp: Option<&'a syn::ItemImpl>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(a);
        s.contains("cfg(test)") || s.contains("cfg(kani)")
    })
}

fn ty_base(t: &syn::Type) -> String {
    // name of the self type without generics
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", ty_base(&r.elem)),
        t => norm(t),
    }
}

fn find_fn<'a>(ast: &'a syn::File, key: &str) -> Vec<Found<'a>> {
    let mut out = vec![];
    // key forms: `name`, `Type::name`, `<Trait for Type>::name`, `Trait::name` (default method), `outer/inner`
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                if f.sig.ident == key {
                    out.push(Found { sig: &f.sig, block: Some(&f.block), imp: None });
                }
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let base = ty_base(&im.self_ty);
                let full = norm(&im.self_ty);
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        let name = f.sig.ident.to_string();
                        let keys: Vec<String> = match &im.trait_ {
                            None => vec![format!("{base}::{name}"), format!("{full}::{name}")],
                            Some((_, p, _)) => {
                                let tb = p.segments.last().unwrap().ident.to_string();
                                let tf = norm(p);
                                vec![
                                    format!("<{tb} for {base}>::{name}"),
                                    format!("<{tf} for {base}>::{name}"),
                                    format!("<{tb} for {full}>::{name}"),
                                    format!("<{tf} for {full}>::{name}"),
                                ]
                            }
                        };
                        if keys.iter().any(|k| norm_key(k) == norm_key(key)) {
                            out.push(Found { sig: &f.sig, block: Some(&f.block), imp: Some(im) });
                        }
                    }
                }
            }
            syn::Item::Trait(tr) => {
                for ti in &tr.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if format!("{}::{}", tr.ident, f.sig.ident) == key {
                            out.push(Found { sig: &f.sig, block: f.default.as_ref(), imp: None });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}
fn norm_key(k: &str) -> String {
    norm_str(k)
}

/// All function names (free, methods) of a file, with their key.
fn all_fns(ast: &syn::File) -> Vec<(String, String)> {
    let mut out = vec![];
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => out.push((f.sig.ident.to_string(), f.sig.ident.to_string())),
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let base = ty_base(&im.self_ty);
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        let name = f.sig.ident.to_string();
                        let key = match &im.trait_ {
                            None => format!("{base}::{name}"),
                            Some((_, p, _)) => format!("<{} for {base}>::{name}", p.segments.last().unwrap().ident),
                        };
                        out.push((name, key));
                    }
                }
            }
            syn::Item::Trait(tr) => {
                for ti in &tr.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.default.is_some() {
                            out.push((f.sig.ident.to_string(), format!("{}::{}", tr.ident, f.sig.ident)));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}

// ---------------------------------------------------------------- expression matching

enum Bind<'a> {
    E(&'a syn::Expr),
    T((usize, usize), String),
}
type Binds<'a> = HashMap<String, Bind<'a>>;

fn pat_meta(p: &syn::Pat) -> Option<String> {
    if let syn::Pat::Ident(i) = p {
        let s = i.ident.to_string();
        if s.starts_with("__") {
            return Some(s);
        }
    }
    None
}
fn mat_pat<'a>(p: &syn::Pat, e: &'a syn::Pat, b: &mut Binds<'a>) -> bool {
    if let Some(m) = pat_meta(p) {
        b.insert(m, Bind::T(range(e), norm(e)));
        return true;
    }
    match (p, e) {
        (syn::Pat::Tuple(p), syn::Pat::Tuple(e)) => {
            p.elems.len() == e.elems.len() && p.elems.iter().zip(&e.elems).all(|(p, e)| mat_pat(p, e, b))
        }
        (p, e) => norm(p) == norm(e),
    }
}

fn meta_name(e: &syn::Expr) -> Option<String> {
    if let syn::Expr::Path(p) = e {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            let s = p.path.segments[0].ident.to_string();
            if s.starts_with("__") && p.path.segments[0].arguments.is_empty() {
                return Some(s);
            }
        }
    }
    None
}

fn mat<'a>(p: &syn::Expr, e: &'a syn::Expr, b: &mut Binds<'a>) -> bool {
    use syn::Expr as E;
    if let Some(m) = meta_name(p) {
        // `__lit_x` stands for a literal only
        if m.starts_with("__lit_") && !matches!(e, E::Lit(_)) {
            return false;
        }
        if let Some(old) = b.get(&m) {
            return match old {
                Bind::E(o) => norm(*o) == norm(e),
                Bind::T(_, t) => *t == norm(e),
            };
        }
        b.insert(m, Bind::E(e));
        return true;
    }
    let list = |p: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>,
                e: &'a syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>,
                b: &mut Binds<'a>| { p.len() == e.len() && p.iter().zip(e).all(|(p, e)| mat(p, e, b)) };
    match (p, e) {
        (E::MethodCall(p), E::MethodCall(e)) => {
            p.method == e.method
                && (p.turbofish.is_none() || norm(&p.turbofish) == norm(&e.turbofish))
                && mat(&p.receiver, &e.receiver, b)
                && list(&p.args, &e.args, b)
        }
        (E::Tuple(p), E::Tuple(e)) => list(&p.elems, &e.elems, b),
        (E::Call(p), E::Call(e)) => mat(&p.func, &e.func, b) && list(&p.args, &e.args, b),
        (E::Field(p), E::Field(e)) => norm(&p.member) == norm(&e.member) && mat(&p.base, &e.base, b),
        (E::Reference(p), E::Reference(e)) => {
            p.mutability.is_some() == e.mutability.is_some() && mat(&p.expr, &e.expr, b)
        }
        (E::Paren(p), E::Paren(e)) => mat(&p.expr, &e.expr, b),
        (E::Paren(p), e) => mat(&p.expr, e, b),
        (E::Index(p), E::Index(e)) => mat(&p.expr, &e.expr, b) && mat(&p.index, &e.index, b),
        (E::Binary(p), E::Binary(e)) => {
            norm(&p.op) == norm(&e.op) && mat(&p.left, &e.left, b) && mat(&p.right, &e.right, b)
        }
        (E::Unary(p), E::Unary(e)) => norm(&p.op) == norm(&e.op) && mat(&p.expr, &e.expr, b),
        (E::Cast(p), E::Cast(e)) => norm(&p.ty) == norm(&e.ty) && mat(&p.expr, &e.expr, b),
        (E::Try(p), E::Try(e)) => mat(&p.expr, &e.expr, b),
        (E::Range(p), E::Range(e)) => {
            let opt = |p: &Option<Box<syn::Expr>>, e: &'a Option<Box<syn::Expr>>, b: &mut Binds<'a>| match (p, e) {
                (None, None) => true,
                (Some(p), Some(e)) => mat(p, e, b),
                _ => false,
            };
            norm(&p.limits) == norm(&e.limits) && opt(&p.start, &e.start, b) && opt(&p.end, &e.end, b)
        }
        (E::Macro(p), E::Macro(e)) => norm(&p.mac) == norm(&e.mac),
        (E::Closure(p), E::Closure(e)) => {
            p.inputs.len() == e.inputs.len()
                && p.inputs.iter().zip(&e.inputs).all(|(p, e)| mat_pat(p, e, b))
                && mat(&p.body, &e.body, b)
        }
        (p, e) => norm(p) == norm(e),
    }
}

// ---------------------------------------------------------------- rendering

#[derive(Clone)]
struct Edit {
    lo: usize,
    hi: usize,
    text: String,
}

struct Ctx<'a> {
    src: &'a str,
    unit: &'a Unit,
    spec: &'a FnSpec,
    assoc: HashMap<String, String>, // Self::X
    self_name: Option<String>,
    loops: HashMap<(usize, usize), usize>,
    closures: HashMap<(usize, usize), usize>,
    loop_headers: Vec<String>,
    anchors: HashMap<(usize, usize), (Vec<String>, Vec<String>)>, // stmt range -> before, after
    rules: Vec<Rule>,               // of this function (@opt rule=)
    paths: Vec<(String, String)>,   // of this function (@opt path=)
    bare: BTreeSet<String>,         // parameters that are function pointers
    bare_fields: BTreeSet<String>,
}

fn tab(s: &[String]) -> String {
    s.join("\n")
}

impl<'a> Ctx<'a> {
    fn section(&self, name: &str) -> Option<&'a Vec<String>> {
        let n = norm_ws(name);
        self.spec
            .sections
            .iter()
            .find(|(d, _)| {
                let d = d.split(" : ").next().unwrap_or(d);
                norm_ws(d) == n
            })
            .map(|(_, l)| l)
    }
    fn render(&self, lo: usize, hi: usize, edits: Vec<Edit>) -> String {
        apply(self.src, lo, hi, edits)
    }
    fn expr(&self, e: &syn::Expr, log: &mut Log) -> String {
        let (lo, hi) = range(e);
        let mut v = V { cx: self, edits: vec![], log };
        v.visit_expr(e);
        let ed = std::mem::take(&mut v.edits);
        self.render(lo, hi, ed)
    }
}
fn norm_ws(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn apply(src: &str, lo: usize, hi: usize, edits: Vec<Edit>) -> String {
    // insertions keep their order; an edit contained in a larger replacement is dropped
    let mut ed: Vec<(usize, Edit)> = edits.into_iter().enumerate().collect();
    ed.sort_by_key(|(i, e)| (e.lo, e.hi > e.lo, *i));
    let mut out = String::new();
    let mut pos = lo;
    for (_, e) in ed {
        if e.lo < pos || e.hi > hi {
            if e.lo < lo || e.hi > hi {
                continue;
            }
            if e.lo < pos {
                continue; // inside a replaced range
            }
        }
        out.push_str(&src[pos..e.lo]);
        out.push_str(&e.text);
        pos = e.hi;
    }
    out.push_str(&src[pos..hi]);
    out
}

#[derive(Default)]
struct Log {
    rewrites: Map<String, usize>,
    lost: Vec<String>,
    calls: BTreeSet<String>,
}
impl Log {
    fn rw(&mut self, s: &str) {
        *self.rewrites.entry(s.to_string()).or_default() += 1;
    }
}

struct V<'a, 'b> {
    cx: &'b Ctx<'a>,
    edits: Vec<Edit>,
    log: &'b mut Log,
}

const DROP_MACROS: &[&str] = &["trace", "debug", "info", "warn", "error", "println", "eprintln", "scope"];

/// Arguments of a log macro whose evaluation could panic, if they are of a simple form.
fn log_args<'e>(e: &'e syn::Expr, out: &mut Vec<&'e syn::Expr>) {
    fn simple(e: &syn::Expr, risky: &mut bool) -> bool {
        match e {
            syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
            syn::Expr::Field(f) => simple(&f.base, risky),
            syn::Expr::Paren(p) => simple(&p.expr, risky),
            syn::Expr::Reference(r) => simple(&r.expr, risky),
            syn::Expr::Cast(c) => simple(&c.expr, risky),
            syn::Expr::Unary(u) => {
                *risky |= matches!(u.op, syn::UnOp::Neg(_));
                simple(&u.expr, risky)
            }
            syn::Expr::Binary(b) => {
                *risky = true;
                simple(&b.left, risky) && simple(&b.right, risky)
            }
            syn::Expr::Index(i) => {
                *risky = true;
                simple(&i.expr, risky) && simple(&i.index, risky)
            }
            syn::Expr::Range(r) => {
                r.start.as_ref().map_or(true, |e| simple(e, risky)) && r.end.as_ref().map_or(true, |e| simple(e, risky))
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                *risky |= n == "unwrap" || n == "expect";
                (n == "unwrap" || n == "len" || n == "is_empty") && m.args.is_empty() && simple(&m.receiver, risky)
                    || n == "expect" && simple(&m.receiver, risky)
            }
            _ => false,
        }
    }
    match e {
        syn::Expr::Reference(r) => log_args(&r.expr, out),
        // a wrapper for display
        syn::Expr::Call(c)
            if matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident.to_string().starts_with(char::is_uppercase))) =>
        {
            for a in &c.args {
                log_args(a, out);
            }
        }
        e => {
            let mut risky = false;
            if simple(e, &mut risky) && risky {
                out.push(e);
            }
        }
    }
}

// a piece of a format string: text, {}, {:0w}
enum Piece {
    Lit(String),
    Show(String),
    Zpad(String, u32),
}

impl V<'_, '_> {
    fn put(&mut self, lo: usize, hi: usize, text: String) {
        self.edits.push(Edit { lo, hi, text });
    }

    fn mac(&mut self, mac: &syn::Macro, whole: (usize, usize)) -> bool {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let args = || {
            mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
        };
        if DROP_MACROS.contains(&name.as_str()) {
            // what it prints is dropped; indexing and arithmetic in its arguments are kept for their obligations
            let mut t = String::from("()");
            if let Ok(a) = args() {
                let mut keep = vec![];
                for e in a.iter().skip(1) {
                    let e = match e {
                        syn::Expr::Assign(x) => &*x.right,
                        e => e,
                    };
                    log_args(e, &mut keep);
                }
                if !keep.is_empty() {
                    t = keep.iter().map(|e| format!("vx_log(&({}))", self.cx.expr(e, self.log))).collect::<Vec<_>>().join("; ");
                    t = format!("{{ {t}; }}");
                    self.log.rw("log/print macro: only the arguments that could panic are kept");
                }
            }
            if t == "()" {
                self.log.rw("log/print macro dropped");
            }
            self.put(whole.0, whole.1, t);
            return true;
        }
        match name.as_str() {
            "assert" | "debug_assert" => {
                if let Ok(a) = args() {
                    let c = self.cx.expr(&a[0], self.log);
                    self.put(whole.0, whole.1, format!("vx_assert({c})"));
                    self.log.rw("assert!(c) -> vx_assert(c) (requires c)");
                    return true;
                }
            }
            "assert_eq" | "debug_assert_eq" => {
                if let Ok(a) = args() {
                    let c = self.cx.expr(&a[0], self.log);
                    let d = self.cx.expr(&a[1], self.log);
                    self.put(whole.0, whole.1, format!("vx_assert(({c}) == ({d}))"));
                    self.log.rw("assert_eq! -> vx_assert");
                    return true;
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.put(whole.0, whole.1, "vx_panic()".into());
                self.log.rw("panic!/unreachable! -> vx_panic() (requires false)");
                return true;
            }
            "format" => {
                if self.cx.spec.opts.contains_key("text") {
                    if let Some(t) = args().ok().and_then(|a| self.format_macro(&a)) {
                        self.put(whole.0, whole.1, t);
                        self.log.rw("format! -> the text it makes");
                        return true;
                    }
                }
                self.put(whole.0, whole.1, "vx_format()".into());
                self.log.rw("format! -> opaque string");
                return true;
            }
            "vec" => {
                // vec![e; n] or vec![a, b]: rewrite the arguments only
                if let Ok(r) = mac.parse_body_with(|i: syn::parse::ParseStream| {
                    let e: syn::Expr = i.parse()?;
                    let _: syn::Token![;] = i.parse()?;
                    let n: syn::Expr = i.parse()?;
                    Ok((e, n))
                }) {
                    let e = self.cx.expr(&r.0, self.log);
                    let n = self.cx.expr(&r.1, self.log);
                    self.put(whole.0, whole.1, format!("vx_vec_from_elem({e}, {n})"));
                    self.log.rw("vec![e; n] -> vx_vec_from_elem(e, n)");
                    return true;
                }
            }
            "write" | "writeln" => {
                if let (true, Ok(a)) = (self.cx.spec.opts.contains_key("diag"), args()) {
                    // what it prints is dropped, its arguments are kept for their obligations
                    let mut t = String::new();
                    for e in a.iter().skip(2) {
                        let e = match e {
                            syn::Expr::Assign(x) => &*x.right,
                            e => e,
                        };
                        t.push_str(&format!("vx_log(&({})); ", self.cx.expr(e, self.log)));
                    }
                    let w = a.first().map(|e| self.cx.expr(e, self.log)).unwrap_or_default();
                    self.put(whole.0, whole.1, format!("({{ {t}vx_out({w}) }})"));
                    self.log.rw("write!/writeln! of a diagnostic -> its arguments, and an unknown text");
                    return true;
                }
                if let Ok(a) = args() {
                    if let Some(t) = self.write_macro(&a, name == "writeln") {
                        self.put(whole.0, whole.1, t);
                        self.log.rw("write!/writeln! -> one call per piece of the format string, stopping at the first error");
                        return true;
                    }
                }
            }
            _ => {}
        }
        false
    }

    fn write_macro(&mut self, a: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, ln: bool) -> Option<String> {
        let w = self.cx.expr(a.first()?, self.log);
        let rest: Vec<&syn::Expr> = a.iter().skip(1).collect();
        let mut pieces: Vec<String> = self
            .fmt_pieces(&rest, ln)?
            .iter()
            .map(|p| match p {
                Piece::Lit(t) => format!("vx_lit({w}, {t:?})"),
                Piece::Show(v) => format!("vx_fmt({w}, &({v}))"),
                Piece::Zpad(v, wd) => format!("vx_fmt_zpad({w}, &({v}), {wd})"),
            })
            .collect();
        let mut out = pieces.pop().unwrap_or_else(|| format!("vx_lit({w}, \"\")"));
        while let Some(p) = pieces.pop() {
            out = format!("match {p} {{ Ok(()) => {out}, Err(__e) => Err(__e) }}");
        }
        Some(out)
    }

    // format!(..): the text it makes (`@opt text`)
    fn format_macro(&mut self, a: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> Option<String> {
        let rest: Vec<&syn::Expr> = a.iter().collect();
        Some(self.fmt_pieces(&rest, false)?.iter().fold("vx_text()".to_string(), |t, p| match p {
            Piece::Lit(l) => format!("vx_text_lit({t}, {l:?})"),
            Piece::Show(v) => format!("vx_text_show({t}, &({v}))"),
            Piece::Zpad(v, wd) => format!("vx_text_zpad({t}, &({v}), {wd})"),
        }))
    }

    // a format string and its arguments
    fn fmt_pieces(&mut self, a: &[&syn::Expr], ln: bool) -> Option<Vec<Piece>> {
        let mut fmt = match a.first() {
            None => String::new(),
            Some(syn::Expr::Lit(l)) => match &l.lit {
                syn::Lit::Str(s) => s.value(),
                _ => return None,
            },
            _ => return None,
        };
        if ln {
            fmt.push('\n');
        }
        let mut pos: Vec<&syn::Expr> = vec![];
        let mut named: HashMap<String, &syn::Expr> = HashMap::new();
        for e in a.iter().skip(1) {
            if let syn::Expr::Assign(x) = e {
                named.insert(norm(&x.left), &x.right);
            } else {
                pos.push(e);
            }
        }
        // pieces
        let mut pieces: Vec<Piece> = vec![];
        let mut lit = String::new();
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        let mut next = 0;
        let flush = |lit: &mut String, pieces: &mut Vec<Piece>| {
            if !lit.is_empty() {
                pieces.push(Piece::Lit(std::mem::take(lit)));
            }
        };
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
                    let body: String = cs[i + 1..j].iter().collect();
                    i = j + 1;
                    let (arg, spec) = body.split_once(':').unwrap_or((&body, ""));
                    let arg = arg.trim();
                    let val = if arg.is_empty() {
                        let e = *pos.get(next)?;
                        next += 1;
                        self.cx.expr(e, self.log)
                    } else if let Ok(k) = arg.parse::<usize>() {
                        self.cx.expr(pos.get(k)?, self.log)
                    } else if let Some(e) = named.get(arg) {
                        self.cx.expr(e, self.log)
                    } else {
                        arg.to_string()
                    };
                    flush(&mut lit, &mut pieces);
                    let spec = spec.trim();
                    if spec.is_empty() {
                        pieces.push(Piece::Show(val));
                    } else if let Some(wd) = spec.strip_prefix('0').and_then(|s| s.parse::<u32>().ok()) {
                        pieces.push(Piece::Zpad(val, wd));
                    } else {
                        return None;
                    }
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        flush(&mut lit, &mut pieces);
        Some(pieces)
    }

    fn path_edit(&mut self, qself: bool, path: &syn::Path) -> bool {
        if qself {
            return false;
        }
        // Self::Assoc
        if path.segments.len() == 2 && path.segments[0].ident == "Self" {
            if let Some(t) = self.cx.assoc.get(&path.segments[1].ident.to_string()) {
                let (lo, hi) = range(path);
                let t = t.clone();
                self.put(lo, hi, t);
                return true;
            }
        }
        let n = norm(path);
        for (a, b) in self.cx.paths.iter().chain(&self.cx.unit.paths) {
            if *a == n {
                let (lo, hi) = range(path);
                self.put(lo, hi, b.clone());
                self.log.rw(&format!("path {a} => {b}"));
                return true;
            }
        }
        if path.segments.len() == 1 && path.segments[0].ident == "self" {
            if let Some(s) = &self.cx.self_name {
                let (lo, hi) = range(path);
                let s = s.clone();
                self.put(lo, hi, s);
                return true;
            }
        }
        false
    }

    fn loop_common(&mut self, e: &syn::Expr, body: &syn::Block) {
        let (lo, hi) = range(e);
        let Some(k) = self.cx.loops.get(&(lo, hi)).copied() else { return };
        let (blo, bhi) = range(body);
        if let Some(l) = self.cx.section(&format!("loop {k}")) {
            self.put(blo, blo, format!("\n{}\n", tab(l)));
        }
        if let Some(l) = self.cx.section(&format!("loopstart {k}")) {
            self.put(blo + 1, blo + 1, format!("\n{}\n", tab(l)));
        }
        if let Some(l) = self.cx.section(&format!("loopend {k}")) {
            self.put(bhi - 1, bhi - 1, format!("\n{}\n", tab(l)));
        }
        if let Some(l) = self.cx.section(&format!("beforeloop {k}")) {
            self.put(lo, lo, format!("\n{}\n", tab(l)));
        }
        if let Some(l) = self.cx.section(&format!("afterloop {k}")) {
            self.put(hi, hi, format!("\n{}\n", tab(l)));
        }
    }

    fn eta(&mut self, e: &syn::Expr) -> bool {
        if let syn::Expr::Path(p) = e {
            if let Some(eta) = self.cx.unit.etas.get(&norm(&p.path)) {
                let (lo, hi) = range(e);
                let args: Vec<String> =
                    eta.tys.iter().enumerate().map(|(i, t)| format!("__x{i}: {t}")).collect();
                let names: Vec<String> = (0..eta.tys.len()).map(|i| format!("__x{i}")).collect();
                let p = &self.cx.src[lo..hi];
                let c = format!("{p}({})", names.join(", "));
                let contract = if eta.fun {
                    let n = names.join(", ");
                    format!("requires call_requires({p}, ({n},)), ensures call_ensures({p}, ({n},), __y),")
                } else {
                    format!("ensures __y == {c},")
                };
                self.put(
                    lo,
                    hi,
                    format!("|{}| -> (__y: {}) {contract} {{ {c} }}", args.join(", "), eta.ret),
                );
                self.log.rw("constructor or function passed as a function eta-expanded");
                return true;
            }
        }
        false
    }
}

impl<'ast> Visit<'ast> for V<'_, '_> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (lo, hi) = range(a);
        self.put(lo, hi, String::new());
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            let r = range(s);
            if let Some((before, after)) = self.cx.anchors.get(&r) {
                if !before.is_empty() {
                    self.put(r.0, r.0, format!("\n{}\n", tab(before)));
                }
                self.visit_stmt(s);
                if !after.is_empty() {
                    self.put(r.1, r.1, format!("\n{}\n", tab(after)));
                }
            } else {
                self.visit_stmt(s);
            }
        }
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if a.guard.is_none() {
            let lets = self.deref(&a.pat);
            if !lets.is_empty() {
                let (lo, hi) = range(&*a.body);
                self.put(lo, lo, format!("{{ {lets}"));
                self.put(hi, hi, " }".into());
                if a.comma.is_none() {
                    self.put(hi, hi, ",".into());
                }
            }
        }
        visit::visit_arm(self, a);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        struct Slices(Vec<(usize, usize, Vec<String>)>);
        impl<'ast> Visit<'ast> for Slices {
            fn visit_pat_slice(&mut self, p: &'ast syn::PatSlice) {
                let (lo, hi) = range(p);
                let names = p.elems.iter().map(|e| match e {
                    syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()),
                    syn::Pat::Wild(_) => Some(String::new()),
                    _ => None,
                });
                if let Some(v) = names.collect::<Option<Vec<_>>>() {
                    self.0.push((lo, hi, v));
                }
            }
        }
        let mut c = Slices(vec![]);
        c.visit_pat(&l.pat);
        let (_, end) = range(l);
        for (lo, hi, names) in c.0 {
            let v = format!("vs_{lo}");
            self.put(lo, hi, v.clone());
            let lets: String = names
                .iter()
                .enumerate()
                .filter(|(_, n)| !n.is_empty())
                .map(|(i, n)| format!(" let {n} = {v}[{i}];"))
                .collect();
            self.put(end, end, lets);
            self.log.rw("let [a, b] = e -> let v = e; let a = v[0]; ..");
        }
        let lets = self.deref(&l.pat);
        if !lets.is_empty() {
            self.put(end, end, format!(" {lets}"));
        }
        visit::visit_local(self, l);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            let r = range(&m.mac);
            if self.mac(&m.mac, r) {
                return;
            }
        }
        if let syn::Stmt::Item(it) = s {
            // local items are kept: constants; functions are not supported
            if let syn::Item::Use(_) = it {
                let (lo, hi) = range(it);
                self.put(lo, hi, String::new());
                return;
            }
            // static X: LazyLock<T> = LazyLock::new(|| e); the value is the same whenever it is made
            if let syn::Item::Static(c) = it {
                if let (syn::Expr::Call(k), syn::Type::Path(t)) = (&*c.expr, &*c.ty) {
                    let lazy = |p: &syn::Path| p.segments.iter().any(|s| s.ident == "LazyLock");
                    if let (syn::Expr::Path(f), Some(syn::Expr::Closure(z))) = (&*k.func, k.args.first()) {
                        if lazy(&f.path) && lazy(&t.path) && z.inputs.is_empty() && matches!(c.mutability, syn::StaticMutability::None) {
                            let (lo, hi) = range(it);
                            let b = self.cx.expr(&z.body, self.log);
                            self.put(lo, hi, format!("#[allow(non_snake_case)] let {} = {b};", c.ident));
                            self.log.rw("local static LazyLock -> let");
                            return;
                        }
                    }
                }
            }
            // the elided lifetime of a constant's type is 'static
            if let syn::Item::Const(c) = it {
                let mut st = Elided(vec![]);
                st.visit_type(&c.ty);
                // a constant of a reference or array type becomes a local of the same name
                if let syn::Type::Reference(_) | syn::Type::Array(_) = &*c.ty {
                    let (lo, hi) = br(c.const_token.span);
                    self.put(lo, hi, "#[allow(non_snake_case)] let".into());
                    self.log.rw("local const of a reference or array type -> let");
                }
                for p in st.0 {
                    self.put(p, p, "'static ".into());
                }
                // a constant that is an enum's discriminant
                if let (syn::Expr::Cast(k), syn::Type::Path(_)) = (&*c.expr, &*c.ty) {
                    if matches!(&*k.expr, syn::Expr::Path(_)) {
                        let (lo, hi) = range(&*c.expr);
                        let e = self.cx.src[lo..hi].to_string();
                        let (clo, chi) = br(c.const_token.span);
                        self.put(clo, chi, "exec const".into());
                        let (elo, _) = br(c.eq_token.span);
                        self.put(elo, hi, format!("ensures {} == ({e}) {{ {e} }}", c.ident));
                        let (slo, shi) = br(c.semi_token.span);
                        self.put(slo, shi, String::new());
                        self.log.rw("local const of an enum's discriminant -> exec const");
                        return;
                    }
                }
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        // rules
        for rule in self.cx.rules.iter().chain(&self.cx.unit.rules) {
            let mut b = Binds::new();
            if mat(&rule.pat, e, &mut b) {
                let mut t = rule.template.clone();
                let mut names: Vec<_> = b.keys().cloned().collect();
                names.sort_by_key(|n| std::cmp::Reverse(n.len()));
                for n in names {
                    let inner = match &b[&n] {
                        Bind::E(e) => self.cx.expr(e, self.log),
                        Bind::T((lo, hi), _) => self.cx.src[*lo..*hi].to_string(),
                    };
                    t = t.replace(&n, &inner);
                }
                while let Some(i) = t.find("@@") {
                    let j = t[i + 2..].find("@@").map_or(t.len(), |j| i + 2 + j);
                    let name = t[i + 2..j].to_string();
                    let sec = self.cx.section(&name).map_or(String::new(), |l| format!("\n{}\n", tab(l)));
                    t = format!("{}{}{}", &t[..i], sec, &t[(j + 2).min(t.len())..]);
                }
                let (lo, hi) = range(e);
                self.put(lo, hi, t);
                let text = rule.text.clone();
                self.log.rw(&format!("rule {text}"));
                return;
            }
        }
        match e {
            // a byte string is an array of bytes
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => {
                let (lo, hi) = range(e);
                let v: Vec<String> = b.value().iter().map(|x| format!("{x}u8")).collect();
                self.put(lo, hi, format!("&[{}]", v.join(", ")));
                self.log.rw("byte string literal -> array of bytes");
                return;
            }
            // a mutable slice of a vector: through the slice of all its elements
            syn::Expr::Reference(syn::ExprReference { mutability: Some(_), expr, .. }) => {
                if let syn::Expr::Index(ix) = &**expr {
                    if let (syn::Expr::Range(_), syn::Expr::Path(_) | syn::Expr::Field(_)) = (&*ix.index, &*ix.expr) {
                        let (_, hi) = range(&*ix.expr);
                        self.put(hi, hi, ".vx_mut()".into());
                        self.log.rw("&mut v[range] -> &mut v.vx_mut()[range]");
                    }
                }
            }
            syn::Expr::Macro(m) => {
                let r = range(e);
                if self.mac(&m.mac, r) {
                    return;
                }
            }
            syn::Expr::Path(p) => {
                if self.path_edit(p.qself.is_some(), &p.path) {
                    return;
                }
            }
            syn::Expr::Struct(s) => {
                if let syn::Member::Named(_) | syn::Member::Unnamed(_) =
                    s.fields.first().map_or(syn::Member::from(0usize), |f| f.member.clone())
                {}
            }
            syn::Expr::While(w) => self.loop_common(e, &w.body),
            syn::Expr::Loop(w) => self.loop_common(e, &w.body),
            syn::Expr::If(i) => {
                if let syn::Expr::Let(l) = &*i.cond {
                    let lets = self.deref(&l.pat);
                    let at = range(&i.then_branch).0 + 1;
                    self.put(at, at, lets);
                }
            }
            syn::Expr::ForLoop(w) => {
                let lets = self.deref(&w.pat);
                let at = range(&w.body).0 + 1;
                self.put(at, at, lets);
                let k = self.cx.loops.get(&range(e)).copied();
                if k.and_then(|k| self.cx.section(&format!("loop {k}"))).is_some_and(|l| l.iter().any(|x| x.contains("vx_it"))) {
                    let at = w.in_token.span.byte_range().end;
                    self.put(at, at, " vx_it: ".into());
                }
                self.loop_common(e, &w.body)
            }
            syn::Expr::MethodCall(m) => {
                self.log.calls.insert(m.method.to_string());
            }
            syn::Expr::Call(c) => {
                let bare = match &*c.func {
                    syn::Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.cx.bare.contains(&i.to_string())),
                    syn::Expr::Paren(p) => matches!(&*p.expr, syn::Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if self.cx.bare_fields.contains(&n.to_string()))),
                    _ => false,
                };
                if bare {
                    let hi = range(&c.func).1;
                    self.put(hi, hi, ".call".into());
                }
                if let syn::Expr::Path(p) = &*c.func {
                    self.log.calls.insert(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            syn::Expr::Closure(c) => {
                let (lo, hi) = range(e);
                if let Some(k) = self.cx.closures.get(&(lo, hi)).copied() {
                    if let Some((hdr, lines)) = self.cx.spec.sections.iter().find_map(|(d, l)| {
                        let r = d.strip_prefix("closure ")?;
                        let (n, r) = r.trim().split_once(char::is_whitespace).unwrap_or((r.trim(), ""));
                        (n == k.to_string()).then(|| (r.trim().to_string(), l.clone()))
                    }) {
                        self.closure(c, &hdr, &lines);
                        return;
                    }
                }
            }
            _ => {}
        }
        if let syn::Expr::MethodCall(m) = e {
            if self.flatten(m, range(e)) {
                return;
            }
        }
        // constructors passed as arguments
        let args = match e {
            syn::Expr::Call(c) => Some(&c.args),
            syn::Expr::MethodCall(c) => Some(&c.args),
            syn::Expr::Tuple(c) => Some(&c.elems),
            _ => None,
        };
        if let Some(args) = args {
            let mut done = vec![];
            for a in args {
                if self.eta(a) {
                    done.push(range(a));
                }
            }
            if !done.is_empty() {
                match e {
                    syn::Expr::Call(c) => {
                        self.visit_expr(&c.func);
                        for a in &c.args {
                            if !done.contains(&range(a)) {
                                self.visit_expr(a);
                            }
                        }
                    }
                    syn::Expr::Tuple(c) => {
                        for a in &c.elems {
                            if !done.contains(&range(a)) {
                                self.visit_expr(a);
                            }
                        }
                    }
                    syn::Expr::MethodCall(c) => {
                        self.visit_expr(&c.receiver);
                        for a in &c.args {
                            if !done.contains(&range(a)) {
                                self.visit_expr(a);
                            }
                        }
                    }
                    _ => {}
                }
                return;
            }
        }
        visit::visit_expr(self, e);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if self.path_edit(false, p) {
            return;
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_struct(&mut self, s: &'ast syn::ExprStruct) {
        visit::visit_expr_struct(self, s);
    }
    fn visit_type_bare_fn(&mut self, t: &'ast syn::TypeBareFn) {
        self.edits.extend(bare_fn(t));
        self.log.rw("function pointer replaced by VxFn");
        visit::visit_type_bare_fn(self, t);
    }
    fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
        if self.path_edit(p.qself.is_some(), &p.path) {
            return;
        }
        visit::visit_type_path(self, p);
    }
}

// `&x` in a pattern: the verifier has no reference patterns; bound as a reference and copied
fn deref_pat(src: &str, p: &syn::Pat) -> (String, String) {
    let (edits, lets) = deref_edits(p);
    let (lo, hi) = range(p);
    (apply(src, lo, hi, edits), lets)
}
fn deref_edits(p: &syn::Pat) -> (Vec<Edit>, String) {
    struct R {
        edits: Vec<Edit>,
        lets: String,
    }
    impl<'ast> Visit<'ast> for R {
        fn visit_pat_reference(&mut self, p: &'ast syn::PatReference) {
            if let syn::Pat::Ident(i) = &*p.pat {
                let (lo, hi) = range(p);
                self.edits.push(Edit { lo, hi, text: format!("__r_{}", i.ident) });
                self.lets.push_str(&format!("let {} = *__r_{}; ", i.ident, i.ident));
            }
        }
    }
    let mut r = R { edits: vec![], lets: String::new() };
    r.visit_pat(p);
    (r.edits, r.lets)
}

impl V<'_, '_> {
    // reference patterns: renames in place, and the copies to be made
    fn deref(&mut self, p: &syn::Pat) -> String {
        let (edits, lets) = deref_edits(p);
        if !edits.is_empty() {
            self.log.rw("&x in a pattern -> a reference, copied");
        }
        for e in edits {
            self.put(e.lo, e.hi, e.text);
        }
        lets
    }
    // a closure given to a method of Option, Result or bool: the method's definition written out
    fn flatten(&mut self, m: &syn::ExprMethodCall, (lo, hi): (usize, usize)) -> bool {
        let Some(cs) = flattens(m) else { return false };
        let sectioned = |c: &syn::Expr| {
            self.cx.closures.get(&range(c)).is_some_and(|k| {
                self.cx.spec.sections.iter().any(|(d, _)| d.strip_prefix("closure ").and_then(|r| r.split_whitespace().next()) == Some(k.to_string().as_str()))
            })
        };
        if cs.iter().any(|c| sectioned(c)) {
            return false;
        }
        // the pattern of the parameter (`_` without), and the body
        let mut part = |e: &syn::Expr, by_ref: bool| -> (String, String) {
            let syn::Expr::Closure(c) = e else { return (String::new(), String::new()) };
            let body = self.cx.expr(&c.body, self.log);
            let Some(p) = c.inputs.first() else { return ("_".into(), body) };
            let p = match p {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            let (pat, lets) = deref_pat(self.cx.src, p);
            if by_ref {
                ("vx_f".into(), format!("{{ let {pat} = &vx_f; {lets}{body} }}"))
            } else {
                (pat, format!("{{ {lets}{body} }}"))
            }
        };
        let name = m.method.to_string();
        let zero = |e: &syn::Expr| matches!(e, syn::Expr::Closure(c) if c.inputs.is_empty());
        let (p, b) = part(cs[cs.len() - 1], matches!(name.as_str(), "filter" | "inspect" | "inspect_err"));
        let first = part(cs[0], false);
        let z = zero(cs[0]);
        let r = self.cx.expr(&m.receiver, self.log);
        let text = match name.as_str() {
            "filter" => format!("(match {r} {{ Some(vx_f) => {{ if {b} {{ Some(vx_f) }} else {{ None }} }} None => None }})"),
            "inspect_err" => format!("(match {r} {{ Ok(vx_o) => Ok(vx_o), Err(vx_f) => {{ {b}; Err(vx_f) }} }})"),
            "inspect" => format!("(match ({r}).vx_open() {{ (vx_o, vx_k) => vx_k.vx_map(match vx_o {{ Ok(vx_f) => {{ {b}; Ok(vx_f) }} Err(vx_e) => Err(vx_e) }}) }})"),
            "is_some_and" => format!("(match {r} {{ Some({p}) => {b}, None => false }})"),
            "is_none_or" => format!("(match {r} {{ Some({p}) => {b}, None => true }})"),
            "is_ok_and" => format!("(match {r} {{ Ok({p}) => {b}, Err(_) => false }})"),
            "is_err_and" => format!("(match {r} {{ Ok(_) => false, Err({p}) => {b} }})"),
            "map_err" => format!("(match {r} {{ Ok(vx_o) => Ok(vx_o), Err({p}) => Err({b}) }})"),
            "map" => format!("(match ({r}).vx_open() {{ (vx_o, vx_k) => vx_k.vx_map(match vx_o {{ Ok({p}) => Ok({b}), Err(vx_e) => Err(vx_e) }}) }})"),
            "and_then" => format!("(match ({r}).vx_open() {{ (vx_o, vx_k) => vx_k.vx_bind(match vx_o {{ Ok({p}) => Ok({b}), Err(vx_e) => Err(vx_e) }}) }})"),
            "or_else" if z => format!("(match {r} {{ Some(vx_o) => Some(vx_o), None => {b} }})"),
            "or_else" => format!("(match {r} {{ Ok(vx_o) => Ok(vx_o), Err({p}) => {b} }})"),
            "unwrap_or_else" if z => format!("(match {r} {{ Some(vx_o) => vx_o, None => {b} }})"),
            "unwrap_or_else" => format!("(match {r} {{ Ok(vx_o) => vx_o, Err({p}) => {b} }})"),
            "ok_or_else" => format!("(match {r} {{ Some(vx_o) => Ok(vx_o), None => Err({b}) }})"),
            "then" => format!("(if {r} {{ Some({b}) }} else {{ None }})"),
            "map_or" => {
                let d = self.cx.expr(&m.args[0], self.log);
                format!("(match (({r}).vx_open(), {d}) {{ ((vx_o, _), vx_d) => match vx_o {{ Ok({p}) => {b}, Err(_) => vx_d }} }})")
            }
            "map_or_else" => format!("(match ({r}).vx_open() {{ (vx_o, _) => match vx_o {{ Ok({p}) => {b}, Err({}) => {} }} }})", first.0, first.1),
            _ => return false,
        };
        self.put(lo, hi, text);
        self.log.rw("closure of an Option, Result or bool method -> written out as a match");
        true
    }
    fn closure(&mut self, c: &syn::ExprClosure, hdr: &str, lines: &[String]) {
        // hdr: (T1, T2) -> (r: R)   ;  `_` types are left out
        let (tys, ret) = match hdr.split_once("->") {
            Some((a, b)) => (a.trim(), b.trim()),
            None => (hdr.trim(), ""),
        };
        let tys = split_top(tys.strip_prefix('(').unwrap_or(tys).strip_suffix(')').unwrap_or(tys));
        if tys.len() != c.inputs.len() {
            self.log.lost.push(format!("closure with {} parameters, expected {}", c.inputs.len(), tys.len()));
            visit::visit_expr_closure(self, c);
            return;
        }
        let mut params = vec![];
        let mut lets = String::new();
        let mut names = vec![];
        for (i, (p, t)) in c.inputs.iter().zip(&tys).enumerate() {
            let (p, own_ty) = match p {
                syn::Pat::Type(pt) => (&*pt.pat, Some(self.cx.src[range(&pt.ty).0..range(&pt.ty).1].to_string())),
                p => (p, None),
            };
            let t = own_ty.unwrap_or_else(|| t.clone());
            match p {
                syn::Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => {
                    params.push(format!("{}: {t}", id.ident));
                    names.push(id.ident.to_string());
                }
                syn::Pat::Wild(_) => {
                    params.push(format!("__p{i}: {t}"));
                    names.push(format!("__p{i}"));
                }
                p => {
                    let (pat, copies) = deref_pat(self.cx.src, p);
                    params.push(format!("__p{i}: {t}"));
                    lets.push_str(&format!("let {pat} = __p{i}; {copies}"));
                    names.push(format!("__p{i}"));
                }
            }
        }
        // contract, then (after a `---` line) proof text at the start of the body
        let mut spec = tab(lines);
        for (i, n) in names.iter().enumerate() {
            spec = spec.replace(&format!("${i}"), n);
        }
        let (spec, start) = spec.split_once("---").map_or((spec.clone(), String::new()), |(a, b)| (a.to_string(), b.to_string()));
        let (lo, hi) = range(c);
        let body = self.cx.expr(&c.body, self.log);
        let mv = if c.capture.is_some() { "move " } else { "" };
        let ret = if ret.is_empty() { String::new() } else { format!(" -> {ret}") };
        self.put(lo, hi, format!("{mv}|{}|{ret}\n{spec}\n{{ {lets}{start}{body} }}", params.join(", ")));
        self.log.rw("closure parameters typed, contract added");
    }
}

/// The closures of a method call of Option, Result or bool that can be written out as a match: their
/// bodies must not leave them (`?`, `return`), since that would leave the function then.
fn flattens(m: &syn::ExprMethodCall) -> Option<Vec<&syn::Expr>> {
    struct Leaves(bool);
    impl<'ast> Visit<'ast> for Leaves {
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'ast syn::Item) {}
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
    }
    let a: Vec<&syn::Expr> = m.args.iter().collect();
    let n = |e: &syn::Expr| match e {
        syn::Expr::Closure(c) if c.asyncness.is_none() && c.constness.is_none() => {
            let mut l = Leaves(false);
            l.visit_expr(&c.body);
            (!l.0).then_some(c.inputs.len())
        }
        _ => None,
    };
    if m.turbofish.is_some() {
        return None;
    }
    let name = m.method.to_string();
    match (name.as_str(), a.as_slice()) {
        ("inspect" | "inspect_err" | "filter" | "is_some_and" | "is_none_or" | "is_ok_and" | "is_err_and" | "map_err" | "map" | "and_then", [c]) if n(c) == Some(1) => Some(vec![*c]),
        ("or_else" | "unwrap_or_else", [c]) if n(c).is_some_and(|k| k <= 1) => Some(vec![*c]),
        ("ok_or_else" | "then", [c]) if n(c) == Some(0) => Some(vec![*c]),
        ("map_or", [_, c]) if n(c) == Some(1) => Some(vec![*c]),
        ("map_or_else", [d, c]) if n(d).is_some_and(|k| k <= 1) && n(c) == Some(1) => Some(vec![*d, *c]),
        _ => None,
    }
}
// Which closure of the contract each closure of the function is: by its place in the sequence of what they are
// arguments of (longest common subsequence); those the contract knows nothing of get numbers of their own.
fn places(base: &serde_json::Value, cur: &[String]) -> Vec<usize> {
    let Some(old) = base.as_array().map(|a| a.iter().filter_map(|s| s.as_str()).collect::<Vec<_>>()) else {
        return (0..cur.len()).collect();
    };
    if old.len() == cur.len() {
        return (0..cur.len()).collect();
    }
    let (n, m) = (old.len(), cur.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if old[i] == cur[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let mut out: Vec<usize> = (0..m).map(|j| 1000 + j).collect();
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        if old[i] == cur[j] && t[i][j] == t[i + 1][j + 1] + 1 {
            out[j] = i;
            i += 1;
            j += 1;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    out
}

// numbering of loops and closures
struct Number {
    loops: Vec<((usize, usize), String)>,
    closures: Vec<(usize, usize)>,
    // what each closure is an argument of
    cwhere: Vec<String>,
    parents: HashMap<(usize, usize), String>,
    // method calls whose closures can be written out, with these closures
    flat: Vec<((usize, usize), Vec<(usize, usize)>, String)>,
    // names of what is called: what the contract was written for (check.py compares)
    calls: BTreeSet<String>,
    methods: Vec<((usize, usize), String)>,
    // names bound by patterns, in order, and those of each closure's parameters
    binds: Vec<String>,
    cbinds: Vec<Vec<String>>,
}
// `Struct { name, .. }`: a variable that is a field name as well
struct Shorthands(Vec<String>);
impl<'ast> Visit<'ast> for Shorthands {
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if f.colon_token.is_none() {
            self.0.push(norm(&f.member));
        }
        visit::visit_field_value(self, f);
    }
}
struct Binders(Vec<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with(|c: char| c.is_ascii_uppercase()) {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}
fn binders(sig: &syn::Signature, block: &syn::Block) -> Vec<String> {
    let mut b = Binders(vec![]);
    b.visit_signature(sig);
    b.visit_block(block);
    b.0
}
// The contract talks about parameters and local variables by the names they had when it was
// written: when only names differ, say what each is called now.
fn renaming(old: &[String], new: &[String], all: &[String]) -> Vec<(String, String)> {
    let mut m: Vec<(String, String)> = vec![];
    let apart = old.iter().zip(new).filter(|(o, n)| o != n).count();
    if old.len() == new.len() && (apart <= 2 || 2 * apart <= old.len()) {
        for (o, n) in old.iter().zip(new) {
            if o != n && !all.contains(o) && !m.iter().any(|(x, _)| x == o) {
                m.push((o.clone(), n.clone()));
            }
        }
    }
    m
}
fn rename(s: &str, m: &[(String, String)]) -> String {
    let mut o = String::new();
    let mut it = s.char_indices().peekable();
    let id = |c: char| c.is_alphanumeric() || c == '_';
    while let Some((i, c)) = it.next() {
        if !id(c) {
            o.push(c);
            continue;
        }
        let mut e = i + c.len_utf8();
        while let Some((j, d)) = it.peek().copied() {
            if !id(d) {
                break;
            }
            e = j + d.len_utf8();
            it.next();
        }
        let w = &s[i..e];
        let member = o.ends_with('.') && !o.ends_with("..") || o.ends_with("::");
        match m.iter().find(|(x, _)| x == w) {
            Some((_, n)) if !member && !s[e..].starts_with("::") => o.push_str(n),
            _ => o.push_str(w),
        }
    }
    o
}
fn renamed(f: &FnSpec, base: &serde_json::Value, num: &Number, place: &[usize]) -> (FnSpec, Vec<String>) {
    let list = |v: &serde_json::Value| -> Vec<String> {
        v.as_array().map_or(vec![], |a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect())
    };
    let all = renaming(&list(&base["binds"]), &num.binds, &num.binds);
    let mut g = f.clone();
    let mut told: Vec<String> = all.iter().map(|(o, n)| format!("{o} is called {n}")).collect();
    for (d, lines) in &mut g.sections {
        let mut m = all.clone();
        if let Some(k) = d.strip_prefix("closure ").and_then(|r| r.split_whitespace().next()).and_then(|k| k.parse::<usize>().ok()) {
            if let Some(new) = place.iter().position(|p| *p == k).and_then(|i| num.cbinds.get(i)) {
                let of = renaming(&list(&base["cbinds"][k]), new, new);
                m.retain(|(o, _)| !of.iter().any(|(x, _)| x == o));
                told.extend(of.iter().map(|(o, n)| format!("{o} is called {n}")));
                m.extend(of);
            }
        }
        if m.is_empty() {
            continue;
        }
        if d.contains(" : ") {
            *d = rename(d, &m);
        }
        for l in lines.iter_mut() {
            *l = rename(l, &m);
        }
    }
    told.sort();
    told.dedup();
    (g, told)
}
impl<'ast> Visit<'ast> for Number {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::While(w) => self.loops.push((range(e), format!("while {}", norm(&w.cond)))),
            syn::Expr::Loop(_) => self.loops.push((range(e), "loop".into())),
            syn::Expr::ForLoop(f) => {
                self.loops.push((range(e), format!("for {} in {}", norm(&f.pat), norm(&f.expr))))
            }
            syn::Expr::Closure(c) => {
                self.closures.push(range(e));
                let mut b = Binders(vec![]);
                c.inputs.iter().for_each(|p| b.visit_pat(p));
                self.cbinds.push(b.0);
                self.cwhere.push(format!("{}/{}", self.parents.get(&range(e)).cloned().unwrap_or_default(), c.inputs.len()));
            }
            syn::Expr::MethodCall(m) => {
                self.methods.push((range(e), m.method.to_string()));
                for a in &m.args {
                    self.parents.insert(range(a), format!(".{}", m.method));
                }
                if let Some(cs) = flattens(m) {
                    self.flat.push((range(e), cs.iter().map(|c| range(*c)).collect(), m.method.to_string()));
                }
            }
            // called, or passed as a function
            syn::Expr::Path(p) if p.path.segments.len() > 1 => {
                let s: Vec<_> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                self.calls.insert(s[s.len() - 2..].join("::"));
            }
            syn::Expr::Call(c) => {
                for a in &c.args {
                    self.parents.insert(range(a), norm(&c.func));
                }
                if let syn::Expr::Path(p) = &*c.func {
                    if p.path.segments.len() == 1 {
                        self.calls.insert(p.path.segments[0].ident.to_string());
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

// statements containing the k-th call of a name
struct CallStmts<'a> {
    name: &'a str,
    stack: Vec<(usize, usize)>,
    found: Vec<(usize, usize)>,
}
impl<'ast> Visit<'ast> for CallStmts<'_> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            self.stack.push(range(s));
            self.visit_stmt(s);
            self.stack.pop();
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let hit = match e {
            syn::Expr::MethodCall(m) => m.method == self.name,
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => p.path.segments.last().unwrap().ident == self.name,
                _ => false,
            },
            syn::Expr::Assign(a) => format!("={}", norm(&a.left)) == self.name,
            syn::Expr::Binary(a) => format!("{}{}", norm(&a.op), norm(&a.left)) == self.name,
            syn::Expr::Return(_) => self.name == "return",
            _ => false,
        };
        if hit {
            if let Some(s) = self.stack.last() {
                self.found.push(*s);
            }
        }
        visit::visit_expr(self, e);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if format!("let {}", norm(&l.pat)) == self.name || self.name.strip_prefix("let ").is_some_and(|n| {
            let p = match &l.pat { syn::Pat::Type(t) => &t.pat, p => p };
            norm(p).trim_start_matches("mut ") == n
        }) {
            if let Some(s) = self.stack.last() {
                self.found.push(*s);
            }
        }
        visit::visit_local(self, l);
    }
}

struct Out {
    text: String,
    line: usize,
}
impl Out {
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        self.line += s.matches('\n').count();
    }
}

fn where_with(im: &syn::ItemImpl, src: &str) -> String {
    im.generics.where_clause.as_ref().map_or(String::new(), |w| {
        let (lo, hi) = range(w);
        format!(" {}", &src[lo..hi])
    })
}

fn emit_fn(
    src: &Src,
    unit: &Unit,
    f: &FnSpec,
    found: &Found,
    stub: bool,
    canary: bool,
    base: &serde_json::Value,
    out: &mut Out,
) -> serde_json::Value {
    let mut log = Log::default();
    let text = &src.text;
    let block = found.block.unwrap_or_else(|| die(format!("{} has no body", f.key)));
    let mut num = Number {
        loops: vec![],
        closures: vec![],
        cwhere: vec![],
        parents: HashMap::new(),
        flat: vec![],
        calls: BTreeSet::new(),
        methods: vec![],
        binds: binders(found.sig, block),
        cbinds: vec![],
    };
    num.visit_block(block);
    let place = places(&base["cwhere"], &num.cwhere);
    let (f, renames) = &renamed(f, base, &num, &place);
    // closures written out in place: those of Option, Result and bool methods without a contract of their own
    let sectioned: BTreeSet<usize> = f
        .sections
        .iter()
        .filter_map(|(d, _)| d.strip_prefix("closure ")?.split_whitespace().next()?.parse().ok())
        .collect();
    let numbered: HashMap<(usize, usize), usize> = num.closures.iter().zip(&place).map(|(r, k)| (*r, *k)).collect();
    num.flat.retain(|(_, cs, _)| !cs.iter().any(|c| numbered.get(c).is_some_and(|k| sectioned.contains(k))));
    let flat: BTreeSet<(usize, usize)> = num.flat.iter().flat_map(|f| f.1.iter().copied()).collect();
    for (r, n) in &num.methods {
        if !num.flat.iter().any(|f| f.0 == *r && f.2 == *n) {
            num.calls.insert(n.clone());
        }
    }
    num.calls.retain(|n| !num.binds.contains(n));
    let mut assoc = HashMap::new();
    if let Some(im) = found.imp {
        if !f.opts.contains_key("traitimpl") {
            for it in &im.items {
                if let syn::ImplItem::Type(t) = it {
                    let (lo, hi) = range(&t.ty);
                    assoc.insert(t.ident.to_string(), text[lo..hi].to_string());
                }
            }
        }
    }
    let free = f.opts.get("free").cloned();
    let mut cx = Ctx {
        src: text,
        unit,
        spec: f,
        assoc,
        self_name: free.as_ref().map(|_| "self_".to_string()),
        bare: found
            .sig
            .inputs
            .iter()
            .filter_map(|i| match i {
                syn::FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                    (syn::Pat::Ident(p), syn::Type::BareFn(_)) => Some(p.ident.to_string()),
                    _ => None,
                },
                _ => None,
            })
            .collect(),
        bare_fields: bare_fields(&src.ast),
        loops: num.loops.iter().enumerate().map(|(i, l)| (l.0, i)).collect(),
        closures: numbered,
        loop_headers: num.loops.iter().map(|l| l.1.clone()).collect(),
        anchors: HashMap::new(),
        rules: f.opts.get("rule").map_or(vec![], |t| t.lines().map(parse_rule).collect()),
        paths: f.opts.get("path").map_or(vec![], |t| t.lines().map(parse_path).collect()),
    };
    // anchors
    let mut changed_loops: Vec<String> = vec![];
    for (d, lines) in &f.sections {
        let w: Vec<&str> = d.split_whitespace().collect();
        match w[0] {
            "loop" | "loopstart" | "loopend" | "beforeloop" | "afterloop" => {
                let Ok(k) = w[1].parse::<usize>() else { continue };
                if k >= cx.loop_headers.len() {
                    log.lost.push(d.clone());
                } else if let Some((_, h)) = d.split_once(" : ") {
                    let (kw, rest) = h.trim().split_once(' ').unwrap_or((h.trim(), ""));
                    let want = match kw {
                        "for" => {
                            let (a, b) = rest.split_once(" in ").unwrap_or((rest, ""));
                            format!("for {} in {}", norm_str(a), norm_str(b))
                        }
                        "while" => format!("while {}", norm_str(rest)),
                        k => k.to_string(),
                    };
                    if want != cx.loop_headers[k] {
                        changed_loops.push(format!("loop {k}: `{}` (contract written for `{want}`)", cx.loop_headers[k]));
                    }
                }
            }
            "closure" => {
                let k: usize = w[1].parse().unwrap_or_else(|_| die(format!("{}: {d}", f.key)));
                if !place.contains(&k) {
                    log.lost.push(d.clone());
                }
            }
            "before" | "after" => {
                let arg = d[w[0].len()..].trim();
                let (name, k) = arg.rsplit_once(' ').unwrap_or((arg, "0"));
                let (name, k) = match k.parse::<usize>() {
                    Ok(k) => (name.to_string(), k),
                    Err(_) => (arg.to_string(), 0),
                };
                let mut c = CallStmts { name: name.trim(), stack: vec![], found: vec![] };
                c.visit_block(block);
                match c.found.get(k) {
                    None => log.lost.push(d.clone()),
                    Some(r) => {
                        let e = cx.anchors.entry(*r).or_default();
                        if w[0] == "before" {
                            e.0.extend(lines.iter().cloned());
                        } else {
                            e.1.extend(lines.iter().cloned());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let nloops = f.sections.iter().filter(|(d, _)| d.strip_prefix("loop ").is_some_and(|r| r.starts_with(|c: char| c.is_ascii_digit()))).count();
    if nloops != cx.loop_headers.len() {
        changed_loops.push(format!("{} loops, contract written for {nloops}", cx.loop_headers.len()));
    }

    // signature
    let sig = found.sig;
    let mut edits = vec![];
    // parameters that are patterns
    let mut patterns = String::new();
    {
        let mut v = V { cx: &cx, edits: vec![], log: &mut log };
        for (k, i) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = i {
                v.visit_type(&t.ty);
                if !matches!(&*t.pat, syn::Pat::Ident(_)) {
                    let (lo, hi) = range(&*t.pat);
                    v.put(lo, hi, format!("vx_p{k}"));
                    if !matches!(&*t.pat, syn::Pat::Wild(_)) {
                        patterns.push_str(&format!("let {} = vx_p{k}; ", &text[lo..hi]));
                    }
                }
            }
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            v.visit_type(t);
        }
        for p in &sig.generics.params {
            v.visit_generic_param(p);
        }
        if let Some(w) = &sig.generics.where_clause {
            v.visit_where_clause(w);
        }
        edits.append(&mut v.edits);
    }
    // `@opt lt=a`: the elided lifetime of the signature gets a name (to be used by the contracts)
    if let Some(lt) = f.opts.get("lt") {
        struct Lt<'b> {
            lt: &'b str,
            edits: Vec<Edit>,
        }
        impl<'b, 'ast> Visit<'ast> for Lt<'b> {
            fn visit_type_reference(&mut self, r: &'ast syn::TypeReference) {
                if r.lifetime.is_none() {
                    let (lo, hi) = br(r.and_token.span());
                    self.edits.push(Edit { lo, hi, text: format!("&'{} ", self.lt) });
                }
                visit::visit_type_reference(self, r);
            }
            fn visit_lifetime(&mut self, l: &'ast syn::Lifetime) {
                if l.ident == "_" {
                    let (lo, hi) = range(l);
                    self.edits.push(Edit { lo, hi, text: format!("'{}", self.lt) });
                }
            }
        }
        let mut v = Lt { lt, edits: vec![] };
        for i in &sig.inputs {
            if let syn::FnArg::Typed(t) = i {
                v.visit_type(&t.ty);
            }
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            v.visit_type(t);
        }
        edits.append(&mut v.edits);
    }
    // `@opt uncurry`: the function returns a closure; its parameters become further parameters
    let closure = match (f.opts.contains_key("uncurry"), block.stmts.last()) {
        (true, Some(syn::Stmt::Expr(syn::Expr::Closure(c), None))) => Some(c),
        (true, _) => {
            log.lost.push("uncurry".into());
            None
        }
        _ => None,
    };
    let mut inputs: Vec<String> = sig
        .inputs
        .iter()
        .map(|i| {
            let (lo, hi) = range(i);
            match i {
                syn::FnArg::Receiver(_) if free.is_some() && f.opts.contains_key("selfty") => format!("self_: {}", f.opts["selfty"]),
                syn::FnArg::Receiver(r) if free.is_some() => match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "self_: &mut Self_".to_string(),
                    (Some(_), None) => "self_: &Self_".to_string(),
                    (None, Some(_)) => "mut self_: Self_".to_string(),
                    (None, None) => "self_: Self_".to_string(),
                },
                _ => {
                    let e: Vec<Edit> = edits.iter().filter(|e| e.lo >= lo && e.hi <= hi).cloned().collect();
                    apply(text, lo, hi, e)
                }
            }
        })
        .collect();
    let mut opened = String::new();
    if let Some(c) = closure {
        for (k, p) in c.inputs.iter().enumerate() {
            if let syn::Pat::Type(t) = p {
                let mut v = V { cx: &cx, edits: vec![], log: &mut log };
                v.visit_type(&t.ty);
                let ed = std::mem::take(&mut v.edits);
                let ((lo, hi), (a, b)) = (range(&*t.ty), range(&*t.pat));
                inputs.push(format!("__c{k}: {}", apply(text, lo, hi, ed)));
                opened.push_str(&format!("let {} = __c{k}; ", &text[a..b]));
            } else {
                log.lost.push("uncurry: parameter without a type".into());
            }
        }
        log.rw("returned closure -> its parameters are parameters of the function");
    }
    let mut generics: Vec<String> = sig
        .generics
        .params
        .iter()
        .map(|p| {
            let (lo, hi) = range(p);
            let e: Vec<Edit> = edits.iter().filter(|e| e.lo >= lo && e.hi <= hi).cloned().collect();
            apply(text, lo, hi, e)
        })
        .collect();
    if let Some(g) = f.opts.get("generics") {
        generics = split_top(g);
    }
    if let Some(lt) = f.opts.get("lt") {
        generics.insert(0, format!("'{lt}"));
    }
    if let (Some(b), false) = (&free, f.opts.contains_key("selfty")) {
        generics.push(format!("Self_: {b}"));
    }
    let gens = if generics.is_empty() { String::new() } else { format!("<{}>", generics.join(", ")) };
    let wh = sig.generics.where_clause.as_ref().filter(|_| !f.opts.contains_key("generics")).map_or(String::new(), |w| {
        let (lo, hi) = range(w);
        let e: Vec<Edit> = edits.iter().filter(|e| e.lo >= lo && e.hi <= hi).cloned().collect();
        format!("\n{}", apply(text, lo, hi, e))
    });
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(..) if f.opts.contains_key("retty") => {
            let t = &f.opts["retty"];
            match &f.ret {
                Some(r) => format!(" -> ({r}: {t})"),
                None => format!(" -> {t}"),
            }
        }
        syn::ReturnType::Type(_, t) => {
            let (lo, hi) = range(&**t);
            let e: Vec<Edit> = edits.iter().filter(|e| e.lo >= lo && e.hi <= hi).cloned().collect();
            let t = apply(text, lo, hi, e);
            match &f.ret {
                Some(r) => format!(" -> ({r}: {t})"),
                None => format!(" -> {t}"),
            }
        }
    };
    let name = f.opts.get("name").cloned().unwrap_or_else(|| sig.ident.to_string());
    let spec = cx.section("spec").map_or(String::new(), |l| format!("\n{}\n", tab(l)));
    // body
    let (blo, bhi) = range(block);
    let body = {
        let mut v = V { cx: &cx, edits: vec![], log: &mut log };
        let mut at_start = cx.section("start").map_or(String::new(), |l| format!("\n{}\n", tab(l)));
        if canary {
            at_start.push_str("\n    proof { assert(false); }\n");
        }
        if !patterns.is_empty() {
            at_start = format!("\n    {patterns}\n{at_start}");
        }
        if !at_start.is_empty() {
            v.put(blo + 1, blo + 1, at_start);
        }
        if let Some(c) = closure {
            for s in &block.stmts[..block.stmts.len() - 1] {
                v.visit_stmt(s);
            }
            let ((a, _), (b, _)) = (range(c), range(&*c.body));
            v.put(a, b, opened);
            v.visit_expr(&c.body);
        } else {
            v.visit_block(block);
        }
        if let Some(l) = cx.section("end") {
            v.put(bhi - 1, bhi - 1, format!("\n{}\n", tab(l)));
        }
        let ed = std::mem::take(&mut v.edits);
        apply(text, blo, bhi, ed)
    };
    let mut o = String::new();
    let indent_close;
    if let (Some(im), None) = (found.imp, &free) {
        let hdr = f.opts.get("impl").cloned().unwrap_or_else(|| {
            let g = {
                let ps: Vec<String> = im
                    .generics
                    .params
                    .iter()
                    .map(|p| {
                        let (lo, hi) = range(p);
                        text[lo..hi].to_string()
                    })
                    .collect();
                if ps.is_empty() { String::new() } else { format!("<{}>", ps.join(", ")) }
            };
            let (tlo, thi) = range(&*im.self_ty);
            let ty = &text[tlo..thi];
            if f.opts.contains_key("traitimpl") {
                let (a, b) = range(&im.trait_.as_ref().unwrap().1);
                format!("impl{g} {} for {ty}{}", &text[a..b], where_with(im, text))
            } else {
                format!("impl{g} {ty}{}", where_with(im, text))
            }
        });
        o.push_str(&hdr);
        o.push_str(" {\n");
        if f.opts.contains_key("traitimpl") {
            for it in im.items.iter().filter(|_| !f.opts.contains_key("notypes")) {
                if let syn::ImplItem::Type(t) = it {
                    let (lo, hi) = range(t);
                    o.push_str(&text[lo..hi]);
                    o.push('\n');
                }
            }
            if let Some(x) = f.opts.get("implextra") {
                o.push_str(x);
                o.push('\n');
            }
        }
        indent_close = "}\n";
    } else {
        indent_close = "";
    }
    if stub {
        o.push_str("#[verifier::external_body]\n");
    }
    if let Some(a) = f.opts.get("attr") {
        o.push_str(a);
        o.push('\n');
    }
    let vis = if f.opts.contains_key("traitimpl") { "" } else { "pub " };
    o.push_str(&format!("{vis}fn {name}{gens}({}){ret}{wh}{spec}", inputs.join(", ")));
    if stub {
        o.push_str("{ unimplemented!() }\n");
    } else {
        o.push_str(&body);
        o.push('\n');
    }
    o.push_str(indent_close);
    let start = out.line;
    out.push(&o);
    let l0 = sig.span().start().line;
    let l1 = block.span().end().line;
    json!({
        "key": format!("{}#{}", f.file, f.key), "file": f.file, "name": f.key, "props": f.props,
        "src_lines": [l0, l1], "out_lines": [start, out.line], "stub": stub, "assumed": f.opts.contains_key("assumed"),
        "names": num.calls, "closures": num.closures.iter().filter(|c| !flat.contains(c)).count(), "cwhere": num.cwhere, "binds": num.binds, "cbinds": num.cbinds, "renames": renames,
        "lost": log.lost, "changed_loops": changed_loops, "rewrites": log.rewrites,
        "calls": log.calls, "vname": free.as_ref().map(|_| name.clone()),
    })
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut unit_file = None;
    let (mut repo, mut outp, mut mapp) = ("/repo".to_string(), None, None);
    let mut stubs = BTreeSet::new();
    let mut dump = None;
    let mut canary = false;
    let mut basep = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => repo = args.next().unwrap(),
            "--out" => outp = args.next(),
            "--map" => mapp = args.next(),
            "--stub" => {
                stubs.insert(args.next().unwrap());
            }
            "--canary" => canary = true,
            "--base" => basep = args.next(),
            "--list" => dump = args.next(),
            _ => unit_file = Some(a),
        }
    }
    if let Some(f) = dump {
        let ast = syn::parse_file(&fs::read_to_string(&f).unwrap()).unwrap();
        for (_, k) in all_fns(&ast) {
            println!("{k}");
        }
        return;
    }
    let unit_file = unit_file.unwrap_or_else(|| die("no unit".into()));
    let mut unit = Unit::default();
    read_unit(Path::new(&unit_file), &mut unit, &mut BTreeSet::new());
    let base: serde_json::Value = basep
        .and_then(|p| serde_json::from_str(&fs::read_to_string(p).unwrap_or_default()).ok())
        .unwrap_or_default();
    let crate_base = &base["__crate__"];
    let base = &base[Path::new(&unit_file).file_stem().map_or(String::new(), |s| s.to_string_lossy().into_owned())];

    let mut srcs: HashMap<String, Result<Src, String>> = HashMap::new();
    let mut need = BTreeSet::new();
    for it in &unit.items {
        match it {
            Item::Type { file, .. } | Item::Const { file, .. } => {
                need.insert(file.clone());
            }
            Item::Fn(f) => {
                need.insert(f.file.clone());
            }
            Item::Raw(_) => {}
        }
    }
    let mut inlined = vec![];
    let mut texts: Map<String, Result<String, String>> = Map::new();
    for f in need {
        let p = match f.strip_prefix("cargo:") {
            Some(r) => cargo_src(&repo, r).unwrap_or_default(),
            None => Path::new(&repo).join(&f),
        };
        let r = fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(expand_macros);
        texts.insert(f, r);
    }
    // items that only changed their names get the names the contracts know them by
    let mut back: Vec<String> = vec![];
    for _ in 0..20 {
        let m = texts.iter().find_map(|(f, t)| renamed_item(&syn::parse_file(t.as_ref().ok()?).ok()?, &base["__files__"][f]));
        let Some((old, new)) = m else { break };
        for (f, t) in &mut texts {
            if let (false, Ok(t)) = (f.starts_with("cargo:"), t) {
                *t = replace_word(t, &new, &old);
            }
        }
        back.push(format!("{old} is called {new}"));
    }
    let mut odd: HashMap<String, Vec<(String, String)>> = HashMap::new();
    for (f, t) in texts {
        let r = t
            .and_then(|t| {
                let (t, o) = follow_imports(t, &f, &crate_base[&f], &unit.aliases)?;
                odd.insert(f.clone(), o);
                Ok(t)
            })
            .and_then(|t| inline_new(t, &base["__files__"][&f], &mut inlined))
            .and_then(|t| match syn::parse_file(&t) {
                Ok(ast) => Ok(Src { text: t, ast }),
                Err(e) => Err(e.to_string()),
            });
        srcs.insert(f, r);
    }
    let mut out = Out { text: String::new(), line: 1 };
    let mut fns = vec![];
    let mut lost: Vec<String> = vec![];
    let mut contracted: BTreeSet<(String, String)> = BTreeSet::new();
    for it in &unit.items {
        match it {
            Item::Raw(t) => out.push(t),
            Item::Type { file, name, opts } => {
                let src = match &srcs[file] {
                    Ok(s) => s,
                    Err(e) => {
                        lost.push(format!("{file}: {e}"));
                        continue;
                    }
                };
                match emit_type(src, name, opts, &unit) {
                    Some(t) => out.push(&t),
                    None => lost.push(format!("{file}: type {name} not found")),
                }
            }
            Item::Const { file, name, opts } => {
                let src = match &srcs[file] {
                    Ok(s) => s,
                    Err(e) => {
                        lost.push(format!("{file}: {e}"));
                        continue;
                    }
                };
                match emit_const(src, name, opts, &unit) {
                    Some(t) => out.push(&t),
                    None => lost.push(format!("{file}: const {name} not found")),
                }
            }
            Item::Fn(f) => {
                let src = match &srcs[&f.file] {
                    Ok(s) => s,
                    Err(e) => {
                        lost.push(format!("{}: {e}", f.file));
                        continue;
                    }
                };
                let mut found = find_fn(&src.ast, &f.key);
                if let Some(k) = f.opts.get("nth").and_then(|k| k.parse::<usize>().ok()) {
                    found = found.into_iter().skip(k).take(1).collect();
                }
                if found.len() != 1 {
                    lost.push(format!("{}: function {} found {} times", f.file, f.key, found.len()));
                    continue;
                }
                let found = found.pop().unwrap();
                contracted.insert((f.file.clone(), f.key.clone()));
                let stub = f.opts.contains_key("assumed") || stubs.contains(&format!("{}#{}", f.file, f.key));
                let fb = &base[format!("{}#{}", f.file, f.key)];
                let mut j = emit_fn(src, &unit, f, &found, stub, canary, fb, &mut out);
                // names that mean something else here than when the contract was written
                let mut imps: Vec<String> = vec![];
                let word = |n: &str| found.block.is_some_and(|b| {
                    let (lo, hi) = range(b);
                    let (a, z) = range(found.sig);
                    replace_word(&src.text[lo..hi], n, "") != src.text[lo..hi] || replace_word(&src.text[a..z], n, "") != src.text[a..z]
                });
                for (n, p) in odd.get(&f.file).into_iter().flatten() {
                    if word(n) {
                        imps.push(format!("{n} is {p}"));
                    }
                }
                let file = import_names(&crate_base[&f.file]);
                if let Some(b) = found.block {
                    let l = local_uses(b, &f.file);
                    let told = import_names(&fb["uses"]);
                    for (n, p) in &l.names {
                        if told.get(n).or(file.get(n)) != Some(p) {
                            imps.push(format!("{n} is {p}"));
                        }
                    }
                    let known: BTreeSet<String> = fb["uses"]["unnamed"].as_array().into_iter().flatten().filter_map(|s| s.as_str().map(String::from)).collect();
                    imps.extend(l.unnamed.iter().filter(|u| !known.contains(*u)).map(|u| format!("use {u}")));
                    j["uses"] = json!({ "names": l.names, "unnamed": l.unnamed });
                }
                if fb.is_null() {
                    imps.clear();
                }
                j["imports"] = json!(imps);
                fns.push(j);
                out.push("\n");
            }
        }
    }
    // functions of the same files that are called but not under contract
    let mut uncontracted: Map<String, Vec<String>> = Map::new();
    for (file, s) in &srcs {
        if let Ok(s) = s {
            for (_name, key) in all_fns(&s.ast) {
                if !contracted.iter().any(|(f, k)| f == file && norm_key(k) == norm_key(&key)) {
                    uncontracted.entry(file.clone()).or_default().push(key);
                }
            }
        }
    }
    let files: Map<String, serde_json::Value> = srcs
        .iter()
        .filter_map(|(f, s)| {
            let s = s.as_ref().ok()?;
            (!f.starts_with("cargo:")).then(|| (f.clone(), file_facts(&s.ast)))
        })
        .collect();
    // changes elsewhere that could give the same text another meaning
    let crate_now = if f_is_repo(&repo) { crate_facts(Path::new(&repo)) } else { Map::new() };
    let mut notes = vec![];
    if !crate_base.is_null() {
        for (f, now) in &crate_now {
            let was = &crate_base[f];
            let set = |v: &serde_json::Value| -> BTreeSet<String> { v.as_array().into_iter().flatten().filter_map(|s| s.as_str().map(String::from)).collect() };
            for x in set(&now["unnamed"]).symmetric_difference(&set(&was["unnamed"])) {
                if srcs.contains_key(f) || x.ends_with('*') {
                    notes.push(format!("{f}: use {x}"));
                }
            }
            let before = set(&was["fns"]);
            for x in set(&now["fns"]) {
                // trait implementations, and methods that hide one of the same name
                let last = x.rsplit("::").next().unwrap_or("");
                let hides = || x.contains("::") && crate_base.as_object().into_iter().flatten().any(|(_, c)| set(&c["fns"]).iter().any(|k| k.starts_with('<') && k.rsplit("::").next() == Some(last)));
                let gone = srcs.get(f).and_then(|s| s.as_ref().ok()).is_some_and(|s| !all_fns(&s.ast).iter().any(|k| norm_key(&k.1) == norm_key(&x)));
                if !before.contains(&x) && !gone && (x.starts_with('<') || hides()) {
                    notes.push(format!("{f}: new {x}"));
                }
            }
            if now["cfg"] != was["cfg"] && !(was.is_null() && now["cfg"] == 0) {
                notes.push(format!("{f}: conditional compilation"));
            }
            if !srcs.contains_key(f) {
                let now = import_names(now);
                for (n, p) in import_names(was) {
                    if now.get(&n).is_some_and(|q| *q != p) {
                        notes.push(format!("{f}: {n} is {}", now[&n]));
                    }
                }
            }
        }
    }
    let m = json!({ "crate": crate_now, "notes": notes, "functions": fns, "lost": lost, "uncontracted": uncontracted, "files": files, "inlined": inlined, "renamed": back });
    if let Some(o) = outp {
        fs::write(o, &out.text).unwrap();
    } else {
        print!("{}", out.text);
    }
    if let Some(o) = mapp {
        fs::write(o, serde_json::to_string_pretty(&m).unwrap()).unwrap();
    }
}

fn f_is_repo(repo: &str) -> bool {
    Path::new(repo).join("src").is_dir()
}

/// `NAME/src/..`: a file of a dependency, in the version of Cargo.lock
fn cargo_src(repo: &str, rest: &str) -> Option<PathBuf> {
    let (name, file) = rest.split_once('/')?;
    let lock = fs::read_to_string(Path::new(repo).join("Cargo.lock")).ok()?;
    let at = lock.find(&format!("name = \"{name}\"\nversion = \""))?;
    let version = lock[at..].split('"').nth(3)?;
    let home = std::env::var("CARGO_HOME").unwrap_or(format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
    for d in fs::read_dir(Path::new(&home).join("registry/src")).ok()? {
        let p = d.ok()?.path().join(format!("{name}-{version}")).join(file);
        if p.exists() {
            return Some(p);
        }
    }
    None
}

/// `fn(A, B) -> R` becomes `VxFn2<A, B, R>` (function pointers are outside the verifier's subset)
fn bare_fn(t: &syn::TypeBareFn) -> Vec<Edit> {
    let (lo, hi) = range(t);
    let n = t.inputs.len();
    let mut at = lo;
    let mut text = format!("VxFn{n}<");
    let mut edits = vec![];
    for a in &t.inputs {
        let (l, h) = range(&a.ty);
        edits.push(Edit { lo: at, hi: l, text: std::mem::take(&mut text) });
        at = h;
        text = ", ".into();
    }
    match &t.output {
        syn::ReturnType::Default => edits.push(Edit { lo: at, hi, text: format!("{text}()>") }),
        syn::ReturnType::Type(_, r) => {
            let (l, h) = range(&**r);
            edits.push(Edit { lo: at, hi: l, text });
            edits.push(Edit { lo: h, hi, text: ">".into() });
        }
    }
    edits
}
// names of the struct fields and parameters that are function pointers
fn bare_fields(f: &syn::File) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for it in &f.items {
        if let syn::Item::Struct(s) = it {
            for f in &s.fields {
                if let (Some(i), syn::Type::BareFn(_)) = (&f.ident, &f.ty) {
                    r.insert(i.to_string());
                }
            }
        }
    }
    r
}

struct TypeEdits<'a> {
    unit: &'a Unit,
    edits: Vec<Edit>,
}
impl<'ast> Visit<'ast> for TypeEdits<'_> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (lo, hi) = range(a);
        self.edits.push(Edit { lo, hi, text: String::new() });
    }
    fn visit_visibility(&mut self, v: &'ast syn::Visibility) {
        if !matches!(v, syn::Visibility::Inherited) {
            let (lo, hi) = range(v);
            self.edits.push(Edit { lo, hi, text: String::new() });
        }
    }
    fn visit_type_bare_fn(&mut self, t: &'ast syn::TypeBareFn) {
        self.edits.extend(bare_fn(t));
        visit::visit_type_bare_fn(self, t);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let n = norm(p);
        for (a, b) in &self.unit.paths {
            if *a == n {
                let (lo, hi) = range(p);
                self.edits.push(Edit { lo, hi, text: b.clone() });
                return;
            }
        }
        visit::visit_path(self, p);
    }
}

fn emit_type(src: &Src, name: &str, opts: &Map<String, String>, unit: &Unit) -> Option<String> {
    let mut drv = opts.get("derive").map_or(String::new(), |d| format!("#[derive({d})]\n"));
    for it in &src.ast.items {
        let id = match it {
            syn::Item::Struct(s) => s.ident.to_string(),
            syn::Item::Enum(s) => s.ident.to_string(),
            syn::Item::Type(s) => s.ident.to_string(),
            _ => continue,
        };
        if id != name {
            continue;
        }
        let (lo, hi) = range(it);
        let mut te = TypeEdits { unit, edits: vec![] };
        te.visit_item(it);
        // make fields pub in structs
        if let syn::Item::Struct(s) = it {
            for f in &s.fields {
                let lo = match &f.ident {
                    Some(i) => range(i).0,
                    None => range(&f.ty).0,
                };
                te.edits.push(Edit { lo, hi: lo, text: "pub ".into() });
            }
            if let Some(k) = opts.get("as") {
                let (a, b) = range(&s.ident);
                te.edits.push(Edit { lo: a, hi: b, text: k.clone() });
            }
        }
        if let syn::Item::Enum(s) = it {
            if let Some(k) = opts.get("as") {
                let (a, b) = range(&s.ident);
                te.edits.push(Edit { lo: a, hi: b, text: k.clone() });
            }
            // explicit discriminants are kept
        }
        let extra = derived(it, opts, &mut drv);
        return Some(format!("{drv}pub {}\n{extra}", apply(&src.text, lo, hi, te.edits).trim_start()));
    }
    None
}

/// What the derives of the source mean: `Clone` gives an equal value, `==` compares all fields of plain data, and the
/// order of a newtype is that of the integer in it. Only what the source derives (an impl by hand is not known).
fn derived(it: &syn::Item, opts: &Map<String, String>, drv: &mut String) -> String {
    let (attrs, id, generics) = match it {
        syn::Item::Struct(s) => (&s.attrs, &s.ident, &s.generics),
        syn::Item::Enum(s) => (&s.attrs, &s.ident, &s.generics),
        _ => return String::new(),
    };
    let mut has: Vec<String> = vec![];
    for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
        let _ = a.parse_nested_meta(|m| {
            has.push(m.path.segments.last().unwrap().ident.to_string());
            Ok(())
        });
    }
    let has = |n: &str| has.iter().any(|h| h == n);
    let known: Vec<&str> = opts.get("derive").map_or(vec![], |d| d.split(',').map(str::trim).collect());
    let name = opts.get("as").cloned().unwrap_or(id.to_string());
    let mut out = String::new();
    if generics.type_params().count() + generics.const_params().count() > 0 || opts.contains_key("plain") {
        return out;
    }
    let lts: Vec<String> = generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
    let lts = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
    if has("Clone") && !known.contains(&"Clone") {
        out.push_str(&format!(
            "impl{lts} Clone for {name}{lts} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
        ));
    }
    if !lts.is_empty() {
        return out;
    }
    if has("PartialEq") && known.contains(&"Copy") && !known.contains(&"PartialEq") {
        drv.push_str("#[derive(PartialEq, Eq)]\n");
        out.push_str(&format!(
            "impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} \
             open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\n"
        ));
        if let syn::Item::Struct(syn::ItemStruct { fields: syn::Fields::Unnamed(f), .. }) = it {
            let int = |t: &syn::Type| matches!(norm(t).as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize");
            if has("PartialOrd") && f.unnamed.len() == 1 && int(&f.unnamed[0].ty) {
                drv.push_str("#[derive(PartialOrd)]\n");
                out.push_str(&format!(
                    "impl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} \
                     open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<core::cmp::Ordering> {{ if self.0 < o.0 {{ Some(core::cmp::Ordering::Less) }} \
                     else if self.0 > o.0 {{ Some(core::cmp::Ordering::Greater) }} else {{ Some(core::cmp::Ordering::Equal) }} }} }}\n"
                ));
            }
        }
    }
    out
}

// where the elided lifetimes of a type go
struct Elided(Vec<usize>);
impl<'b> Visit<'b> for Elided {
    fn visit_type_reference(&mut self, r: &'b syn::TypeReference) {
        if r.lifetime.is_none() {
            self.0.push(br(r.and_token.span()).1);
        }
        visit::visit_type_reference(self, r);
    }
}

fn emit_const(src: &Src, name: &str, opts: &Map<String, String>, unit: &Unit) -> Option<String> {
    for it in &src.ast.items {
        if let syn::Item::Const(c) = it {
            if c.ident == name {
                let (lo, hi) = range(it);
                let mut te = TypeEdits { unit, edits: vec![] };
                te.visit_item(it);
                let mut st = Elided(vec![]);
                st.visit_type(&c.ty);
                for p in st.0 {
                    te.edits.push(Edit { lo: p, hi: p, text: "'static ".into() });
                }
                let kw = if opts.contains_key("exec") { "exec " } else { "" };
                let t = apply(&src.text, lo, hi, te.edits);
                return Some(format!("pub {kw}{}\n", t.trim_start()));
            }
        }
    }
    None
}
