//! What a generated header says: readers for the C (and Python) and the C# output, written from
//! those languages' rules and not from the generator.
//!
//! Both reduce a header to the same description, so that the languages can be compared with each
//! other and with the Rust types.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Void,
    Ptr,
    Prim(&'static str),
    Named(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Decl {
    Struct { fields: Vec<(String, Ty)>, size: Option<usize> },
    Enum { repr: Option<Ty>, variants: Vec<(String, i128)> },
    Alias(Ty),
    Opaque,
    FnPtr,
    Func { ret: Ty, args: Vec<(String, Ty)> },
    Const { ty: Option<Ty>, value: String },
}
/// In the order of definition.
pub struct Header {
    pub items: Vec<(String, Decl)>,
}
impl Header {
    pub fn map(&self) -> Result<BTreeMap<&str, &Decl>, String> {
        let mut m = BTreeMap::new();
        for (n, d) in &self.items {
            if m.insert(&**n, d).is_some() {
                return Err(format!("`{n}` is defined more than once"));
            }
            let parts: Vec<&String> = match d {
                Decl::Func { args: v, .. } | Decl::Struct { fields: v, .. } => v.iter().map(|x| &x.0).collect(),
                Decl::Enum { variants: v, .. } => v.iter().map(|x| &x.0).collect(),
                _ => vec![],
            };
            for (i, p) in parts.iter().enumerate() {
                if !p.is_empty() && parts[..i].contains(p) {
                    return Err(format!("`{n}` has two parts called `{p}`"));
                }
            }
        }
        Ok(m)
    }
}

// --- tokens -------------------------------------------------------------------------------------
fn strip(text: &str, line_comments: bool) -> String {
    let b: Vec<char> = text.chars().collect();
    let mut out = String::with_capacity(text.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            out.push('"');
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    out.push(b[i]);
                    i += 1;
                }
                if i < b.len() {
                    out.push(b[i]);
                    i += 1;
                }
            }
            out.push('"');
            i += 1;
        } else if b[i] == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                if b[i] == '\n' {
                    out.push('\n');
                }
                i += 1;
            }
            i += 2;
            out.push(' ');
        } else if line_comments && b[i] == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
type Tok = String;
fn tokens(s: &str) -> Vec<Tok> {
    let b: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let start = i;
        if c.is_whitespace() {
            i += 1;
            continue;
        } else if c == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c.is_alphanumeric() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
        v.push(b[start..i.min(b.len())].iter().collect());
    }
    v
}
fn is_ident(t: &str) -> bool {
    t.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_')
}
/// The index behind the bracket that closes the one at `i`.
fn close(t: &[Tok], i: usize) -> Result<usize, String> {
    let mut depth = 0;
    for (j, x) in t.iter().enumerate().skip(i) {
        match &**x {
            "(" | "{" | "[" => depth += 1,
            ")" | "}" | "]" => {
                depth -= 1;
                if depth == 0 {
                    return Ok(j + 1);
                }
            }
            _ => {}
        }
    }
    Err("unbalanced brackets".into())
}
fn split(t: &[Tok], sep: &str) -> Vec<Vec<Tok>> {
    let mut out = vec![vec![]];
    let mut depth = 0;
    for x in t {
        match &**x {
            "(" | "{" | "[" => depth += 1,
            ")" | "}" | "]" => depth -= 1,
            _ => {}
        }
        if depth == 0 && x == sep {
            out.push(vec![]);
        } else {
            out.last_mut().unwrap().push(x.clone());
        }
    }
    out.retain(|x| !x.is_empty());
    out
}
fn value(t: &[Tok], last: Option<i128>) -> Result<i128, String> {
    if t.is_empty() {
        return Ok(last.map_or(0, |x| x + 1));
    }
    let s: String = t.concat();
    let s = s.trim_start_matches('(').trim_end_matches(')');
    s.parse().map_err(|_| format!("`{s}` is no number"))
}

// --- C ------------------------------------------------------------------------------------------
const C_PRIMS: &[(&str, &str)] = &[
    ("uint8_t", "u8"), ("uint16_t", "u16"), ("uint32_t", "u32"), ("uint64_t", "u64"), ("size_t", "usize"),
    ("int8_t", "i8"), ("int16_t", "i16"), ("int32_t", "i32"), ("int64_t", "i64"), ("ssize_t", "isize"),
    ("uintptr_t", "usize"), ("intptr_t", "isize"),
    ("float", "f32"), ("double", "f64"), ("bool", "bool"), ("char", "u8"), ("int", "i32"),
];
fn c_ty(t: &[Tok]) -> Result<Ty, String> {
    if t.iter().any(|x| x == "*") {
        return Ok(Ty::Ptr);
    }
    let mut names = t.iter().filter(|x| !matches!(&***x, "const" | "struct" | "enum"));
    let (Some(n), None) = (names.next(), names.next()) else {
        return Err(format!("`{}` is no type", t.join(" ")));
    };
    if n == "void" {
        return Ok(Ty::Void);
    }
    match C_PRIMS.iter().find(|(c, _)| c == n) {
        Some((_, p)) => Ok(Ty::Prim(p)),
        None if is_ident(n) => Ok(Ty::Named(n.clone())),
        None => Err(format!("`{n}` is no type")),
    }
}
/// `T name`, `T name[N]`, `T (*name)(...)`: its name, type, and number of repetitions.
fn c_declarator(t: &[Tok]) -> Result<(String, Ty, Option<usize>), String> {
    let bad = || format!("`{}` declares nothing", t.join(" "));
    if t.iter().any(|x| x == "(") {
        let end = t.iter().position(|x| x == ")").ok_or_else(bad)?;
        let name = t[..end].iter().rev().find(|x| is_ident(x) && **x != "const").ok_or_else(bad)?;
        return Ok((name.clone(), Ty::Ptr, None));
    }
    if let Some(i) = t.iter().position(|x| x == "[") {
        let n: usize = t.get(i + 1).and_then(|x| x.parse().ok()).ok_or_else(bad)?;
        if i == 0 || t.len() != i + 3 {
            return Err(bad());
        }
        return Ok((t[i - 1].clone(), c_ty(&t[..i - 1])?, Some(n)));
    }
    let (name, ty) = t.split_last().ok_or_else(bad)?;
    if !is_ident(name) {
        return Err(bad());
    }
    Ok((name.clone(), c_ty(ty)?, None))
}
fn c_enum(body: &[Tok]) -> Result<Vec<(String, i128)>, String> {
    let mut last = None;
    split(body, ",")
        .into_iter()
        .map(|v| {
            let x = match v.iter().position(|x| x == "=") {
                Some(i) => value(&v[i + 1..], last)?,
                None => value(&[], last)?,
            };
            last = Some(x);
            Ok((v[0].clone(), x))
        })
        .collect()
}
/// The conditional parts that a C compiler would see, without the directives; the constants apart.
fn preprocess(s: &str) -> Result<(String, Vec<(String, String)>, BTreeSet<String>), String> {
    let mut out = String::new();
    let mut defs = vec![];
    let mut includes = BTreeSet::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut on: Vec<bool> = vec![];
    let mut guard = None;
    for l in s.lines() {
        let active = on.iter().all(|x| *x);
        let Some(d) = l.trim_start().strip_prefix('#') else {
            if active {
                out.push_str(l);
                // so that a definition's place among the statements is known
            }
            out.push('\n');
            continue;
        };
        let d = d.trim();
        let (word, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
        let rest = rest.trim();
        match word {
            "ifdef" => on.push(known.contains(rest)),
            "ifndef" => {
                if on.is_empty() && guard.is_none() {
                    guard = Some(rest.to_string());
                }
                on.push(!known.contains(rest));
            }
            "endif" => {
                on.pop().ok_or("#endif without an #if")?;
            }
            "define" if active => {
                let (name, v) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                known.insert(name.to_string());
                if Some(name) != guard.as_deref() {
                    defs.push((name.to_string(), v.trim().to_string()));
                }
            }
            "include" => {
                includes.insert(rest.to_string());
            }
            "define" | "pragma" => {}
            w => return Err(format!("unknown directive #{w}")),
        }
        out.push('\n');
    }
    if !on.is_empty() {
        return Err("#if without an #endif".into());
    }
    Ok((out, defs, includes))
}
/// `claimed`: names that are defined elsewhere.
pub fn read_c(text: &str, claimed: &dyn Fn(&str) -> bool) -> Result<Header, String> {
    let (text, defs, _) = preprocess(&strip(text, false))?;
    let t = tokens(&text);
    let mut items: Vec<(String, Decl)> = vec![];
    let mut defined: BTreeSet<String> = C_PRIMS.iter().map(|(c, _)| c.to_string()).collect();
    // an enumeration's body comes before the name that it is used by
    let mut pending: Option<(String, Vec<(String, i128)>)> = None;
    for s in split(&t, ";") {
        let what = s.iter().take(6).cloned().collect::<Vec<_>>().join(" ");
        let uses: Vec<Tok> = s.iter().filter(|x| x.ends_with("_t") && is_ident(x)).cloned().collect();
        let mut name_defined = None;
        match &*s[0] {
            "enum" if s.get(2).map(|x| &**x) == Some("{") && s.last().unwrap() == "}" => {
                pending = Some((s[1].clone(), c_enum(&s[3..s.len() - 1])?));
            }
            "typedef" => {
                let name = s.last().unwrap().clone();
                if !is_ident(&name) {
                    return Err(format!("`{what} ...` defines nothing"));
                }
                let d = if let Some(i) = s.iter().position(|x| x == "{") {
                    let end = close(&s, i)?;
                    if end != s.len() - 1 {
                        return Err(format!("`{what} ...` goes on after its body"));
                    }
                    let body = &s[i + 1..end - 1];
                    if s[1] == "enum" {
                        Decl::Enum { repr: None, variants: c_enum(body)? }
                    } else {
                        let mut fields = vec![];
                        for f in split(body, ";") {
                            let (n, ty, times) = c_declarator(&f)?;
                            match times {
                                None => fields.push((n, ty)),
                                Some(k) => (0..k).for_each(|i| fields.push((format!("_{i}"), ty.clone()))),
                            }
                        }
                        Decl::Struct { fields, size: None }
                    }
                } else if s.len() == 4 && s[1] == "struct" || s[1] == "." {
                    Decl::Opaque
                } else {
                    let ty = c_ty(&s[1..s.len() - 1])?;
                    match pending.take() {
                        Some((_, variants)) => Decl::Enum { repr: Some(ty), variants },
                        None => Decl::Alias(ty),
                    }
                };
                name_defined = Some(name.clone());
                items.push((name, d));
            }
            _ => {
                let open = s.iter().position(|x| x == "(").ok_or(format!("`{what} ...` is no declaration"))?;
                let nested = s.get(open + 1).map(|x| &**x) == Some("*");
                let at = if nested {
                    (open..s.len()).find(|&i| is_ident(&s[i]) && s[i] != "const").ok_or(format!("`{what} ...` has no name"))?
                } else {
                    open.checked_sub(1).ok_or(format!("`{what} ...` has no name"))?
                };
                if s.get(at + 1).map(|x| &**x) != Some("(") {
                    return Err(format!("`{what} ...` is no function"));
                }
                let end = close(&s, at + 1)?;
                let ps = split(&s[at + 2..end - 1], ",");
                let mut args = vec![];
                for p in &ps {
                    if ps.len() == 1 && p.len() == 1 && p[0] == "void" {
                        break;
                    }
                    let (n, ty, _) = c_declarator(p)?;
                    args.push((n, ty));
                }
                let ret = if nested { Ty::Ptr } else { c_ty(&s[..at])? };
                items.push((s[at].clone(), Decl::Func { ret, args }));
            }
        }
        for u in uses {
            let own = name_defined.as_deref() == Some(&*u) && s.last() == Some(&u) && s.iter().filter(|x| **x == u).count() == 1;
            if !own && !defined.contains(&u) && !claimed(&u) {
                return Err(format!("`{u}` is used by `{what} ...` before it is defined"));
            }
        }
        if let Some(n) = name_defined {
            if !defined.insert(n.clone()) {
                return Err(format!("`{n}` is defined more than once"));
            }
        }
    }
    if pending.is_some() {
        return Err("an enumeration that no type goes by".into());
    }
    for (name, v) in defs {
        let t = tokens(&v);
        // ((type) value), or the value
        let d = if t.len() > 4 && t[0] == "(" && t[1] == "(" {
            let end = close(&t, 1)?;
            Decl::Const { ty: Some(c_ty(&t[2..end - 1])?), value: t[end..t.len() - 1].concat() }
        } else {
            Decl::Const { ty: None, value: v }
        };
        items.push((name, d));
    }
    Ok(Header { items })
}

// --- C# -----------------------------------------------------------------------------------------
const CS_PRIMS: &[(&str, &str)] = &[
    ("byte", "u8"), ("UInt16", "u16"), ("UInt32", "u32"), ("UInt64", "u64"), ("UIntPtr", "usize"),
    ("sbyte", "i8"), ("Int16", "i16"), ("Int32", "i32"), ("Int64", "i64"), ("IntPtr", "isize"),
    ("float", "f32"), ("double", "f64"), ("bool", "bool"),
    ("ushort", "u16"), ("uint", "u32"), ("ulong", "u64"), ("short", "i16"), ("int", "i32"), ("long", "i64"),
];
struct Cs<'a> {
    /// A boolean is one byte only if it says so.
    fnptrs: &'a BTreeSet<String>,
}
impl Cs<'_> {
    /// `attr`: what is in the attribute before it.
    fn ty(&self, t: &[Tok], attr: &str) -> Result<Ty, String> {
        if t.iter().any(|x| x == "*") {
            return Ok(Ty::Ptr);
        }
        let [n] = t else {
            return Err(format!("`{}` is no type", t.join(" ")));
        };
        if n == "void" {
            return Ok(Ty::Void);
        }
        if self.fnptrs.contains(n) {
            return Ok(Ty::Ptr);
        }
        match CS_PRIMS.iter().find(|(c, _)| c == n) {
            Some((_, "bool")) if !attr.contains("UnmanagedType.U1") => Err("a `bool` without its size of one byte".into()),
            Some((_, p)) => {
                if attr.contains("MarshalAs") && *p != "bool" {
                    return Err(format!("`{n}` is marshalled as something else"));
                }
                Ok(Ty::Prim(p))
            }
            None => Ok(Ty::Named(n.clone())),
        }
    }
    /// `[attr] T name`
    fn var(&self, t: &[Tok]) -> Result<(String, Ty), String> {
        let mut t = t;
        let mut attr = String::new();
        while t.first().map(|x| &**x) == Some("[") {
            let e = close(t, 0)?;
            attr.push_str(&t[..e].concat());
            t = &t[e..];
        }
        while matches!(t.first().map(|x| &**x), Some("public" | "private" | "unsafe" | "static" | "extern")) {
            t = &t[1..];
        }
        let (name, ty) = t.split_last().ok_or("an empty declaration")?;
        if !is_ident(name) {
            return Err(format!("`{}` declares nothing", t.join(" ")));
        }
        Ok((name.clone(), self.ty(ty, &attr)?))
    }
    /// Also `public fixed T name[N]`, which is N of them.
    fn field(&self, t: &[Tok]) -> Result<Vec<(String, Ty)>, String> {
        let Some(i) = t.iter().position(|x| x == "fixed") else {
            return Ok(vec![self.var(t)?]);
        };
        match &t[i + 1..] {
            [ty, _, open, n, end] if open == "[" && end == "]" => {
                let n: usize = n.parse().map_err(|_| format!("`{n}` is no length"))?;
                // only of types that are as big there as everywhere
                let ty = self.ty(std::slice::from_ref(ty), "UnmanagedType.U1")?;
                if !matches!(ty, Ty::Prim(_)) {
                    return Err("a fixed array of something that is not a number".into());
                }
                Ok((0..n).map(|i| (format!("_{i}"), ty.clone())).collect())
            }
            x => Err(format!("`{}` declares nothing", x.join(" "))),
        }
    }
}
pub fn read_csharp(text: &str) -> Result<(String, Header), String> {
    let text = strip(text, true);
    let text: String = text.lines().filter(|l| !l.trim_start().starts_with('#')).flat_map(|l| [l, "\n"]).collect();
    let t = tokens(&text);
    let fnptrs: BTreeSet<String> = (0..t.len())
        .filter(|&i| t[i] == "delegate")
        .filter_map(|i| (i..t.len()).find(|&j| t[j] == "(").map(|j| t[j - 1].clone()))
        .collect();
    let cs = Cs { fnptrs: &fnptrs };
    let mut items = vec![];
    let mut i = t.iter().position(|x| x == "namespace").ok_or("no namespace")?;
    let ns = t[i + 1].clone();
    let end = close(&t, i + 2)?;
    if end != t.len() {
        return Err("something behind the end of the namespace".into());
    }
    i += 3;
    let t = &t[..end - 1];
    let mut members: Vec<Vec<Tok>> = vec![];
    let mut attr = String::new();
    while i < t.len() {
        let word = &*t[i];
        match word {
            "using" => i += 1 + t[i..].iter().position(|x| x == ";").ok_or("`using` without end")?,
            "[" => {
                let e = close(t, i)?;
                attr.push_str(&t[i..e].concat());
                i = e;
            }
            "public" | "unsafe" | "partial" | "static" => i += 1,
            "class" => {
                let e = close(t, i + 2)?;
                members.push(t[i + 3..e - 1].to_vec());
                i = e;
                attr.clear();
            }
            "struct" => {
                let name = t[i + 1].clone();
                let e = close(t, i + 2)?;
                let body = &t[i + 3..e - 1];
                if !attr.contains("StructLayout") {
                    items.push((name, Decl::Opaque));
                } else {
                    if !attr.contains("LayoutKind.Sequential") {
                        return Err(format!("{name}: not laid out in order"));
                    }
                    let size = attr.split("Size=").nth(1).and_then(|s| s.trim_end_matches(&[']', ')'][..]).parse().ok());
                    let size = Some(size.ok_or(format!("{name}: no size"))?);
                    let mut fields = vec![];
                    for f in split(body, ";") {
                        fields.extend(cs.field(&f).map_err(|e| format!("{name}: {e}"))?);
                    }
                    items.push((name, Decl::Struct { fields, size }));
                }
                attr.clear();
                i = e;
            }
            "enum" => {
                let name = t[i + 1].clone();
                let open = i + t[i..].iter().position(|x| x == "{").ok_or("an enumeration without body")?;
                let e = close(t, open)?;
                let repr = if t[i + 2] == ":" { Some(cs.ty(&t[i + 3..open], "")?) } else { None };
                let variants = c_enum(&t[open + 1..e - 1])?;
                items.push((name, Decl::Enum { repr, variants }));
                attr.clear();
                i = e;
            }
            "delegate" => {
                let e = i + t[i..].iter().position(|x| x == ";").ok_or("a delegate without end")?;
                let open = i + t[i..e].iter().position(|x| x == "(").ok_or("a delegate without arguments")?;
                // its signature must make sense as well
                cs.ty(&t[i + 1..open - 1], &attr)?;
                for a in split(&t[open + 1..close(t, open)? - 1], ",") {
                    cs.var(&a)?;
                }
                items.push((t[open - 1].clone(), Decl::FnPtr));
                attr.clear();
                i = e + 1;
            }
            w => return Err(format!("unexpected `{w}`")),
        }
    }
    for m in members {
        for s in split(&m, ";") {
            if s.iter().any(|x| x == "const") {
                if s[0] == "private" {
                    continue;
                }
                let eq = s.iter().position(|x| x == "=").ok_or("a constant without value")?;
                let ty = match &*s[eq - 2] {
                    "bool" => Ty::Prim("bool"),
                    x => cs.ty(&[x.to_string()], "")?,
                };
                items.push((s[eq - 1].clone(), Decl::Const { ty: Some(ty), value: s[eq + 1..].concat() }));
                continue;
            }
            // [attributes] public static unsafe extern RET name ( args )
            let mut j = 0;
            let mut attr = String::new();
            while s[j] == "[" {
                let e = close(&s, j)?;
                attr.push_str(&s[j..e].concat());
                j = e;
            }
            if !attr.contains("DllImport(RustLib") || !attr.contains("ExactSpelling=true") {
                return Err("a function that is not imported from the library".into());
            }
            while matches!(&*s[j], "public" | "static" | "unsafe" | "extern") {
                j += 1;
            }
            let open = j + s[j..].iter().position(|x| x == "(").ok_or("a function without arguments")?;
            let name = s[open - 1].clone();
            let ret = cs.ty(&s[j..open - 1], if attr.contains("return:") { &attr } else { "" }).map_err(|e| format!("{name}: {e}"))?;
            let e = close(&s, open)?;
            let args = split(&s[open + 1..e - 1], ",").iter().map(|a| cs.var(a)).collect::<Result<Vec<_>, _>>().map_err(|e| format!("{name}: {e}"))?;
            items.push((name, Decl::Func { ret, args }));
        }
    }
    Ok((ns, Header { items }))
}

// --- layouts ------------------------------------------------------------------------------------
pub fn size_align(m: &BTreeMap<&str, &Decl>, t: &Ty, depth: usize) -> Result<(usize, usize), String> {
    if depth > 20 {
        return Err("a type contains itself".into());
    }
    Ok(match t {
        Ty::Void => return Err("`void` has no size".into()),
        Ty::Ptr => (8, 8),
        Ty::Prim(p) => {
            let n = match *p {
                "u8" | "i8" | "bool" => 1,
                "u16" | "i16" => 2,
                "u32" | "i32" | "f32" => 4,
                _ => 8,
            };
            (n, n)
        }
        Ty::Named(n) => match m.get(&**n) {
            None => return Err(format!("`{n}` is not defined")),
            Some(Decl::Enum { repr: None, .. }) => (4, 4),
            Some(Decl::Enum { repr: Some(t), .. }) | Some(Decl::Alias(t)) => size_align(m, t, depth + 1)?,
            Some(Decl::Struct { fields, .. }) => {
                let (end, align, _) = offsets(m, fields, depth)?;
                ((end + align - 1) / align * align, align)
            }
            Some(Decl::FnPtr) => (8, 8),
            Some(_) => return Err(format!("`{n}` has no size")),
        },
    })
}
pub fn offsets(m: &BTreeMap<&str, &Decl>, fields: &[(String, Ty)], depth: usize) -> Result<(usize, usize, Vec<(String, usize)>), String> {
    let (mut at, mut max, mut v) = (0, 1, vec![]);
    for (n, t) in fields {
        let (size, align) = size_align(m, t, depth + 1)?;
        at = (at + align - 1) / align * align;
        v.push((n.clone(), at));
        at += size;
        max = max.max(align);
    }
    Ok((at, max, v))
}
/// A constant's value, in one way of writing it.
fn constant(ty: &Ty, v: &str, csharp: bool) -> Result<String, String> {
    let float = matches!(ty, Ty::Prim("f32" | "f64"));
    let v = v.trim();
    Ok(match v {
        "NAN" | "float.NaN" | "double.NaN" | "Single.NaN" | "Double.NaN" => "nan".into(),
        "INFINITY" | "(INFINITY)" | "float.PositiveInfinity" | "double.PositiveInfinity" => "inf".into(),
        "-INFINITY" | "(-INFINITY)" | "float.NegativeInfinity" | "double.NegativeInfinity" => "-inf".into(),
        "true" | "false" => v.into(),
        _ if float => {
            let digits = v.trim_end_matches(|c: char| "fFdD".contains(c));
            if csharp && *ty == Ty::Prim("f32") && digits.len() == v.len() && v.contains(|c: char| ".eE".contains(c)) {
                return Err(format!("{v} is no float but a double"));
            }
            let x: f64 = digits.parse().map_err(|_| format!("`{v}` is no number"))?;
            format!("{:016x}", x.to_bits())
        }
        _ => {
            let digits = v.trim_matches(|c| c == '(' || c == ')').trim_end_matches(|c: char| "uUlL".contains(c));
            digits.parse::<i128>().map_err(|_| format!("`{v}` is no number"))?.to_string()
        }
    })
}
/// The languages say the same about everything they both mention.
pub fn compare(c: &Header, other: &Header, lang: &str, csharp: bool) -> Result<(), String> {
    let (mc, mo) = (c.map()?, other.map().map_err(|e| format!("{lang}: {e}"))?);
    for (n, d) in &mc {
        match (d, mo.get(n)) {
            // constants without a type, and aliases, are not in every language
            (Decl::Const { ty: None, .. }, None) => {}
            (_, None) => return Err(format!("`{n}` is in the C header and missing in {lang}")),
            (Decl::Func { ret, args }, Some(Decl::Func { ret: r2, args: a2 })) => {
                if ret != r2 || args != a2 {
                    return Err(format!("function `{n}` is {args:?} -> {ret:?} in C and {a2:?} -> {r2:?} in {lang}"));
                }
            }
            (Decl::Struct { fields, .. }, Some(Decl::Struct { fields: f2, size })) => {
                if fields != f2 {
                    return Err(format!("structure `{n}` has the fields {fields:?} in C and {f2:?} in {lang}"));
                }
                let t = Ty::Named(n.to_string());
                let (s, a) = size_align(&mc, &t, 0)?;
                let (s2, a2) = size_align(&mo, &t, 0).map_err(|e| format!("{lang}: {e}"))?;
                if (s, a) != (s2, a2) || size.map_or(false, |x| x != s) {
                    return Err(format!("structure `{n}` has {s} bytes in C and {s2} in {lang}, which announces {size:?}"));
                }
            }
            (Decl::Enum { repr, variants }, Some(Decl::Enum { repr: r2, variants: v2 })) => {
                let (x, y): (Vec<i128>, Vec<i128>) = (variants.iter().map(|v| v.1).collect(), v2.iter().map(|v| v.1).collect());
                if repr != r2 || x != y {
                    return Err(format!("enumeration `{n}` is {repr:?} {x:?} in C and {r2:?} {y:?} in {lang}"));
                }
            }
            (Decl::Opaque, Some(Decl::Opaque)) => {}
            (Decl::Const { ty: Some(t), value }, Some(Decl::Const { ty: Some(t2), value: v2 })) => {
                if t != t2 || constant(t, value, false)? != constant(t2, v2, csharp).map_err(|e| format!("{lang}: `{n}`: {e}"))? {
                    return Err(format!("constant `{n}` is {t:?} {value} in C and {t2:?} {v2} in {lang}"));
                }
            }
            (Decl::Const { .. }, Some(Decl::Const { .. })) => {}
            (x, Some(y)) => return Err(format!("`{n}` is {x:?} in C and {y:?} in {lang}")),
        }
    }
    for (n, d) in &mo {
        if !mc.contains_key(n) && **d != Decl::FnPtr {
            return Err(format!("`{n}` is in {lang} and missing in C"));
        }
    }
    Ok(())
}
