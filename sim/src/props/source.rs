//! What `exports.rs` says, read from its own text: names, parameters, fields, documentation. It is what
//! headers are held against where the compiler gives no way to ask. Reads only what that file's style needs.

#[derive(Debug, Default, Clone)]
pub struct Item {
    pub kind: &'static str,
    /// As in C.
    pub name: String,
    pub docs: Vec<String>,
    /// Parameters, fields, variants; with their documentation. Without a name if any will do.
    pub parts: Vec<(String, Vec<String>)>,
}

fn unraw(s: &str) -> String {
    s.trim().trim_start_matches("r#").to_string()
}
/// At the commas outside of all brackets.
fn split(s: &str) -> Vec<&str> {
    let (mut depth, mut start, mut prev, mut v) = (0i32, 0, ' ', vec![]);
    for (i, c) in s.char_indices() {
        match c {
            '(' | '[' | '{' | '<' => depth += 1,
            '>' if prev == '-' || prev == '=' => {}
            ')' | ']' | '}' | '>' => depth -= 1,
            ',' if depth == 0 => {
                v.push(&s[start..i]);
                start = i + 1;
            }
            _ => {}
        }
        prev = c;
    }
    v.push(&s[start..]);
    v.into_iter().map(str::trim).filter(|x| !x.is_empty()).collect()
}
fn literal(s: &str) -> String {
    let s = s.trim();
    let s = &s[1..s.len() - 1];
    s.replace("\\r", "").replace("\\n", "\n").replace("\\\"", "\"").replace("\\\\", "\\")
}
fn lines_of(doc: &str) -> Vec<String> {
    let mut v: Vec<String> = doc.split('\n').map(|l| l.trim().to_string()).collect();
    while v.last().map_or(false, |l| l.is_empty()) {
        v.pop();
    }
    v
}

pub fn items(text: &str) -> Vec<Item> {
    let lines: Vec<&str> = text.lines().collect();
    let mut v = vec![];
    let (mut docs, mut attrs): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut i = 0;
    let doc_of = |l: &str, i: &mut usize| -> Option<Vec<String>> {
        if let Some(d) = l.strip_prefix("///") {
            return Some(vec![d.trim().to_string()]);
        }
        if let Some(d) = l.strip_prefix("/**") {
            let mut s = d.to_string();
            while !s.contains("*/") {
                *i += 1;
                s.push('\n');
                s.push_str(lines[*i]);
            }
            return Some(lines_of(s.split("*/").next().unwrap()));
        }
        let d = l.strip_prefix("#[doc = ")?.strip_suffix(']')?;
        Some(lines_of(&literal(d)))
    };
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(d) = doc_of(l, &mut i) {
            docs.extend(d);
            i += 1;
            continue;
        }
        if l.starts_with("#[") {
            attrs.push(l.to_string());
            i += 1;
            continue;
        }
        let exported = attrs.iter().any(|a| a.starts_with("#[ffi_export"));
        let derived = attrs.iter().any(|a| a.starts_with("#[derive_ReprC"));
        let renamed = attrs.iter().find_map(|a| a.split("rename = \"").nth(1)).map(|r| r.split('"').next().unwrap().to_string());
        let has = |what: &str| attrs.iter().any(|a| a.contains(what));
        if exported || derived {
            let decl = l.strip_prefix("pub ").unwrap_or(l);
            let decl = decl.strip_prefix("async ").unwrap_or(decl);
            let mut words = decl.split(|c: char| c.is_whitespace() || "(<:{;".contains(c));
            let (kind, name) = (words.next().unwrap_or(""), unraw(words.next().unwrap_or("")));
            let mut item = Item { name: renamed.clone().unwrap_or(name), docs: docs.clone(), ..Default::default() };
            if item.name.contains('$') || decl.contains('$') {
            } else if kind == "fn" {
                let mut sig = decl.to_string();
                while !sig.contains('{') {
                    i += 1;
                    sig.push(' ');
                    sig.push_str(lines[i].trim());
                }
                let after = &sig[sig.find("fn ").unwrap()..];
                // behind the generics, if any
                let open = {
                    let g = after.find('<').filter(|g| *g < after.find('(').unwrap());
                    g.map_or(0, |g| g + after[g..].find(">(").unwrap()) + after[g.map_or(0, |g| g + after[g..].find(">(").unwrap())..].find('(').unwrap()
                };
                let mut depth = 0;
                let close = open + after[open..].find(|c| {
                    depth += (c == '(') as i32 - (c == ')') as i32;
                    depth == 0
                }).unwrap();
                for a in split(&after[open + 1..close]) {
                    let n = a.split(':').next().unwrap().trim();
                    let n = unraw(n.strip_prefix("mut ").unwrap_or(n));
                    // a pattern has no name; a reserved one need not be kept
                    let plain = n != "_" && !n.starts_with("__arg_") && n.chars().all(|c| c.is_alphanumeric() || c == '_');
                    item.parts.push((if plain { n } else { String::new() }, vec![]));
                }
                item.kind = "fn";
                v.push(item);
            } else if kind == "const" {
                item.kind = "const";
                v.push(item);
            } else if (kind == "struct" || kind == "enum") && !has("transparent") && !has("Stabby") {
                item.kind = if has("opaque") { "opaque" } else if kind == "struct" { "struct" } else { "enum" };
                let generic = decl.contains('<');
                item.name.push_str("_t");
                if item.kind != "opaque" && l.ends_with('{') {
                    let indent = lines[i].len() - lines[i].trim_start().len();
                    let mut docs = vec![];
                    loop {
                        i += 1;
                        let f = lines[i].trim();
                        if lines[i].len() - lines[i].trim_start().len() <= indent && f.starts_with('}') {
                            break;
                        }
                        if let Some(d) = doc_of(f, &mut i) {
                            docs.extend(d);
                        } else if !f.starts_with("#[") && !f.is_empty() {
                            let n = f.strip_prefix("pub ").unwrap_or(f).split(|c: char| ":,= ".contains(c)).next().unwrap();
                            // `r#x` has no `:`, `,`, `=` or space in it
                            if !f.contains("PhantomData") {
                                item.parts.push((unraw(n), std::mem::take(&mut docs)));
                            }
                        }
                    }
                }
                if !generic {
                    v.push(item);
                }
            }
        }
        docs.clear();
        attrs.clear();
        i += 1;
    }
    v
}

// --- documentation in headers -------------------------------------------------------------------
/// Comments and what stands behind each, up to the next one. An empty comment says there is none.
fn commented_c(text: &str) -> Vec<(Vec<String>, String)> {
    let mut v: Vec<(Vec<String>, String)> = vec![];
    let mut rest = text;
    while let Some(a) = rest.find("/**") {
        if let Some(l) = v.last_mut() {
            l.1.push_str(&rest[..a]);
        }
        let Some(n) = rest[a + 3..].find("*/") else { break };
        let body = &rest[a + 3..a + 3 + n];
        rest = &rest[a + 5 + n..];
        if body.contains("\\remark") || body.starts_with('*') {
            continue;
        }
        let lines: Vec<String> = if body.contains("<No documentation available>") {
            vec![]
        } else {
            let b = body.trim().strip_prefix("\\brief").unwrap_or(body);
            lines_of(b.trim_start_matches(|c| c == ' ' || c == '\n').trim_end()).iter().map(|l| l.trim_start_matches('*').trim().to_string()).collect()
        };
        v.push((lines, String::new()));
    }
    if let Some(l) = v.last_mut() {
        l.1.push_str(rest);
    }
    v
}
fn word(s: &str, w: &str) -> bool {
    s.match_indices(w).any(|(i, _)| {
        let id = |c: char| c.is_alphanumeric() || c == '_';
        !s[..i].chars().next_back().map_or(false, id) && !s[i + w.len()..].chars().next().map_or(false, id)
    })
}
fn same(want: &[String], got: &[String]) -> bool {
    let norm = |v: &[String]| -> Vec<String> {
        let mut v: Vec<String> = v.iter().map(|l| l.replace("*\\/", "*/").replace("<c>", "`").replace("</c>", "`").split_whitespace().collect::<Vec<_>>().join(" ")).collect();
        while v.last().map_or(false, |l| l.is_empty()) {
            v.pop();
        }
        v
    };
    norm(want) == norm(got)
}

/// Every item of `items` is in the C header's text, with its own documentation, and that of its parts.
pub fn documented_c(items: &[Item], text: &str) -> Result<(), String> {
    let c = commented_c(text);
    for it in items {
        let at = |x: &(Vec<String>, String)| {
            let t = x.1.trim_start();
            match it.kind {
                "fn" => t.contains(&format!("\n{} (", it.name)),
                "const" => t.starts_with(&format!("#define {} ", it.name)),
                "enum" => t.contains(&format!("enum {} {{", &it.name[..it.name.len() - 2])),
                "opaque" => t.starts_with(&format!("typedef struct {} {};", &it.name[..it.name.len() - 2], it.name)),
                _ => t.starts_with(&format!("typedef struct {} {{", &it.name[..it.name.len() - 2])),
            }
        };
        let Some(i) = c.iter().position(at) else {
            // not mentioned by any export, or without documentation of any kind
            continue;
        };
        if !same(&it.docs, &c[i].0) {
            return Err(format!("C: {} {} is documented as {:?}, not {:?}", it.kind, it.name, c[i].0, it.docs));
        }
        if it.kind == "struct" || it.kind == "enum" {
            for (k, (part, docs)) in it.parts.iter().enumerate() {
                let Some((got, after)) = c.get(i + 1 + k) else { return Err(format!("C: {}.{part} is missing", it.name)) };
                let after = after.split('}').next().unwrap();
                let there = if it.kind == "struct" { word(after, part) } else { after.trim_end().trim_end_matches(',').split(" = ").next().unwrap().replace('_', "").to_lowercase().ends_with(&part.replace('_', "").to_lowercase()) };
                if !there {
                    return Err(format!("C: part {k} of {} is {:?}, not {part}", it.name, after.trim()));
                }
                if !same(docs, got) {
                    return Err(format!("C: {}.{part} is documented as {got:?}, not {docs:?}", it.name));
                }
            }
        }
    }
    Ok(())
}
/// The same for C#, which says nothing where there is no documentation.
pub fn documented_csharp(items: &[Item], text: &str) -> Result<(), String> {
    let lines: Vec<&str> = text.lines().map(str::trim).collect();
    // the documentation that ends before line `i`, attributes left aside
    let before = |mut i: usize| -> Vec<String> {
        while i > 0 && lines[i - 1].starts_with('[') {
            i -= 1;
        }
        if i == 0 || lines[i - 1] != "/// </summary>" {
            return vec![];
        }
        let end = i - 1;
        let mut j = end;
        while j > 0 && lines[j] != "/// <summary>" {
            j -= 1;
        }
        lines[j + 1..end].iter().map(|l| l.trim_start_matches("///").trim().to_string()).collect()
    };
    for it in items {
        let at = lines.iter().position(|l| match it.kind {
            "fn" => l.starts_with("") && (l.contains(&format!(" {} (", it.name))),
            "const" => l.starts_with("public const ") && l.contains(&format!(" {} = ", it.name)),
            "enum" => l.starts_with(&format!("public enum {} ", it.name)),
            _ => l.starts_with("public ") && l.ends_with(&format!("struct {} {{", it.name)),
        });
        let Some(at) = at else { continue };
        let start = if it.kind == "fn" { (0..at).rev().find(|i| lines[*i].starts_with("[DllImport")).unwrap_or(at) } else { at };
        let got = before(start);
        if !same(&it.docs, &got) {
            return Err(format!("C#: {} {} is documented as {got:?}, not {:?}", it.kind, it.name, it.docs));
        }
        if it.kind == "struct" || it.kind == "enum" {
            let mut i = at;
            for (part, docs) in &it.parts {
                loop {
                    i += 1;
                    match lines.get(i) {
                        None | Some(&"}") => return Err(format!("C#: {} has no {part}, or not there", it.name)),
                        Some(l) if !l.starts_with("///") && !l.starts_with("//") && word(l, part) => break,
                        // an array is several fields
                        Some(l) if !l.starts_with("///") && l.contains(&format!(" {part}_")) => break,
                        _ => {}
                    }
                }
                let got = before(i);
                if !same(docs, &got) {
                    return Err(format!("C#: {}.{part} is documented as {got:?}, not {docs:?}", it.name));
                }
            }
        }
    }
    Ok(())
}
