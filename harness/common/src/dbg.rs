//! A lenient parser for the text that `{:?}` prints.
//!
//! The structure of a tree (which group lies in which) is observed through the Debug output of
//! `RTree`. Only its shape is relied on: a node is printed as a struct that holds a list, and the
//! bounds of the node; names of structs and fields do not matter.

#[derive(Debug, Clone)]
pub enum D<'a> {
    Num(f64),
    Atom(&'a str),
    List(Vec<D<'a>>),
    /// name, fields (name or "" for tuples)
    Struct(&'a str, Vec<(&'a str, D<'a>)>),
}

pub fn parse(text: &str) -> Option<D<'_>> {
    let b = text.as_bytes();
    let mut i = 0;
    let d = value(b, &mut i)?;
    ws(b, &mut i);
    if i == b.len() {
        Some(d)
    } else {
        None
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b':'
}

fn items<'a>(b: &'a [u8], i: &mut usize, close: u8) -> Option<Vec<D<'a>>> {
    let mut out = vec![];
    loop {
        ws(b, i);
        if *i >= b.len() {
            return None;
        }
        if b[*i] == close {
            *i += 1;
            return Some(out);
        }
        out.push(value(b, i)?);
        ws(b, i);
        if *i < b.len() && b[*i] == b',' {
            *i += 1;
        }
    }
}

fn value<'a>(b: &'a [u8], i: &mut usize) -> Option<D<'a>> {
    ws(b, i);
    if *i >= b.len() {
        return None;
    }
    match b[*i] {
        b'[' => {
            *i += 1;
            Some(D::List(items(b, i, b']')?))
        }
        b'(' => {
            *i += 1;
            let v = items(b, i, b')')?;
            Some(D::Struct(
                "",
                v.into_iter().map(|d| ("", d)).collect(),
            ))
        }
        _ => {
            let start = *i;
            while *i < b.len() && word(b[*i]) {
                *i += 1;
            }
            if start == *i {
                return None;
            }
            let name = std::str::from_utf8(&b[start..*i]).ok()?;
            ws(b, i);
            if *i < b.len() && b[*i] == b'(' {
                *i += 1;
                let v = items(b, i, b')')?;
                return Some(D::Struct(
                    name,
                    v.into_iter().map(|d| ("", d)).collect(),
                ));
            }
            if *i < b.len() && b[*i] == b'{' {
                *i += 1;
                let mut fields = vec![];
                loop {
                    ws(b, i);
                    if *i >= b.len() {
                        return None;
                    }
                    if b[*i] == b'}' {
                        *i += 1;
                        break;
                    }
                    let fs = *i;
                    while *i < b.len() && (b[*i].is_ascii_alphanumeric() || b[*i] == b'_') {
                        *i += 1;
                    }
                    let fname = std::str::from_utf8(&b[fs..*i]).ok()?;
                    ws(b, i);
                    if *i >= b.len() || b[*i] != b':' {
                        return None;
                    }
                    *i += 1;
                    let v = value(b, i)?;
                    fields.push((fname, v));
                    ws(b, i);
                    if *i < b.len() && b[*i] == b',' {
                        *i += 1;
                    }
                }
                return Some(D::Struct(name, fields));
            }
            match name.parse::<f64>() {
                Ok(x) => Some(D::Num(x)),
                Err(_) => Some(D::Atom(name)),
            }
        }
    }
}

/// All numbers in the value, in order of appearance.
pub fn numbers(d: &D, out: &mut Vec<f64>) {
    match d {
        D::Num(x) => out.push(*x),
        D::Atom(_) => {}
        D::List(v) => v.iter().for_each(|d| numbers(d, out)),
        D::Struct(_, f) => f.iter().for_each(|(_, d)| numbers(d, out)),
    }
}

/// A node as found in the output: the value printed for its bounds and its children.
pub enum Kids<'a> {
    Nodes(Vec<(&'a D<'a>, Kids<'a>)>),
    /// pairs of key and value
    Entries(Vec<(&'a D<'a>, &'a D<'a>)>),
}

fn is_entry<'a>(d: &'a D<'a>) -> Option<(&'a D<'a>, &'a D<'a>)> {
    match d {
        D::Struct(n, f) if n.is_empty() && f.len() == 2 => Some((&f[0].1, &f[1].1)),
        _ => None,
    }
}

fn list_of<'a>(d: &'a D<'a>) -> Option<&'a Vec<D<'a>>> {
    match d {
        D::List(v) => Some(v),
        // a wrapper around the list, such as Leaf([...])
        D::Struct(_, f) if f.len() == 1 => list_of(&f[0].1),
        _ => None,
    }
}

pub fn node<'a>(d: &'a D<'a>) -> Option<(&'a D<'a>, Kids<'a>)> {
    match d {
        D::Struct(_, f) => {
            // The last field that is a list of children; bounds are the first other field.
            for (i, (_, x)) in f.iter().enumerate().rev() {
                if let Some(v) = list_of(x) {
                    let bounds = f
                        .iter()
                        .enumerate()
                        .filter(|(j, (_, y))| *j != i && !matches!(y, D::Num(_)))
                        .map(|(_, (_, y))| y)
                        .next();
                    let bounds = match bounds {
                        Some(b) => b,
                        None => continue,
                    };
                    let es: Option<Vec<_>> = v.iter().map(is_entry).collect();
                    if let Some(es) = es {
                        return Some((bounds, Kids::Entries(es)));
                    }
                    let ns: Option<Vec<_>> = v.iter().map(node).collect();
                    if let Some(ns) = ns {
                        return Some((bounds, Kids::Nodes(ns)));
                    }
                }
            }
            // A wrapper around the node.
            for (_, x) in f {
                if let Some(n) = node(x) {
                    return Some(n);
                }
            }
            None
        }
        _ => None,
    }
}
