//! Observers over the output: which tags, attributes, classes, ids, styles and
//! URL schemes a browser would see.
use crate::htmltok::*;

/// Elements Textile markup can produce, with the attributes each may carry.
pub fn allowed_attrs(tag: &str) -> Option<&'static [&'static str]> {
    const G: &[&str] = &["class", "id", "style", "lang"];
    Some(match tag {
        "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "pre" | "code" | "b" | "i" | "ul" | "li" | "dl" | "dt" | "dd" | "caption" | "thead"
        | "tbody" | "tfoot" | "tr" => G,
        "strong" | "em" | "cite" | "del" | "ins" | "sub" | "sup" | "span" | "blockquote" => &["class", "id", "style", "lang", "cite"],
        "a" => &["class", "id", "style", "lang", "href", "title", "rel"],
        "img" => &["class", "id", "style", "lang", "src", "alt", "title", "align", "width", "height"],
        "br" => &[],
        "ol" => &["class", "id", "style", "lang", "start"],
        "table" => &["class", "id", "style", "lang", "summary", "colspan", "rowspan"],
        "td" | "th" => &["class", "id", "style", "lang", "colspan", "rowspan"],
        "colgroup" | "col" => &["class", "id", "style", "lang", "span", "width"],
        "abbr" | "acronym" => &["title"],
        _ => return None,
    })
}

/// Whether the document contains the marker without which Textile never makes this element.
pub fn licensed(tag: &str, doc: &str) -> bool {
    let has = |s: &str| doc.contains(s);
    match tag {
        "strong" | "ul" => has("*"),
        "li" => has("*") || has("#") || has("notelist"),
        "b" => has("**"),
        "em" => has("_"),
        "i" => has("__"),
        "cite" => has("??"),
        "del" => has("-"),
        "ins" => has("+"),
        "sub" => has("~"),
        "sup" => has("^") || has("[") || has("fn") || has("notelist"),
        "span" => has("%") || has("[") || has("notelist") || doc.chars().filter(|c| c.is_uppercase()).count() >= 3,
        "code" => has("@") || has("bc"),
        "pre" => has("pre") || has("bc"),
        "blockquote" => has("bq"),
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => has(tag),
        "a" => has(":") || has("["),
        "img" => has("!"),
        "ol" => has("#") || has("notelist"),
        "table" | "tr" | "td" | "th" => has("|"),
        "caption" => has("|="),
        "colgroup" | "col" => has("|:"),
        "thead" => has("|^"),
        "tbody" => has("|-"),
        "tfoot" => has("|~"),
        "dl" | "dt" | "dd" => has(":") || has(";"),
        "abbr" | "acronym" => has("("),
        "p" | "br" => true,
        _ => false,
    }
}

/// The scheme a browser would act on: tabs and line ends are dropped, leading
/// blanks and controls skipped, case ignored. None: a relative reference.
pub fn scheme_of(url: &str) -> Option<String> {
    let u: String = url.chars().filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
    let u = u.trim_start_matches(|c: char| c <= ' ');
    let (s, _) = u.split_once(':')?;
    let mut it = s.chars();
    if !it.next()?.is_ascii_alphabetic() || !it.all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)) { return None; }
    Some(s.to_ascii_lowercase())
}

pub const SAFE: &[&str] = &["http", "https", "ftp", "mailto"];
pub const FULL: &[&str] = &["http", "https", "ftp", "mailto", "file", "tel", "callto", "sftp", "data"];

/// A style the converter itself generates (alignment and padding).
pub fn generated_style(v: &str) -> bool {
    v.split(';').map(|x| x.trim()).filter(|x| !x.is_empty()).all(|d| match d.split_once(':') {
        Some(("text-align", x)) => ["left", "right", "center", "justify"].contains(&x),
        Some(("vertical-align", x)) => ["top", "middle", "bottom"].contains(&x),
        Some(("padding-left", x)) | Some(("padding-right", x)) =>
            x.strip_suffix("em").map_or(false, |n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit())),
        _ => false,
    })
}

fn generated_id(v: &str, uid: &str) -> bool {
    ["fnrev", "fn", "noteref", "note"].iter().any(|p| {
        v.strip_prefix(p).and_then(|r| r.strip_prefix(uid)).and_then(|r| r.strip_prefix('-'))
            .map_or(false, |n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()))
    })
}

/// Restricted mode: what is wrong with the tags of this output, if anything.
pub fn foreign_markup(out: &str, doc: &str) -> Option<String> {
    let toks = tokenize(out);
    let mut tags = 0;
    for t in &toks {
        match t {
            Tok::Open { name, attrs, .. } => {
                tags += 1;
                let ok = match allowed_attrs(name) { Some(a) => a, None => return Some(format!("element <{name}> is not Textile's")) };
                if !licensed(name, doc) { return Some(format!("element <{name}> has no Textile marker in the document")); }
                for (k, v) in attrs {
                    if !ok.contains(&k.as_str()) { return Some(format!("attribute {k}={v:?} on <{name}>")); }
                }
            }
            Tok::Close(name) => {
                tags += 1;
                if allowed_attrs(name).is_none() { return Some(format!("end tag </{name}> is not Textile's")); }
                if !licensed(name, doc) { return Some(format!("end tag </{name}> has no Textile marker in the document")); }
            }
            Tok::Comment(c) => return Some(format!("comment {c:?}")),
            Tok::Other => return Some("doctype".into()),
            Tok::Text(_) => {}
        }
    }
    let lt = out.matches('<').count();
    if lt != tags { return Some(format!("{lt} '<' characters but {tags} tags: an unescaped '<'")); }
    None
}

/// Restricted mode: classes, ids and styles not made by the converter itself.
pub fn foreign_attributes(out: &str, uid: &str) -> Option<String> {
    for t in tokenize(out) {
        if let Tok::Open { name, attrs, .. } = t {
            for (k, v) in attrs {
                match k.as_str() {
                    "class" => {
                        let own = match name.as_str() {
                            "code" => v.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-'),
                            "span" => v == "caps",
                            "img" => ["align-left", "align-right", "align-center"].contains(&v.as_str()),
                            "p" | "sup" => v == "footnote",
                            _ => false,
                        };
                        if !own { return Some(format!("class {v:?} on <{name}>")); }
                    }
                    "id" => if !generated_id(&v, uid) { return Some(format!("id {v:?} on <{name}>")); },
                    "style" => if !generated_style(&v) { return Some(format!("style {v:?} on <{name}>")); },
                    _ => {}
                }
            }
        }
    }
    None
}

/// URLs of the output: (element, attribute, value).
pub fn urls(out: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    for t in tokenize(out) {
        if let Tok::Open { name, attrs, .. } = t {
            for (k, x) in attrs {
                if ["href", "src", "cite", "action", "background", "longdesc"].contains(&k.as_str()) { v.push((name.clone(), k, x)); }
            }
        }
    }
    v
}

pub fn bad_scheme(out: &str, allowed: &[&str]) -> Option<String> {
    for (n, k, v) in urls(out) {
        if let Some(s) = scheme_of(&v) {
            if !allowed.contains(&s.as_str()) { return Some(format!("{k}={v:?} on <{n}> has the scheme {s:?}")); }
        }
    }
    None
}

/// Typographic characters back to what is typed for them.
pub fn fold(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '“' | '”' => o.push('"'),
            '‘' | '’' => o.push('\''),
            '—' => o.push_str("--"),
            '–' => o.push('-'),
            '…' => o.push_str("..."),
            '×' => o.push('x'),
            c => o.push(c),
        }
    }
    o
}

/// Element names and nesting: Err on an end tag that does not match, Ok(tree depth) otherwise.
pub fn balanced(out: &str) -> Result<(), String> {
    let mut st: Vec<String> = vec![];
    for t in tokenize(out) {
        match t {
            Tok::Open { name, self_closing, .. } => {
                if !self_closing && !["br", "img", "hr", "col"].contains(&name.as_str()) { st.push(name); }
            }
            Tok::Close(n) => match st.pop() {
                Some(x) if x == n => {}
                x => return Err(format!("</{n}> closes {x:?}")),
            },
            _ => {}
        }
    }
    if st.is_empty() { Ok(()) } else { Err(format!("left open: {st:?}")) }
}
