//! Stand-in: expands `$NAME` and `${NAME}`.
use std::borrow::Cow;
pub fn full_with_context_no_errors<HD, C, CO, P>(s: &str, _home: HD, ctx: C) -> Cow<'_, str>
where HD: FnOnce() -> Option<P>, P: AsRef<str>, C: FnMut(&str) -> Option<CO>, CO: AsRef<str> {
    let mut ctx = ctx;
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('$') {
        o.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        let (name, after) = if let Some(r) = rest.strip_prefix('{') {
            match r.find('}') { Some(e) => (&r[..e], &r[e + 1..]), None => { o.push('$'); continue; } }
        } else {
            let e = rest.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(rest.len());
            (&rest[..e], &rest[e..])
        };
        match ctx(name) { Some(v) => o.push_str(v.as_ref()), None => { o.push('$'); o.push_str(name) } }
        rest = after;
    }
    o.push_str(rest);
    Cow::Owned(o)
}
