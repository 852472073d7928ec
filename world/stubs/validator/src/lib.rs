//! Stand-in: validator::validate_email (shape check only).
pub fn validate_email<'a, T: Into<std::borrow::Cow<'a, str>>>(v: T) -> bool {
    let v = v.into();
    match v.rsplit_once('@') {
        Some((u, d)) => !u.is_empty() && !d.is_empty() && d.contains('.') && !u.contains(char::is_whitespace) && !d.contains(char::is_whitespace) && !d.starts_with('.') && !d.ends_with('.'),
        None => false,
    }
}
