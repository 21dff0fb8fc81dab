//! Display width of a character as the Unicode tables give it (trusted crate).
pub fn width(c: char) -> usize {
    unicode_width::UnicodeWidthChar::width(c).unwrap_or(0)
}
