//! Reference lexer, written from the documented token rules, sharing no code with the crate:
//! longest match at a position, with literal text as the remainder.
use yamd::lexer::TokenKind as K;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: K,
    pub start: usize,
    pub end: usize,
    pub row: usize,
    pub col: usize,
    pub escaped: bool,
}

impl Tok {
    pub fn len(&self) -> usize {
        self.end - self.start
    }
}

/// Runs of one or more of the same character form one token.
fn run_kind(c: u8) -> Option<K> {
    Some(match c {
        b'{' => K::LeftCurlyBrace,
        b'}' => K::RightCurlyBrace,
        b'~' => K::Tilde,
        b'*' => K::Star,
        b'-' => K::Minus,
        b'#' => K::Hash,
        b'>' => K::GreaterThan,
        b'!' => K::Bang,
        b'`' => K::Backtick,
        b'+' => K::Plus,
        _ => return None,
    })
}

fn single_kind(c: u8) -> Option<K> {
    Some(match c {
        b'[' => K::LeftSquareBracket,
        b']' => K::RightSquareBracket,
        b'(' => K::LeftParenthesis,
        b')' => K::RightParenthesis,
        b'_' => K::Underscore,
        b'|' => K::Pipe,
        _ => return None,
    })
}

/// Length of a line break at `i`, 0 if there is none.
pub fn brk(b: &[u8], i: usize) -> usize {
    match b.get(i) {
        Some(b'\n') => 1,
        Some(b'\r') if b.get(i + 1) == Some(&b'\n') => 2,
        _ => 0,
    }
}

/// Byte at `i` continues literal text (a multi-byte character is literal throughout).
fn continues_literal(b: &[u8], i: usize) -> bool {
    let Some(&c) = b.get(i) else { return false };
    if c == b'\\' || brk(b, i) > 0 || run_kind(c).is_some() || single_kind(c).is_some() {
        return false;
    }
    !(c == b'%' && b.get(i + 1) == Some(&b'}'))
}

fn char_len(b: &[u8], i: usize) -> usize {
    match b[i] {
        0x00..=0x7f => 1,
        0xc0..=0xdf => 2,
        0xe0..=0xef => 3,
        _ => 4,
    }
}

pub fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let n = b.len();
    let mut out: Vec<Tok> = Vec::new();
    let (mut row, mut col) = (0usize, 0usize);
    let mut i = 0;
    while i < n {
        let w = brk(b, i);
        if w > 0 {
            match out.last_mut() {
                Some(t) if t.kind == K::Eol => {
                    t.kind = K::Terminator;
                    t.end = i + w;
                }
                _ => out.push(Tok {
                    kind: K::Eol,
                    start: i,
                    end: i + w,
                    row,
                    col,
                    escaped: false,
                }),
            }
            row += 1;
            col = 0;
            i += w;
            continue;
        }
        let c = b[i];
        // (kind, end) of everything that is not literal text
        let fixed = if c == b'{' && b.get(i + 1) == Some(&b'%') {
            Some((K::CollapsibleStart, i + 2))
        } else if c == b'%' && b.get(i + 1) == Some(&b'}') {
            Some((K::CollapsibleEnd, i + 2))
        } else if let Some(k) = single_kind(c) {
            Some((k, i + 1))
        } else if c == b' ' || run_kind(c).is_some() {
            let mut j = i;
            while j < n && b[j] == c {
                j += 1;
            }
            Some((run_kind(c).unwrap_or(K::Space), j))
        } else {
            None
        };
        if let Some((kind, end)) = fixed {
            out.push(Tok {
                kind,
                start: i,
                end,
                row,
                col,
                escaped: false,
            });
            col += end - i;
            i = end;
            continue;
        }
        let escaped = c == b'\\';
        let start = if escaped { i + 1 } else { i };
        if start >= n {
            break; // a lone backslash at the very end escapes nothing
        }
        let mut j = start + char_len(b, start);
        while continues_literal(b, j) {
            j += char_len(b, j);
        }
        out.push(Tok {
            kind: K::Literal,
            start,
            end: j,
            row,
            col,
            escaped,
        });
        col += src[start..j].chars().count();
        i = j;
    }
    out
}
