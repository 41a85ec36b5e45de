//! Reference lexer: a direct transcription of the token table over an array of characters.

use conch_parser::parse::SourcePos;
use conch_parser::token::{Positional, Token};
use Token::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tk {
    pub tok: Token,
    pub pos: SourcePos,
}

pub fn single(c: char) -> Option<Token> {
    Some(match c {
        '\n' => Newline,
        '(' => ParenOpen,
        ')' => ParenClose,
        '{' => CurlyOpen,
        '}' => CurlyClose,
        '[' => SquareOpen,
        ']' => SquareClose,
        '!' => Bang,
        '~' => Tilde,
        '#' => Pound,
        '*' => Star,
        '?' => Question,
        '\\' => Backslash,
        '%' => Percent,
        '-' => Dash,
        '=' => Equals,
        '+' => Plus,
        ':' => Colon,
        '@' => At,
        '^' => Caret,
        '/' => Slash,
        ',' => Comma,
        '\'' => SingleQuote,
        '"' => DoubleQuote,
        '`' => Backtick,
        ';' => Semi,
        '&' => Amp,
        '|' => Pipe,
        '<' => Less,
        '>' => Great,
        '$' => Dollar,
        _ => return None,
    })
}

/// Multi-character operators, longest first.
const OPS: &[(&str, Token)] = &[
    ("<<-", DLessDash),
    ("&&", AndIf),
    ("||", OrIf),
    (";;", DSemi),
    ("<<", DLess),
    (">>", DGreat),
    (">&", GreatAnd),
    ("<&", LessAnd),
    (">|", Clobber),
    ("<>", LessGreat),
];

fn blank(c: char) -> bool {
    c != '\n' && c.is_whitespace()
}
pub fn name_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
pub fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit()
}
fn plain(c: char) -> bool {
    single(c).is_none() && !c.is_whitespace()
}

pub fn alone(c: char) -> Token {
    if let Some(t) = single(c) {
        t
    } else if c.is_whitespace() {
        Whitespace(c.to_string())
    } else if name_start(c) {
        Name(c.to_string())
    } else {
        Literal(c.to_string())
    }
}

/// The tokens of `src`.
pub fn tokens(src: &str) -> Vec<Token> {
    let cs: Vec<char> = src.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '\\' {
            out.push(Backslash);
            i += 1;
            if i < cs.len() {
                out.push(alone(cs[i]));
                i += 1;
            }
            continue;
        }
        if c == '$' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit() {
            out.push(ParamPositional(Positional::from_num(cs[i + 1] as u8 - b'0').unwrap()));
            i += 2;
            continue;
        }
        if let Some((s, t)) = OPS.iter().find(|(s, _)| s.chars().enumerate().all(|(k, d)| cs.get(i + k) == Some(&d))) {
            out.push(t.clone());
            i += s.len();
            continue;
        }
        if let Some(t) = single(c) {
            out.push(t);
            i += 1;
            continue;
        }
        let start = i;
        let rest: fn(char) -> bool = if blank(c) {
            blank
        } else if name_start(c) {
            name_char
        } else {
            plain
        };
        i += 1;
        while i < cs.len() && rest(cs[i]) {
            i += 1;
        }
        let text: String = cs[start..i].iter().collect();
        out.push(if blank(c) {
            Whitespace(text)
        } else if name_start(c) {
            Name(text)
        } else {
            Literal(text)
        });
    }
    out
}

/// Reference position arithmetic: offset in bytes, lines counted by newlines, columns in bytes since the newline.
pub fn advance(p: SourcePos, text: &str) -> SourcePos {
    let mut q = p;
    q.byte += text.len();
    let nl = text.bytes().filter(|&b| b == b'\n').count();
    if nl > 0 {
        q.line += nl;
        q.col = text.len() - text.rfind('\n').unwrap();
    } else {
        q.col += text.len();
    }
    q
}

pub fn origin() -> SourcePos {
    SourcePos { byte: 0, line: 1, col: 1 }
}

/// Tokens with positions, and the position of the end.
pub fn place(toks: &[Token]) -> (Vec<Tk>, SourcePos) {
    let mut p = origin();
    let mut v = Vec::with_capacity(toks.len());
    for t in toks {
        v.push(Tk { tok: t.clone(), pos: p });
        p = advance(p, t.as_str());
    }
    (v, p)
}

pub fn lex(src: &str) -> (Vec<Tk>, SourcePos) {
    place(&tokens(src))
}
