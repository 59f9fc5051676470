//! Prints a token stream with line breaks, so that verifier messages point at something readable.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn pretty(ts: TokenStream) -> String { let mut s = String::new(); go(ts, 0, &mut s, false); s }
fn nl(s: &mut String, d: usize) { while s.ends_with(' ') { s.pop(); } if !s.ends_with('\n') { s.push('\n') } for _ in 0..d { s.push_str("    ") } }
fn go(ts: TokenStream, d: usize, s: &mut String, flat: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Brace => ("{", "}"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                s.push_str(o);
                if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() {
                    let small = g.stream().to_string().len() < 60 && !g.stream().to_string().contains(';') && !g.stream().to_string().contains("=>");
                    if small { s.push(' '); go(g.stream(), d + 1, s, true); while s.ends_with(' ') { s.pop(); } s.push(' ') } else { nl(s, d + 1); go(g.stream(), d + 1, s, false); nl(s, d) }
                } else { go(g.stream(), d, s, flat || g.delimiter() != Delimiter::None); while s.ends_with(' ') { s.pop(); } }
                s.push_str(c); s.push(' ');
                if g.delimiter() == Delimiter::Brace && !flat {
                    let next = v.get(i + 1).map(|t| t.to_string()).unwrap_or_default();
                    if !matches!(next.as_str(), "else" | ";" | "," | "." | "?" | ")" | "=") && !next.is_empty() { nl(s, d) }
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if matches!(ch, ',' | ';' | '.' | '?') && p.spacing() == Spacing::Alone { while s.ends_with(' ') { s.pop(); } }
                s.push(ch);
                if p.spacing() == Spacing::Alone && !matches!(ch, '.' | '&' | '!' | '#' ) || ch == '!' && matches!(v.get(i+1), Some(TokenTree::Punct(q)) if q.as_char() == '=') && false { s.push(' ') }
                if ch == ';' && !flat { nl(s, d) }
                if ch == ',' && !flat { nl(s, d) }
            }
            TokenTree::Ident(x) => { s.push_str(&x.to_string()); s.push(' ') }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' ') }
        }
    }
}
