//! Token printer: prints a token stream with one statement per line and splices
//! overlay text at the markers `__G!(n)`, `__I!(n)` (loop header) and `__S!(n)`.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub ghosts: &'a [String],
    pub out: String,
    ind: usize,
    glue: bool,
}

fn marker(ts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    // name ! ( N ) [;]
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
        (ts.get(i), ts.get(i + 1), ts.get(i + 2))
    {
        if id == name && p.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(ghosts: &'a [String]) -> Self {
        Self { ghosts, out: String::new(), ind: 0, glue: true }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
        self.glue = true;
    }
    fn word(&mut self, s: &str) {
        if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    fn splice(&mut self, n: usize) {
        for l in self.ghosts[n].trim_end().lines() {
            self.nl();
            self.out.push_str(l);
        }
        self.nl();
    }
    pub fn stream(&mut self, s: TokenStream) {
        let ts: Vec<TokenTree> = s.into_iter().collect();
        let mut i = 0;
        while i < ts.len() {
            if let Some(n) = marker(&ts, i, "__G") {
                self.splice(n);
                i += 3;
                if let Some(TokenTree::Punct(p)) = ts.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &ts[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut skip = 0;
                            for m in ["__I", "__S"] {
                                if let Some(n) = marker(&inner, 0, m) {
                                    self.splice(n);
                                    skip = 4;
                                }
                            }
                            self.word("{");
                            self.ind += 1;
                            self.nl();
                            self.stream(inner.into_iter().skip(skip).collect());
                            self.ind -= 1;
                            self.nl();
                            self.word("}");
                            // newline after a brace unless followed by punctuation / else
                            match ts.get(i + 1) {
                                Some(TokenTree::Punct(p)) if ",;.?)=".contains(p.as_char()) => {}
                                Some(TokenTree::Ident(id)) if id == "else" => {}
                                None => {}
                                _ => self.nl(),
                            }
                        }
                        d => {
                            let (o, c) = match d {
                                Delimiter::Parenthesis => ("(", ")"),
                                Delimiter::Bracket => ("[", "]"),
                                _ => ("", ""),
                            };
                            self.word(o);
                            self.glue = true;
                            self.stream(g.stream());
                            while self.out.ends_with(' ') {
                                self.out.pop();
                            }
                            self.out.push_str(c);
                            self.glue = false;
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == ';' {
                        self.out.push(';');
                        self.nl();
                    } else if c == ',' {
                        self.out.push(',');
                        self.glue = false;
                    } else if c == '.' {
                        self.out.push('.');
                        self.glue = true;
                    } else {
                        self.word(&c.to_string());
                        self.glue = p.spacing() == Spacing::Joint || c == '\'' || c == '&' || c == '*' || c == '!';
                    }
                }
                TokenTree::Ident(id) => {
                    self.word(&id.to_string());
                    if let Some(TokenTree::Punct(p)) = ts.get(i + 1) {
                        if p.as_char() == '.' || p.as_char() == ':' {
                            self.glue = true;
                        }
                    }
                    if let Some(TokenTree::Group(g)) = ts.get(i + 1) {
                        if g.delimiter() != Delimiter::Brace {
                            self.glue = true;
                        }
                    }
                }
                TokenTree::Literal(l) => self.word(&l.to_string()),
            }
            i += 1;
        }
    }
}

pub fn print(ts: TokenStream, ghosts: &[String]) -> String {
    let mut p = Printer::new(ghosts);
    p.stream(ts);
    p.out
}
