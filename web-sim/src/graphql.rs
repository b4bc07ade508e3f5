//! What a GraphQL service makes of a request: the one field that is asked for, its arguments and what of it is wanted.
//! Written from the GraphQL specification (operations, arguments, variables, string values, selection sets).
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    P(char),
    Name(String),
    Str(String),
    Num(String),
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut o) = (0, vec![]);
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\n' | '\r' | ',' | '\u{feff}' => i += 1,
            '#' => {
                while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                    i += 1
                }
            }
            '"' if c[i..].starts_with(&['"', '"', '"']) => {
                // block string: its indentation is of no interest to single lines
                i += 3;
                let mut t = String::new();
                loop {
                    if c[i.min(c.len())..].starts_with(&['"', '"', '"']) {
                        i += 3;
                        break;
                    }
                    if c[i.min(c.len())..].starts_with(&['\\', '"', '"', '"']) {
                        t += "\"\"\"";
                        i += 4;
                        continue;
                    }
                    t.push(*c.get(i).ok_or("a block string without end")?);
                    i += 1;
                }
                o.push(Tok::Str(t.trim().into()));
            }
            '"' => {
                i += 1;
                let mut t = String::new();
                loop {
                    match c.get(i) {
                        None => return Err("a string without end".into()),
                        Some('"') => break,
                        Some('\n' | '\r') => return Err("a line break in a string".into()),
                        Some(x) if (*x as u32) < 0x20 && *x != '\t' => return Err("a control character in a string".into()),
                        Some('\\') => {
                            i += 1;
                            match c.get(i) {
                                Some('u') => {
                                    let unit = |i: usize| -> Result<u32, String> {
                                        let h: String = c.get(i..i + 4).ok_or("a short escape")?.iter().collect();
                                        u32::from_str_radix(&h, 16).map_err(|e| e.to_string())
                                    };
                                    let mut u = unit(i + 1)?;
                                    i += 4;
                                    if (0xd800..0xdc00).contains(&u) && c.get(i + 1..i + 3) == Some(&['\\', 'u']) {
                                        let l = unit(i + 3)?;
                                        i += 6;
                                        u = 0x10000 + ((u - 0xd800) << 10) + l.checked_sub(0xdc00).ok_or("a lone surrogate")?;
                                    }
                                    t.push(char::from_u32(u).ok_or("a lone surrogate")?);
                                }
                                Some('b') => t.push('\u{8}'),
                                Some('f') => t.push('\u{c}'),
                                Some('n') => t.push('\n'),
                                Some('r') => t.push('\r'),
                                Some('t') => t.push('\t'),
                                Some(x @ ('"' | '\\' | '/')) => t.push(*x),
                                _ => return Err("an unknown escape".into()),
                            }
                        }
                        Some(x) => t.push(*x),
                    }
                    i += 1;
                }
                i += 1;
                o.push(Tok::Str(t));
            }
            '{' | '}' | '(' | ')' | ':' | '$' | '!' | '=' | '[' | ']' | '@' => {
                o.push(Tok::P(c[i]));
                i += 1;
            }
            x if x.is_ascii_alphabetic() || x == '_' => {
                let b = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1
                }
                o.push(Tok::Name(c[b..i].iter().collect()));
            }
            x if x.is_ascii_digit() || x == '-' => {
                let b = i;
                i += 1;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '.') {
                    i += 1
                }
                o.push(Tok::Num(c[b..i].iter().collect()));
            }
            x => return Err(format!("unexpected {x:?}")),
        }
    }
    Ok(o)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Asked {
    pub mutation: bool,
    pub field: String,
    pub args: Map<String, Value>,
    /// paths of the leaves that are wanted
    pub wanted: Vec<String>,
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    vars: &'a Map<String, Value>,
}
impl P<'_> {
    fn is(&self, c: char) -> bool {
        self.t.get(self.i) == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        if !self.is(c) {
            return Err(format!("{c:?} is missing before {:?}", self.t.get(self.i)));
        }
        self.i += 1;
        Ok(())
    }
    fn name(&mut self) -> Result<String, String> {
        match self.t.get(self.i).cloned() {
            Some(Tok::Name(n)) => {
                self.i += 1;
                Ok(n)
            }
            t => Err(format!("a name is missing before {t:?}")),
        }
    }
    fn value(&mut self) -> Result<Value, String> {
        let t = self.t.get(self.i).cloned().ok_or("a value is missing")?;
        self.i += 1;
        Ok(match t {
            Tok::Str(s) => Value::from(s),
            Tok::Num(n) => serde_json::from_str(&n).map_err(|e| format!("{n}: {e}"))?,
            Tok::Name(n) => match n.as_str() {
                "true" => true.into(),
                "false" => false.into(),
                "null" => Value::Null,
                _ => Value::from(n),
            },
            Tok::P('$') => {
                let n = self.name()?;
                self.vars.get(&n).cloned().ok_or(format!("variable {n} is not given"))?
            }
            Tok::P('{') => {
                let mut m = Map::new();
                while !self.is('}') {
                    let n = self.name()?;
                    self.eat(':')?;
                    let v = self.value()?;
                    if m.insert(n.clone(), v).is_some() {
                        return Err(format!("{n} is given twice"));
                    }
                }
                self.i += 1;
                m.into()
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !self.is(']') {
                    v.push(self.value()?);
                }
                self.i += 1;
                v.into()
            }
            t => return Err(format!("unexpected {t:?}")),
        })
    }
    fn args(&mut self) -> Result<Map<String, Value>, String> {
        let mut m = Map::new();
        if self.is('(') {
            self.i += 1;
            while !self.is(')') {
                let n = self.name()?;
                self.eat(':')?;
                let v = self.value()?;
                if m.insert(n.clone(), v).is_some() {
                    return Err(format!("argument {n} is given twice"));
                }
            }
            self.i += 1;
        }
        Ok(m)
    }
    fn field(&mut self) -> Result<String, String> {
        let n = self.name()?;
        if self.is(':') {
            return Err("an alias".into());
        }
        Ok(n)
    }
    fn selection(&mut self, at: &str, o: &mut Vec<String>) -> Result<(), String> {
        self.eat('{')?;
        if self.is('}') {
            return Err("an empty selection".into());
        }
        while !self.is('}') {
            let n = self.field()?;
            self.args()?;
            let at = if at.is_empty() { n } else { format!("{at}.{n}") };
            if self.is('{') {
                self.selection(&at, o)?;
            } else {
                o.push(at);
            }
        }
        self.i += 1;
        Ok(())
    }
}

pub fn parse(body: &[u8]) -> Result<Asked, String> {
    let v: Value = serde_json::from_slice(body).map_err(|e| format!("the request is no JSON: {e}"))?;
    let q = v["query"].as_str().ok_or("no query")?;
    let none = Map::new();
    let vars = v["variables"].as_object().unwrap_or(&none);
    let mut p = P { t: lex(q)?, i: 0, vars };
    let mut mutation = false;
    if !p.is('{') {
        mutation = match p.name()?.as_str() {
            "mutation" => true,
            "query" => false,
            x => return Err(format!("unexpected {x}")),
        };
        if !p.is('{') && !p.is('(') {
            p.name()?;
        }
        if p.is('(') {
            p.i += 1;
            while !p.is(')') {
                p.eat('$')?;
                p.name()?;
                p.eat(':')?;
                while p.is('[') || p.is(']') || p.is('!') || matches!(p.t.get(p.i), Some(Tok::Name(_))) {
                    p.i += 1;
                }
                if p.is('=') {
                    p.i += 1;
                    p.value()?;
                }
            }
            p.i += 1;
        }
    }
    p.eat('{')?;
    let field = p.field()?;
    let args = p.args()?;
    let mut wanted = vec![];
    p.selection("", &mut wanted)?;
    p.eat('}')?;
    match p.t.get(p.i) {
        None => Ok(Asked { mutation, field, args, wanted }),
        t => Err(format!("unexpected {t:?} after the operation")),
    }
}
