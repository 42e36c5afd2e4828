//! Stand-in for `regex`: leftmost-first matching by backtracking of the usual syntax. Patterns
//! beyond it are errors.
#[derive(Debug, Clone)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone)]
enum Node {
    /// (negated, ranges)
    Class(bool, Vec<(char, char)>),
    Start,
    End,
    Group(Option<usize>, Vec<Vec<Node>>),
    Repeat(Box<Node>, usize, usize, bool),
}

#[derive(Debug, Clone)]
pub struct Regex {
    alts: Vec<Vec<Node>>,
    groups: usize,
    names: Vec<(String, usize)>,
}

struct Parser {
    s: Vec<char>,
    i: usize,
    x: bool,
    groups: usize,
    names: Vec<(String, usize)>,
}

fn escape(c: char) -> Result<Vec<(char, char)>, Error> {
    Ok(match c {
        'd' => vec![('0', '9'), ('\u{660}', '\u{669}'), ('\u{966}', '\u{96f}'), ('\u{ff10}', '\u{ff19}')],
        's' => vec![(' ', ' '), ('\t', '\r')],
        'w' => vec![('0', '9'), ('A', 'Z'), ('_', '_'), ('a', 'z')],
        'n' => vec![('\n', '\n')],
        't' => vec![('\t', '\t')],
        'r' => vec![('\r', '\r')],
        c if !c.is_alphanumeric() => vec![(c, c)],
        _ => return Err(Error("escape not supported by the stand-in")),
    })
}

impl Parser {
    fn peek(&mut self) -> Option<char> {
        while self.x && self.i < self.s.len() {
            if self.s[self.i].is_whitespace() {
                self.i += 1;
            } else if self.s[self.i] == '#' {
                while self.i < self.s.len() && self.s[self.i] != '\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
        self.s.get(self.i).copied()
    }
    fn take(&mut self) -> Result<char, Error> {
        let c = self.s.get(self.i).copied().ok_or(Error("pattern ends early"))?;
        self.i += 1;
        Ok(c)
    }
    fn alts(&mut self) -> Result<Vec<Vec<Node>>, Error> {
        let mut r = vec![vec![]];
        loop {
            match self.peek() {
                None | Some(')') => return Ok(r),
                Some('|') => {
                    self.i += 1;
                    r.push(vec![]);
                }
                Some(_) => {
                    let Some(n) = self.atom()? else { continue };
                    let n = self.repeat(n)?;
                    r.last_mut().unwrap().push(n);
                }
            }
        }
    }
    fn repeat(&mut self, n: Node) -> Result<Node, Error> {
        let (lo, hi) = match self.peek() {
            Some('*') => (0, usize::MAX),
            Some('+') => (1, usize::MAX),
            Some('?') => (0, 1),
            Some('{') => {
                self.i += 1;
                let mut v = vec![String::new()];
                loop {
                    match self.take()? {
                        '}' => break,
                        ',' => v.push(String::new()),
                        c => v.last_mut().unwrap().push(c),
                    }
                }
                self.i -= 1;
                let num = |s: &str| s.trim().parse::<usize>().map_err(|_| Error("repetition count"));
                let lo = num(&v[0])?;
                (lo, if v.len() == 1 { lo } else if v[1].is_empty() { usize::MAX } else { num(&v[1])? })
            }
            _ => return Ok(n),
        };
        self.i += 1;
        let lazy = self.peek() == Some('?');
        if lazy {
            self.i += 1;
        }
        Ok(Node::Repeat(Box::new(n), lo, hi, lazy))
    }
    fn atom(&mut self) -> Result<Option<Node>, Error> {
        Ok(Some(match self.take()? {
            '^' => Node::Start,
            '$' => Node::End,
            '.' => Node::Class(true, vec![('\n', '\n')]),
            '\\' => match self.take()? {
                'A' => Node::Start,
                'z' => Node::End,
                'D' => Node::Class(true, escape('d')?),
                'S' => Node::Class(true, escape('s')?),
                'W' => Node::Class(true, escape('w')?),
                c => Node::Class(false, escape(c)?),
            },
            '[' => {
                let mut r = vec![];
                let neg = self.s.get(self.i) == Some(&'^');
                if neg {
                    self.i += 1;
                }
                loop {
                    let c = self.take()?;
                    match c {
                        ']' if !r.is_empty() => break,
                        '[' | '&' | '~' => return Err(Error("class not supported by the stand-in")),
                        '\\' => {
                            let c = self.take()?;
                            r.extend(escape(c)?);
                        }
                        c if self.x && c.is_whitespace() => {}
                        c => {
                            if self.s.get(self.i) == Some(&'-') && self.s.get(self.i + 1).is_some_and(|c| *c != ']') {
                                self.i += 1;
                                r.push((c, self.take()?));
                            } else {
                                r.push((c, c));
                            }
                        }
                    }
                }
                Node::Class(neg, r)
            }
            '(' => {
                let mut k = None;
                if self.s.get(self.i) == Some(&'?') {
                    self.i += 1;
                    match self.take()? {
                        ':' => {}
                        'x' if self.s.get(self.i) == Some(&')') => {
                            self.i += 1;
                            self.x = true;
                            return Ok(None);
                        }
                        c => {
                            if c == 'P' {
                                self.take()?;
                            } else if c != '<' {
                                return Err(Error("group not supported by the stand-in"));
                            }
                            let mut n = String::new();
                            loop {
                                match self.take()? {
                                    '>' => break,
                                    c => n.push(c),
                                }
                            }
                            self.groups += 1;
                            self.names.push((n, self.groups));
                            k = Some(self.groups);
                        }
                    }
                } else {
                    self.groups += 1;
                    k = Some(self.groups);
                }
                let a = self.alts()?;
                if self.take()? != ')' {
                    return Err(Error("group is not closed"));
                }
                Node::Group(k, a)
            }
            '*' | '+' | '?' | '{' => return Err(Error("repetition of nothing")),
            c => Node::Class(false, vec![(c, c)]),
        }))
    }
}

type Caps = Vec<Option<(usize, usize)>>;

/// Matches the nodes at `i`, then calls `then`.
fn run(ns: &[Node], s: &str, i: usize, caps: &mut Caps, then: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    let Some(n) = ns.first() else { return then(i, caps) };
    let rest = &ns[1..];
    match n {
        Node::Start => i == 0 && run(rest, s, i, caps, then),
        Node::End => i == s.len() && run(rest, s, i, caps, then),
        Node::Class(neg, r) => match s[i..].chars().next() {
            Some(c) if r.iter().any(|r| r.0 <= c && c <= r.1) != *neg => run(rest, s, i + c.len_utf8(), caps, then),
            _ => false,
        },
        Node::Group(k, alts) => alts.iter().any(|a| {
            let old = k.and_then(|k| caps[k]);
            let r = run(a, s, i, caps, &mut |j, caps| {
                let before = k.and_then(|k| caps[k]);
                if let Some(k) = *k {
                    caps[k] = Some((i, j));
                }
                let r = run(rest, s, j, caps, then);
                if !r {
                    if let Some(k) = *k {
                        caps[k] = before;
                    }
                }
                r
            });
            if !r {
                if let Some(k) = *k {
                    caps[k] = old;
                }
            }
            r
        }),
        Node::Repeat(n, lo, hi, lazy) => repeat(n, *lo, *hi, *lazy, 0, rest, s, i, caps, then),
    }
}

fn repeat(n: &Node, lo: usize, hi: usize, lazy: bool, done: usize, rest: &[Node], s: &str, i: usize, caps: &mut Caps, then: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    if done >= lo && lazy && run(rest, s, i, caps, then) {
        return true;
    }
    if done < hi
        && run(std::slice::from_ref(n), s, i, caps, &mut |j, caps| j > i && repeat(n, lo, hi, lazy, done + 1, rest, s, j, caps, then))
    {
        return true;
    }
    done >= lo && !lazy && run(rest, s, i, caps, then)
}

impl Regex {
    pub fn new(p: &str) -> Result<Self, Error> {
        let mut q = Parser { s: p.chars().collect(), i: 0, x: false, groups: 0, names: vec![] };
        let alts = q.alts()?;
        if q.i < q.s.len() {
            return Err(Error("unopened group"));
        }
        Ok(Regex { alts, groups: q.groups, names: q.names })
    }
    pub fn captures<'h>(&self, s: &'h str) -> Option<Captures<'h>> {
        for (i, _) in s.char_indices().chain([(s.len(), ' ')]) {
            for a in &self.alts {
                let mut caps: Caps = vec![None; self.groups + 1];
                let mut got = None;
                if run(a, s, i, &mut caps, &mut |j, c| {
                    got = Some((j, c.clone()));
                    true
                }) {
                    let (j, mut c) = got.unwrap();
                    c[0] = Some((i, j));
                    return Some(Captures { s, c, names: self.names.clone() });
                }
            }
        }
        None
    }
    pub fn is_match(&self, s: &str) -> bool {
        self.captures(s).is_some()
    }
}

#[derive(Debug)]
pub struct Captures<'h> {
    s: &'h str,
    c: Caps,
    names: Vec<(String, usize)>,
}
#[derive(Debug, Clone, Copy)]
pub struct Match<'h>(&'h str, usize, usize);
impl<'h> Match<'h> {
    pub fn as_str(&self) -> &'h str {
        &self.0[self.1..self.2]
    }
    pub fn start(&self) -> usize {
        self.1
    }
    pub fn end(&self) -> usize {
        self.2
    }
}
impl<'h> Captures<'h> {
    pub fn get(&self, k: usize) -> Option<Match<'h>> {
        self.c.get(k).copied().flatten().map(|r| Match(self.s, r.0, r.1))
    }
    pub fn name(&self, n: &str) -> Option<Match<'h>> {
        self.names.iter().find(|x| x.0 == n).and_then(|x| self.get(x.1))
    }
    pub fn len(&self) -> usize {
        self.c.len()
    }
}
impl std::ops::Index<usize> for Captures<'_> {
    type Output = str;
    fn index(&self, k: usize) -> &str {
        let r = self.c[k].expect("a group that matched");
        &self.s[r.0..r.1]
    }
}
impl std::ops::Index<&str> for Captures<'_> {
    type Output = str;
    fn index(&self, n: &str) -> &str {
        let r = self.names.iter().find(|x| x.0 == n).and_then(|x| self.c[x.1]).expect("a group that matched");
        &self.s[r.0..r.1]
    }
}
