//! Stand-in for the part of `clap` that gribber uses: definitions of arguments and their values.
use std::any::Any;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Mutex;

/// the command line after the program's name
pub static ARGS: Mutex<Vec<String>> = Mutex::new(vec![]);

type Value = Rc<dyn Any>;

#[derive(Clone, Copy)]
pub struct ValueParser(pub fn(&str) -> Option<Value>);
pub fn parse_as<T: FromStr + 'static>(s: &str) -> Option<Value> {
    s.parse::<T>().ok().map(|x| Rc::new(x) as Value)
}
#[macro_export]
macro_rules! value_parser {
    ($t:ty) => {
        $crate::ValueParser($crate::parse_as::<$t>)
    };
}

#[derive(Clone, Copy, PartialEq)]
pub enum ArgAction {
    Set,
    Append,
    SetTrue,
    SetFalse,
    Count,
}

#[derive(Clone)]
pub struct Arg {
    id: String,
    short: Option<char>,
    long: Option<String>,
    takes_value: bool,
    required: bool,
    action: Option<ArgAction>,
    parser: ValueParser,
    conflicts: Vec<String>,
}

impl Arg {
    pub fn new(id: impl Into<String>) -> Self {
        Arg { id: id.into(), short: None, long: None, takes_value: true, required: false, action: None, parser: ValueParser(parse_as::<String>), conflicts: vec![] }
    }
    #[doc(hidden)]
    pub fn made(id: &str, short: Option<&str>, long: Option<&str>, takes_value: bool) -> Self {
        let mut a = Arg::new(id);
        a.short = short.and_then(|s| s.chars().next());
        a.long = long.map(|s| s.to_string());
        a.takes_value = takes_value;
        a.required = takes_value;
        if !takes_value {
            a.action = Some(ArgAction::SetTrue);
        }
        a
    }
    pub fn short(mut self, c: char) -> Self {
        self.short = Some(c);
        self
    }
    pub fn long(mut self, s: impl Into<String>) -> Self {
        self.long = Some(s.into());
        self
    }
    pub fn help(self, _: &str) -> Self {
        self
    }
    pub fn value_name(self, _: &str) -> Self {
        self
    }
    pub fn required(mut self, r: bool) -> Self {
        self.required = r;
        self
    }
    pub fn action(mut self, a: ArgAction) -> Self {
        self.takes_value = matches!(a, ArgAction::Set | ArgAction::Append);
        self.action = Some(a);
        self
    }
    pub fn value_parser(mut self, p: ValueParser) -> Self {
        self.parser = p;
        self
    }
    pub fn conflicts_with(mut self, id: impl Into<String>) -> Self {
        self.conflicts.push(id.into());
        self
    }
    fn positional(&self) -> bool {
        self.short.is_none() && self.long.is_none()
    }
}

#[macro_export]
macro_rules! arg {
    (<$v:ident> $h:literal) => { $crate::Arg::made(stringify!($v), None, None, true) };
    ([$v:ident] $h:literal) => { $crate::Arg::made(stringify!($v), None, None, true).required(false) };
    (-$s:ident --$l:literal <$v:ident> $h:literal) => { $crate::Arg::made($l, Some(stringify!($s)), Some($l), true) };
    (-$s:ident --$l:ident <$v:ident> $h:literal) => { $crate::Arg::made(stringify!($l), Some(stringify!($s)), Some(stringify!($l)), true) };
    (-$s:ident --$l:literal $h:literal) => { $crate::Arg::made($l, Some(stringify!($s)), Some($l), false) };
    (-$s:ident --$l:ident $h:literal) => { $crate::Arg::made(stringify!($l), Some(stringify!($s)), Some(stringify!($l)), false) };
    (--$l:literal $h:literal) => { $crate::Arg::made($l, None, Some($l), false) };
    (--$l:ident $h:literal) => { $crate::Arg::made(stringify!($l), None, Some(stringify!($l)), false) };
}

#[derive(Clone)]
pub struct Command {
    name: String,
    args: Vec<Arg>,
    subs: Vec<Command>,
}

impl Command {
    pub fn new(name: impl Into<String>) -> Self {
        Command { name: name.into(), args: vec![], subs: vec![] }
    }
    pub fn about(self, _: &str) -> Self {
        self
    }
    pub fn version(self, _: &str) -> Self {
        self
    }
    pub fn after_help(self, _: &str) -> Self {
        self
    }
    pub fn arg_required_else_help(self, _: bool) -> Self {
        self
    }
    pub fn subcommand_required(self, _: bool) -> Self {
        self
    }
    pub fn arg(mut self, a: Arg) -> Self {
        self.args.push(a);
        self
    }
    pub fn args(mut self, a: impl IntoIterator<Item = Arg>) -> Self {
        self.args.extend(a);
        self
    }
    pub fn subcommand(mut self, c: Command) -> Self {
        self.subs.push(c);
        self
    }
    pub fn subcommands(mut self, c: impl IntoIterator<Item = Command>) -> Self {
        self.subs.extend(c);
        self
    }
    pub fn get_name(&self) -> &str {
        &self.name
    }
    pub fn get_matches(self) -> ArgMatches {
        let args = ARGS.lock().unwrap().clone();
        self.matches(&args).expect("the arguments are accepted")
    }
    /// None: clap would report the arguments as wrong
    pub fn matches(&self, args: &[String]) -> Option<ArgMatches> {
        let mut m = ArgMatches { values: BTreeMap::new(), sub: None };
        let mut left = self.args.iter().filter(|a| a.positional());
        let mut k = 0;
        while k < args.len() {
            let s = &args[k];
            k += 1;
            if !s.starts_with('-') || s.len() == 1 {
                if let Some(c) = self.subs.iter().find(|c| c.name == *s) {
                    m.sub = Some((c.name.clone(), Box::new(c.matches(&args[k..])?)));
                    break;
                }
                let a = left.next()?;
                m.values.insert(a.id.clone(), (true, (a.parser.0)(s)?));
                continue;
            }
            let a = match s.strip_prefix("--") {
                Some(l) => self.args.iter().find(|a| a.long.as_deref() == Some(l))?,
                None => self.args.iter().find(|a| a.short.is_some() && a.short == s.chars().nth(1))?,
            };
            let v = if a.takes_value {
                k += 1;
                (a.parser.0)(args.get(k - 1)?)?
            } else {
                Rc::new(a.action != Some(ArgAction::SetFalse))
            };
            m.values.insert(a.id.clone(), (true, v));
        }
        for a in &self.args {
            let given = m.values.contains_key(&a.id);
            if a.required && !given || given && a.conflicts.iter().any(|c| m.values.contains_key(c)) {
                return None;
            }
        }
        for a in self.args.iter().filter(|a| !a.takes_value) {
            m.values.entry(a.id.clone()).or_insert((false, Rc::new(a.action == Some(ArgAction::SetFalse))));
        }
        Some(m)
    }
}

#[derive(Clone)]
pub struct ArgMatches {
    values: BTreeMap<String, (bool, Value)>,
    sub: Option<(String, Box<ArgMatches>)>,
}

impl ArgMatches {
    pub fn get_one<T: 'static>(&self, id: &str) -> Option<&T> {
        self.values.get(id).map(|v| v.1.downcast_ref::<T>().expect("the type of the argument's value"))
    }
    pub fn get_flag(&self, id: &str) -> bool {
        *self.get_one::<bool>(id).expect("a flag")
    }
    pub fn contains_id(&self, id: &str) -> bool {
        self.values.contains_key(id)
    }
    pub fn subcommand(&self) -> Option<(&str, &ArgMatches)> {
        self.sub.as_ref().map(|s| (s.0.as_str(), &*s.1))
    }
    pub fn subcommand_name(&self) -> Option<&str> {
        self.sub.as_ref().map(|s| s.0.as_str())
    }
}
