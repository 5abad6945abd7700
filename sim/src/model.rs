//! Reference model: what a delivered text says.  Written from the scene format, independently of
//! the code under test (recursive descent over a complete token list, no shared code).
use crate::tree::{leaf, pos, Node};

pub const FLOAT_MAX_EXP: i64 = if cfg!(feature = "f64") { 300 } else { 36 };

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Int(i64),
    /// Written as a whole number with exponent, but beyond the integer range.
    Big(f64),
    Flt(f64),
    /// A number whose meaning the format leaves open (odd exponents, out of range).
    Odd,
    Str(String),
    LB,
    RB,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub r: usize,
    pub c: usize,
    pub t: T,
}

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// A word that cannot be read: its first and last line/column (the last is one past the end).
    pub bad: Option<((usize, usize), (usize, usize))>,
    /// One past the last character.
    pub end: (usize, usize),
    pub lines: Vec<usize>,
}

pub fn lex(text: &str) -> Lexed {
    let mut ch: Vec<char> = vec![];
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' && it.peek() == Some(&'\n') {
            continue;
        }
        ch.push(c);
    }
    let mut at = Vec::with_capacity(ch.len() + 1);
    let (mut r, mut c) = (1, 1);
    let mut lines = vec![0];
    for x in &ch {
        at.push((r, c));
        if *x == '\n' {
            r += 1;
            c = 1;
            lines.push(0);
        } else {
            c += 1;
            *lines.last_mut().unwrap() += 1;
        }
    }
    at.push((r, c));
    let n = ch.len();
    let mut toks = vec![];
    let mut bad = None;
    let mut i = 0;
    while i < n {
        let x = ch[i];
        let st = i;
        let t = if x.is_whitespace() {
            i += 1;
            continue;
        } else if x == '#' {
            while i < n && ch[i] != '\n' {
                i += 1;
            }
            continue;
        } else if x == '[' {
            i += 1;
            T::LB
        } else if x == ']' {
            i += 1;
            T::RB
        } else if x == '"' {
            i += 1;
            let mut s = String::new();
            let mut closed = false;
            while i < n {
                if ch[i] == '"' {
                    i += 1;
                    closed = true;
                    break;
                }
                if ch[i] == '\\' {
                    i += 1;
                    if i < n {
                        s.push(if ch[i] == 'n' { '\n' } else { ch[i] });
                        i += 1;
                    }
                } else {
                    s.push(ch[i]);
                    i += 1;
                }
            }
            if !closed {
                bad = Some((at[st], at[n]));
                break;
            }
            T::Str(s)
        } else if x == '-' || x == '+' || x == '.' || x.is_numeric() {
            match number(&ch, &mut i) {
                Some(t) => t,
                None => {
                    bad = Some((at[st], at[i.min(n)]));
                    break;
                }
            }
        } else if x.is_alphabetic() {
            let mut s = String::new();
            while i < n && ch[i].is_alphanumeric() {
                s.push(ch[i]);
                i += 1;
            }
            T::Id(s)
        } else {
            bad = Some((at[st], at[st + 1]));
            break;
        };
        toks.push(Tok { r: at[st].0, c: at[st].1, t });
    }
    Lexed { toks, bad, end: at[n], lines }
}

/// [sign] digits [. digits] [e [sign] digits]
fn number(ch: &[char], i: &mut usize) -> Option<T> {
    let n = ch.len();
    let at = |k: usize| if k < n { ch[k] } else { '\0' };
    let mut m = String::new();
    if at(*i) == '-' {
        m.push('-');
        *i += 1;
    } else if at(*i) == '+' {
        *i += 1;
    }
    let mut dots = 0;
    let mut digits = 0;
    let mut odd_digit = false;
    while at(*i).is_numeric() || at(*i) == '.' {
        if at(*i) == '.' {
            dots += 1;
            if dots > 1 {
                *i += 1;
                return None;
            }
        } else {
            digits += 1;
            odd_digit |= !at(*i).is_ascii_digit();
        }
        m.push(at(*i));
        *i += 1;
    }
    if at(*i) == 'e' {
        *i += 1;
        let mut e = String::new();
        let mut plain = true;
        if at(*i) == '-' || at(*i) == '+' {
            e.push(at(*i));
            *i += 1;
        }
        let st = *i;
        while at(*i).is_ascii_digit() {
            e.push(at(*i));
            *i += 1;
        }
        if st == *i {
            plain = false;
        }
        // a further dot, exponent or foreign digit: open
        let mut tail = false;
        while at(*i).is_numeric() || at(*i) == '.' || at(*i) == 'e' || (tail && (at(*i) == '-' || at(*i) == '+') && at(*i - 1) == 'e') {
            tail = true;
            *i += 1;
        }
        if tail {
            if digits == 0 || odd_digit {
                return None;
            }
            return Some(T::Odd);
        }
        if !plain || digits == 0 || odd_digit {
            return None;
        }
        let exp: i64 = match e.parse() {
            Ok(x) if (-999_999..1_000_000).contains(&x) => x,
            _ => return Some(T::Odd),
        };
        let v: f64 = format!("{}e{}", m.trim_end_matches('.'), exp).parse().unwrap_or(f64::NAN);
        let mag = v.abs();
        let lim = 10f64.powi(FLOAT_MAX_EXP as i32);
        let nothing = !m.chars().any(|c| matches!(c, '1'..='9'));
        // beyond the range of the floating-point type: open
        if !(mag <= lim) || (!nothing && mag < 1.0 / lim) {
            return Some(T::Odd);
        }
        if dots == 0 && exp >= 0 {
            let mant: i128 = match m.parse::<i64>() {
                Ok(x) => x.into(),
                Err(_) => return Some(T::Odd),
            };
            let whole = if exp <= 25 { mant.checked_mul(10i128.pow(exp as u32)) } else { None };
            return Some(match whole {
                Some(w) if w >= i64::MIN as i128 && w <= i64::MAX as i128 => T::Int(w as i64),
                _ if mant == 0 => T::Odd,
                _ => T::Big(v),
            });
        }
        return Some(T::Flt(v));
    }
    if digits == 0 || odd_digit {
        return None;
    }
    if dots == 0 {
        return Some(match m.parse::<i64>() {
            Ok(v) => T::Int(v),
            Err(_) => T::Odd,
        });
    }
    let v: f64 = m.parse().ok()?;
    let lim = 10f64.powi(FLOAT_MAX_EXP as i32);
    if v.abs() > lim || (v.abs() < 1.0 / lim && m.chars().any(|c| matches!(c, '1'..='9'))) {
        return Some(T::Odd);
    }
    Some(T::Flt(v))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why {
    Structure,
    Param,
    Lexical,
}

#[derive(Debug)]
pub enum Verdict {
    /// The text is a scene; `free`: something after the world block may also be refused.
    Accept { tree: Node, free: bool },
    Reject { why: Why, tok: usize },
    /// The format leaves the answer open.
    Open,
}

enum E {
    Bad(Why, usize),
    Open,
}
type R<X> = Result<X, E>;

struct M<'a> {
    t: &'a [Tok],
    i: usize,
    lexbad: bool,
    odd: bool,
    depth: usize,
}

const PARAM_FIELDS: [&str; 11] = [
    "bools", "ints", "floats", "point2fs", "vector2fs", "point3fs", "vector3fs", "normal3fs", "spectra",
    "strings", "textures",
];

pub fn read(text: &str) -> (Verdict, Lexed) {
    let lx = lex(text);
    let v = judge(&lx);
    (v, lx)
}

pub fn judge(lx: &Lexed) -> Verdict {
    let mut m = M { t: &lx.toks, i: 0, lexbad: lx.bad.is_some(), odd: false, depth: 0 };
    let res = m.scene();
    match res {
        Ok(tree) => {
            // a number whose value is open may be refused; if accepted, the rest must be right
            let free = m.odd || m.i < m.t.len() || m.lexbad;
            Verdict::Accept { tree, free }
        }
        Err(E::Bad(why, tok)) => Verdict::Reject { why, tok },
        Err(E::Open) => Verdict::Open,
    }
}

impl<'a> M<'a> {
    fn bad<X>(&self, w: Why) -> R<X> {
        if self.i >= self.t.len() && self.lexbad {
            return Err(E::Bad(Why::Lexical, self.i));
        }
        Err(E::Bad(w, self.i))
    }
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i).map(|x| &x.t)
    }
    fn here(&self) -> Node {
        let t = &self.t[self.i];
        pos(t.r, t.c)
    }
    fn id(&mut self) -> Option<&'a str> {
        if let Some(T::Id(s)) = self.peek() {
            self.i += 1;
            return Some(s);
        }
        None
    }
    fn string(&mut self, w: Why) -> R<String> {
        if let Some(T::Str(s)) = self.peek() {
            self.i += 1;
            return Ok(s.clone());
        }
        self.bad(w)
    }
    fn number(&mut self) -> Option<f64> {
        let v = match self.peek() {
            Some(T::Int(v)) => *v as f64,
            Some(T::Flt(v)) | Some(T::Big(v)) => *v,
            Some(T::Odd) => {
                self.odd = true;
                f64::NAN
            }
            _ => return None,
        };
        self.i += 1;
        Some(v)
    }
    fn numbers(&mut self, n: usize) -> R<Vec<f64>> {
        let st = self.i;
        let mut v = vec![];
        while let Some(x) = self.number() {
            v.push(x);
        }
        if v.len() != n {
            if v.is_empty() && self.i >= self.t.len() {
                return self.bad(Why::Structure);
            }
            return Err(E::Bad(Why::Structure, st.saturating_sub(1)));
        }
        Ok(v)
    }
    /// [ item item ... ] with at least one item.
    fn list<X>(&mut self, f: fn(&mut Self) -> R<Option<X>>) -> R<Vec<X>> {
        if self.peek() != Some(&T::LB) {
            return self.bad(Why::Param);
        }
        self.i += 1;
        let mut v = vec![];
        loop {
            if self.peek() == Some(&T::RB) {
                if v.is_empty() {
                    return self.bad(Why::Param);
                }
                self.i += 1;
                return Ok(v);
            }
            match f(self)? {
                Some(x) => v.push(x),
                None => return self.bad(Why::Param),
            }
        }
    }
    fn one_or_list<X>(&mut self, f: fn(&mut Self) -> R<Option<X>>) -> R<Vec<X>> {
        if self.peek() == Some(&T::LB) {
            return self.list(f);
        }
        match f(self)? {
            Some(x) => Ok(vec![x]),
            None => self.bad(Why::Param),
        }
    }
    fn flt(&mut self) -> R<Option<Node>> {
        Ok(self.number().map(Node::Num))
    }
    fn int(&mut self) -> R<Option<Node>> {
        match self.peek() {
            Some(T::Int(v)) => {
                self.i += 1;
                Ok(Some(leaf(*v)))
            }
            Some(T::Odd) => {
                self.i += 1;
                self.odd = true;
                Ok(Some(Node::Num(f64::NAN)))
            }
            _ => Ok(None),
        }
    }
    fn boolean(&mut self) -> R<Option<Node>> {
        if let Some(T::Str(s)) = self.peek() {
            if s == "true" || s == "false" {
                self.i += 1;
                return Ok(Some(Node::Leaf(s.clone())));
            }
        }
        Ok(None)
    }
    fn strv(&mut self) -> R<Option<Node>> {
        if let Some(T::Str(s)) = self.peek() {
            self.i += 1;
            return Ok(Some(leaf(s)));
        }
        Ok(None)
    }
    fn pair(&mut self, name: &str) -> R<Option<Node>> {
        let Some(x) = self.number() else { return Ok(None) };
        let Some(y) = self.number() else { return Ok(None) };
        Ok(Some(Node::Struct(
            name.into(),
            vec![("x".into(), Node::Num(x)), ("y".into(), Node::Num(y))],
        )))
    }
    fn point2(&mut self) -> R<Option<Node>> {
        self.pair("Point2")
    }
    fn vector2(&mut self) -> R<Option<Node>> {
        self.pair("Vector2")
    }
    fn fixed(&mut self, n: usize, name: &str) -> R<Node> {
        let v = self.list(Self::flt)?;
        if v.len() != n {
            return Err(E::Bad(Why::Param, self.i.saturating_sub(1)));
        }
        Ok(Node::Tuple(name.into(), v))
    }

    fn params(&mut self) -> R<Node> {
        let mut sets: Vec<Vec<Node>> = vec![vec![]; PARAM_FIELDS.len()];
        while let Some(T::Str(s)) = self.peek() {
            let p = self.here();
            let w: Vec<&str> = s.split_whitespace().collect();
            if w.len() != 2 {
                return self.bad(Why::Param);
            }
            let known = [
                "integer", "float", "point2", "vector2", "bool", "string", "rgb", "xyz", "spectrum",
                "blackbody", "texture",
            ];
            if !known.contains(&w[0]) {
                return self.bad(Why::Param);
            }
            self.i += 1;
            let (field, values) = match w[0] {
                "integer" => ("ints", self.one_or_list(Self::int)?),
                "float" => ("floats", self.one_or_list(Self::flt)?),
                "point2" => ("point2fs", self.list(Self::point2)?),
                "vector2" => ("vector2fs", self.list(Self::vector2)?),
                "bool" => ("bools", self.one_or_list(Self::boolean)?),
                "string" => ("strings", self.one_or_list(Self::strv)?),
                "rgb" => ("spectra", vec![self.fixed(3, "Rgb")?]),
                "xyz" => ("spectra", vec![self.fixed(3, "Xyz")?]),
                "blackbody" => ("spectra", vec![self.fixed(2, "Blackbody")?]),
                "texture" => ("textures", vec![leaf(self.string(Why::Param)?)]),
                _ => {
                    if let Some(T::Str(f)) = self.peek() {
                        self.i += 1;
                        ("spectra", vec![Node::Tuple("File".into(), vec![leaf(std::path::PathBuf::from(f))])])
                    } else {
                        let v = self.list(Self::flt)?;
                        if v.len() % 2 != 0 {
                            return Err(E::Bad(Why::Param, self.i.saturating_sub(1)));
                        }
                        let pairs = v.chunks(2).map(|c| Node::Tuple(String::new(), c.to_vec())).collect();
                        ("spectra", vec![Node::Tuple("Spectrum".into(), vec![Node::List(pairs)])])
                    }
                }
            };
            let k = PARAM_FIELDS.iter().position(|x| *x == field).unwrap();
            sets[k].push(Node::Struct(
                "Param".into(),
                vec![("name".into(), leaf(w[1])), ("pos".into(), p), ("values".into(), Node::List(values))],
            ));
        }
        Ok(Node::Struct(
            "ParamSet".into(),
            PARAM_FIELDS.iter().zip(sets).map(|(n, s)| (n.to_string(), Node::List(s))).collect(),
        ))
    }

    fn simple(&mut self, kind: &str, p: Node) -> R<Node> {
        let ty = self.string(Why::Structure)?;
        let ps = self.params()?;
        Ok(Node::Tuple(
            kind.into(),
            vec![Node::Struct(
                "DirectiveStruct".into(),
                vec![("ty".into(), leaf(ty)), ("pos".into(), p), ("param_set".into(), ps)],
            )],
        ))
    }

    fn mat3(v: &[f64]) -> Node {
        let rows = v.chunks(3).map(|r| Node::List(r.iter().map(|x| Node::Num(*x)).collect())).collect();
        Node::Struct("Matrix3".into(), vec![("mat".into(), Node::List(rows))])
    }
    fn vec3(v: &[f64]) -> Node {
        Node::Struct(
            "Vector3".into(),
            vec![("x".into(), Node::Num(v[0])), ("y".into(), Node::Num(v[1])), ("z".into(), Node::Num(v[2]))],
        )
    }

    fn pre(&mut self) -> R<Node> {
        let p = self.here();
        let Some(id) = self.id() else { return self.bad(Why::Structure) };
        let tup = |v: Vec<Node>| Ok(Node::Tuple(id.into(), v));
        match id {
            "Identity" => tup(vec![p]),
            "Translate" | "Scale" => {
                let v = self.numbers(3)?;
                tup(vec![p, Self::vec3(&v)])
            }
            "Rotate" => {
                let v = self.numbers(4)?;
                tup(vec![p, Node::Num(v[0]), Self::vec3(&v[1..])])
            }
            "LookAt" | "Transform" | "ConcatTransform" => {
                let v = self.numbers(9)?;
                tup(vec![p, Self::mat3(&v)])
            }
            "CoordinateSystem" | "CoordSysTransform" => {
                let s = self.string(Why::Structure)?;
                tup(vec![p, leaf(s)])
            }
            "ActiveTransform" => match self.id() {
                Some(s) => tup(vec![p, leaf(s)]),
                None => self.bad(Why::Structure),
            },
            "TransformTimes" => {
                let v = self.numbers(2)?;
                tup(vec![p, Node::Num(v[0]), Node::Num(v[1])])
            }
            "Camera" | "Sampler" | "Film" | "Filter" | "Integrator" | "Accelerator" => self.simple(id, p),
            "Include" => {
                let s = self.string(Why::Structure)?;
                tup(vec![p, leaf(std::path::PathBuf::from(s))])
            }
            _ => {
                self.i -= 1;
                self.bad(Why::Structure)
            }
        }
    }

    fn block(&mut self, kind: &str, p: Node) -> R<Node> {
        // how deep blocks may nest is left open beyond 64
        if self.depth == 64 {
            return Err(E::Open);
        }
        self.depth += 1;
        let end = format!("{}End", kind);
        let mut ch = vec![];
        loop {
            match self.peek() {
                Some(T::Id(s)) if *s == end => {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(Node::Tuple(
                        kind.into(),
                        vec![Node::Struct(
                            "BlockStruct".into(),
                            vec![("pos".into(), p), ("children".into(), Node::List(ch))],
                        )],
                    ));
                }
                Some(T::Id(_)) => ch.push(self.directive()?),
                _ => return self.bad(Why::Structure),
            }
        }
    }

    fn directive(&mut self) -> R<Node> {
        let p = self.here();
        let Some(id) = self.id() else { return self.bad(Why::Structure) };
        match id {
            "Material" | "Shape" | "LightSource" | "AreaLightSource" => self.simple(id, p),
            "AttributeBegin" => self.block("Attribute", p),
            "TransformBegin" => self.block("Transform", p),
            "WorldBegin" => self.block("World", p),
            "Include" => {
                let s = self.string(Why::Structure)?;
                Ok(Node::Tuple("Include".into(), vec![p, leaf(std::path::PathBuf::from(s))]))
            }
            "Texture" => {
                let n = self.string(Why::Structure)?;
                let t = self.string(Why::Structure)?;
                let c = self.string(Why::Structure)?;
                let ps = self.params()?;
                Ok(Node::Tuple(
                    "Texture".into(),
                    vec![Node::Struct(
                        "TextureStruct".into(),
                        vec![
                            ("name".into(), leaf(n)),
                            ("ty".into(), leaf(t)),
                            ("class".into(), leaf(c)),
                            ("pos".into(), p),
                            ("param_set".into(), ps),
                        ],
                    )],
                ))
            }
            _ => {
                self.i -= 1;
                self.bad(Why::Structure)
            }
        }
    }

    fn scene(&mut self) -> R<Node> {
        let mut pre = vec![];
        loop {
            match self.peek() {
                Some(T::Id(s)) if s == "WorldBegin" => break,
                Some(T::Id(_)) => pre.push(self.pre()?),
                _ => return self.bad(Why::Structure),
            }
        }
        let w = self.directive()?;
        Ok(Node::Tuple(String::new(), vec![Node::List(pre), w]))
    }
}
