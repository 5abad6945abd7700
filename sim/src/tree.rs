//! Generic trees: the debug rendering of a scene read back into a tree, and comparison with the
//! tree the reference model expects.  Field order and unknown extra fields are ignored.

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Struct(String, Vec<(String, Node)>),
    Tuple(String, Vec<Node>),
    List(Vec<Node>),
    /// Any literal, verbatim.
    Leaf(String),
    /// Expected only: a floating-point value.
    Num(f64),
}

pub fn pos(r: usize, c: usize) -> Node {
    Node::Struct("Pos".into(), vec![("r".into(), leaf(r)), ("c".into(), leaf(c))])
}
pub fn leaf<T: std::fmt::Debug>(v: T) -> Node {
    Node::Leaf(format!("{:?}", v))
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Option<Node> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let n = p.value()?;
    p.ws();
    if p.i == p.s.len() {
        Some(n)
    } else {
        None
    }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn list(&mut self, close: u8) -> Option<Vec<Node>> {
        self.i += 1;
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == close {
                self.i += 1;
                return Some(v);
            }
            v.push(self.value()?);
            self.ws();
            if self.peek() == b',' {
                self.i += 1;
            } else if self.peek() != close {
                return None;
            }
        }
    }
    fn value(&mut self) -> Option<Node> {
        self.ws();
        match self.peek() {
            b'[' => Some(Node::List(self.list(b']')?)),
            b'(' => Some(Node::Tuple(String::new(), self.list(b')')?)),
            b'"' => {
                let st = self.i;
                self.i += 1;
                loop {
                    match self.peek() {
                        b'\\' => self.i += 2,
                        b'"' => {
                            self.i += 1;
                            break;
                        }
                        _ => self.i += 1,
                    }
                    if self.i > self.s.len() {
                        return None;
                    }
                }
                Some(Node::Leaf(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()))
            }
            _ => {
                let st = self.i;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric() || b"_-+.".contains(&self.s[self.i]))
                {
                    self.i += 1;
                }
                if st == self.i {
                    return None;
                }
                let w = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                if !w.as_bytes()[0].is_ascii_alphabetic() || matches!(&w[..], "true" | "false" | "inf" | "NaN") {
                    return Some(Node::Leaf(w));
                }
                if self.peek() == b'(' {
                    return Some(Node::Tuple(w, self.list(b')')?));
                }
                let save = self.i;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut f = vec![];
                    loop {
                        self.ws();
                        if self.peek() == b'}' {
                            self.i += 1;
                            return Some(Node::Struct(w, f));
                        }
                        let a = self.i;
                        while self.peek() != b':' {
                            self.i += 1;
                            if self.i >= self.s.len() {
                                return None;
                            }
                        }
                        let name = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
                        self.i += 1;
                        f.push((name, self.value()?));
                        self.ws();
                        if self.peek() == b',' {
                            self.i += 1;
                        }
                    }
                }
                self.i = save;
                Some(Node::Leaf(w))
            }
        }
    }
}

/// Tolerance: a few units in the last place of the crate's floating-point type.
fn close(want: f64, got: &str) -> bool {
    let Ok(g) = got.parse::<f64>() else { return false };
    let eps = if cfg!(feature = "f64") { 1e-15 } else { 5e-7 };
    // NaN: a number whose value the format leaves open
    want.is_nan() || want == g || (want - g).abs() <= eps * want.abs()
}

/// None if equal, otherwise where and how they differ.
pub fn diff(want: &Node, got: &Node, path: &str) -> Option<String> {
    match (want, got) {
        (Node::Num(w), Node::Leaf(g)) => {
            if close(*w, g) {
                None
            } else {
                Some(format!("{}: expected {} but got {}", path, w, g))
            }
        }
        (Node::Leaf(w), Node::Leaf(g)) => {
            if w == g {
                None
            } else {
                Some(format!("{}: expected {} but got {}", path, w, g))
            }
        }
        (Node::List(w), Node::List(g)) => seq(w, g, path),
        (Node::Tuple(a, w), Node::Tuple(b, g)) => {
            if a != b {
                return Some(format!("{}: expected {} but got {}", path, a, b));
            }
            seq(w, g, &format!("{}/{}", path, a))
        }
        (Node::Struct(a, w), Node::Struct(b, g)) => {
            if a != b {
                return Some(format!("{}: expected {} but got {}", path, a, b));
            }
            for (n, v) in w {
                match g.iter().find(|x| &x.0 == n) {
                    None => return Some(format!("{}: field {} missing", path, n)),
                    Some(x) => {
                        if let Some(d) = diff(v, &x.1, &format!("{}/{}.{}", path, a, n)) {
                            return Some(d);
                        }
                    }
                }
            }
            None
        }
        _ => Some(format!("{}: expected {} but got {}", path, brief(want), brief(got))),
    }
}

fn seq(w: &[Node], g: &[Node], path: &str) -> Option<String> {
    for (i, (a, b)) in w.iter().zip(g).enumerate() {
        if let Some(d) = diff(a, b, &format!("{}[{}]", path, i)) {
            return Some(d);
        }
    }
    if w.len() != g.len() {
        return Some(format!("{}: expected {} items but got {}", path, w.len(), g.len()));
    }
    None
}

pub fn brief(n: &Node) -> String {
    let s = format!("{:?}", n);
    s.chars().take(80).collect()
}

/// The tree with every parameter set cut out.
pub fn without_params(n: &Node) -> Node {
    match n {
        Node::Struct(name, _) if name == "ParamSet" => Node::Leaf("ParamSet".into()),
        Node::Struct(name, f) => {
            Node::Struct(name.clone(), f.iter().map(|(k, v)| (k.clone(), without_params(v))).collect())
        }
        Node::Tuple(name, v) => Node::Tuple(name.clone(), v.iter().map(without_params).collect()),
        Node::List(v) => Node::List(v.iter().map(without_params).collect()),
        x => x.clone(),
    }
}

/// The parameter sets in document order.
pub fn params<'a>(n: &'a Node, out: &mut Vec<&'a Node>) {
    match n {
        Node::Struct(name, _) if name == "ParamSet" => out.push(n),
        Node::Struct(_, f) => f.iter().for_each(|x| params(&x.1, out)),
        Node::Tuple(_, v) | Node::List(v) => v.iter().for_each(|x| params(x, out)),
        _ => {}
    }
}
