//! Generators: well-formed scene texts, and the storage and transfer faults applied to them.
use crate::rng::Rng;

#[derive(Clone)]
pub struct Style {
    pub unicode: bool,
    pub comments: usize,
    pub multiline: bool,
    pub wild_ws: bool,
    pub dense: bool,
    pub crlf: bool,
    pub exps: bool,
    pub max_dirs: usize,
    pub max_depth: usize,
    pub tricky: bool,
    /// Now and then a word, a type or a value as another program or another version of the format writes it.
    pub odd: bool,
    /// One dimension of the scene made large: (which, how large, how often left).
    pub big: (usize, usize, usize),
}

/// Words and numbers that occur in the source of the code under test (SIM_DICT): the seeded
/// search also tries these as names, values, counts and lengths.
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<usize>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { words: vec![], numbers: vec![] };
        if let Some(t) = std::env::var_os("SIM_DICT").and_then(|p| std::fs::read_to_string(p).ok()) {
            for l in t.lines() {
                if let Some(w) = l.strip_prefix("s ") {
                    d.words.push(w.into());
                } else if let Some(n) = l.strip_prefix("n ").and_then(|n| n.parse().ok()) {
                    d.numbers.push(n);
                }
            }
        }
        d
    })
}
/// A size at or next to one where an implementation might change its behaviour.
pub fn boundary(r: &mut Rng, max: usize) -> usize {
    let d = &dict().numbers;
    let n = if !d.is_empty() && r.chance(1, 3) {
        *r.pick(d)
    } else {
        match r.below(4) {
            0 => *r.pick(&[10, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 65536]),
            1 => 1 << r.range(3, 16),
            _ => r.size(max),
        }
    };
    (n + r.below(3)).saturating_sub(1).clamp(1, max)
}

impl Style {
    pub fn gen(r: &mut Rng) -> Style {
        Style {
            unicode: r.chance(1, 4),
            comments: *r.pick(&[0, 0, 3, 10, 40]),
            multiline: r.chance(1, 6),
            wild_ws: r.chance(1, 4),
            dense: r.chance(1, 6),
            crlf: r.chance(1, 8),
            exps: r.chance(1, 3),
            max_dirs: *r.pick(&[0, 1, 2, 3, 5, 8, 14, 25]),
            max_depth: *r.pick(&[0, 1, 1, 2, 3, 6]),
            tricky: r.chance(1, 4),
            odd: false,
            big: if r.chance(1, 12) { Self::gen_big(r) } else { (0, 0, 0) },
        }
    }
    fn gen_big(r: &mut Rng) -> (usize, usize, usize) {
        let which = r.range(1, BIG.len());
        let n = boundary(r, BIG[which - 1].1);
        (which, n, if n < 100 { r.range(1, 3) } else { 1 })
    }
    pub fn plain(max_dirs: usize) -> Style {
        Style {
            unicode: false, comments: 0, multiline: false, wild_ws: false, dense: false, crlf: false,
            exps: false, max_dirs, max_depth: 2, tricky: false, odd: false,
            big: (0, 0, 0),
        }
    }
}

/// Dimensions that can be made large, and how large.
pub const BIG: [(&str, usize); 11] = [
    ("values", 5000), ("parameters", 700), ("directives", 1500), ("options", 700), ("depth", 62), ("text", 5000),
    ("columns", 70000), ("rows", 70000), ("comment", 5000), ("name", 3000), ("digits", 400),
];
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub st: Style,
    pub out: String,
    col0: bool,
    budget: usize,
    last: String,
}

const ODD_TYPES: [&str; 28] = [
    "int", "Integer", "integers", "double", "Float", "floats", "point", "point2f", "point3", "point3f", "point4", "vector",
    "vector2f", "vector3", "vector3f", "normal", "normal3", "color", "rgbs", "RGB", "boolean", "Bool", "str", "spectra", "textures",
    "black", "matrix", "blackbodies",
];
const ODD_WORDS: [&str; 30] = [
    "Rotate", "ObjectBegin", "ObjectEnd", "ObjectInstance", "TransformTimes", "MediumInterface", "ReverseOrientation",
    "Attribute", "Area", "Light", "Texture2", "PixelFilters", "Version", "Option", "Import", "ColorSpace", "CoordSys",
    "Shape2", "Begin", "End", "World", "all", "true", "false", "nan", "inf", "NaN", "Infinity", "null", "e5",
];
const ODD_VALUES: [&str; 34] = [
    "\"true\"", "true", "\"1\"", "0", "1", "-1", "2", "1.5", ".", "-", "+", "--1", "+-1", "-+1", "++1", "1.5.2", "1e5", "1e", "1e+", "0x10",
    "1_000", "1,5", "1.0f", "nan", "inf", "-inf", "[", "]", "[]", "[[1]]", "\"\"", "()", "{1}", "1/2",
];
const NAMES: [&str; 24] = [
    "sphere", "radius", "Kd", "L", "glass", "matte", "checks", "fov", "uscale", "filename", "image", "perspective",
    "halton", "xresolution", "P", "indices", "from", "to", "sigma", "roughness", "x", "a1", "eta", "lambda",
];
const TRICKY: [&str; 16] = [
    "WorldEnd", "WorldBegin", "#notcomment", "[", "]", "true", "false", "float radius", "AttributeEnd", "",
    " ", "1", "-", "Shape", "a b c", "/abs/path/../x.pbrt",
];
const UNI: [&str; 10] = ["é", "日本", "ß", "😀", "\u{301}", "Ω", "naïve", "\u{a0}", "ﬁ", "\u{200b}"];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, st: Style) -> Self {
        let budget = st.max_dirs;
        Gen { r, st, out: String::new(), col0: true, budget, last: String::new() }
    }

    /// The size to use here if this dimension is the large one.
    fn big(&mut self, what: &str) -> Option<usize> {
        let (w, n, left) = self.st.big;
        if left == 0 || BIG[w - 1].0 != what || !self.r.chance(1, 3) {
            return None;
        }
        self.st.big.2 -= 1;
        Some(n)
    }

    fn sep(&mut self) {
        if let Some(n) = self.big("columns") {
            let c = if self.r.chance(1, 4) { "\t" } else { " " };
            self.out.push_str(&c.repeat(n));
        } else if let Some(n) = self.big("rows") {
            for _ in 0..n {
                self.nl();
            }
        } else if let Some(n) = self.big("comment") {
            self.out.push_str(" # ");
            self.out.push_str(&"x".repeat(n));
            self.nl();
        }
        if self.col0 && self.r.chance(1, 2) {
            return;
        }
        let n = self.r.below(100);
        if n < self.st.comments {
            self.out.push_str(" #");
            let k = self.r.below(4);
            for _ in 0..k {
                let w = if self.st.unicode && self.r.chance(1, 3) {
                    *self.r.pick(&UNI)
                } else {
                    *self.r.pick(&["x", "\"", " quoted \" ", "#", "[", "WorldEnd", "todo: fix", "Shape", "\\", "1.5"])
                };
                self.out.push_str(w);
            }
            self.nl();
            self.col0 = true;
            return;
        }
        if self.st.wild_ws {
            let k = self.r.range(1, 5);
            for _ in 0..k {
                match self.r.below(6) {
                    0 => self.nl(),
                    1 => self.out.push('\t'),
                    2 if self.st.unicode => self.out.push('\u{a0}'),
                    3 => self.out.push('\r'),
                    _ => self.out.push(' '),
                }
            }
            // a carriage return must not end up before a line feed by accident: harmless, but keep
            // the separator non-empty
            self.out.push(' ');
        } else if n > 92 {
            self.nl();
            self.out.push_str("    ");
        } else {
            self.out.push(' ');
        }
        self.col0 = false;
    }
    fn nl(&mut self) {
        self.out.push_str(if self.st.crlf { "\r\n" } else { "\n" });
    }
    pub fn word(&mut self, w: &str) {
        self.sep();
        let o = self.odd(w);
        self.out.push_str(o.as_deref().unwrap_or(w));
        self.col0 = false;
    }
    /// What stands in place of this word, in a text written by some other program.
    fn odd(&mut self, w: &str) -> Option<String> {
        if !self.st.odd || !self.r.chance(1, 30) {
            return None;
        }
        let d = &dict().words;
        if !d.is_empty() && self.r.chance(1, 4) {
            return Some(self.r.pick(d).clone());
        }
        let w = if w.chars().next().map_or(false, |c| c.is_alphabetic()) {
            match self.r.below(5) {
                0 => w.to_lowercase(),
                1 => format!("{}s", w),
                2 => w.trim_end_matches("Begin").trim_end_matches("End").to_string() + self.r.pick(&["Begin", "End"]),
                _ => self.r.pick(&ODD_WORDS).to_string(),
            }
        } else if w.starts_with('"') {
            match self.r.below(4) {
                0 => w.trim_matches('"').to_string(),
                1 => format!("'{}'", w.trim_matches('"')),
                _ => self.r.pick(&ODD_VALUES).to_string(),
            }
        } else {
            match self.r.below(6) {
                0 => format!("\"{}\"", w),
                1 => format!("[{}]", w),
                2 => format!("{}{}", w, self.r.pick(&[",", ";", "f", "%", ".", "e", "e+", "u", "L", ".0", "_", "-1", "+1"])),
                3 => format!("{}{}", self.r.pick(&["+", "-", "+-", "0x", "0", ".", "$", "=", "(", "-."]), w),
                _ => self.r.pick(&ODD_VALUES).to_string(),
            }
        };
        Some(w)
    }
    fn tight(&mut self, w: &str) {
        let o = self.odd(w);
        let w = o.as_deref().unwrap_or(w);
        if !(self.st.dense && self.r.chance(1, 2)) {
            self.sep();
        }
        self.out.push_str(w);
        self.col0 = false;
    }
    pub fn string(&mut self, v: &str) {
        let mut s = String::from("\"");
        for c in v.chars() {
            match c {
                '"' => s.push_str("\\\""),
                '\\' => s.push_str("\\\\"),
                '\n' if !self.st.multiline => s.push_str("\\n"),
                c if self.st.tricky && c != 'n' && !c.is_whitespace() && self.r.chance(1, 20) => {
                    s.push('\\');
                    s.push(c);
                }
                c => s.push(c),
            }
        }
        s.push('"');
        self.tight(&s);
    }
    pub fn name(&mut self) -> String {
        let d = &dict().words;
        let mut s = if !d.is_empty() && self.r.chance(1, 8) {
            let w = self.r.pick(d).clone();
            if w.is_empty() || w.contains(char::is_whitespace) { "P".to_string() } else { w }
        } else {
            self.r.pick(&NAMES).to_string()
        };
        if let Some(n) = self.big("name") {
            while s.len() < n {
                s.push((b'a' + self.r.below(26) as u8) as char);
            }
            return s;
        }
        if self.st.unicode && self.r.chance(1, 4) {
            s.push_str(*self.r.pick(&["é", "日本", "ß", "😀", "Ω"]));
        }
        if self.r.chance(1, 8) {
            s.push_str(&self.r.below(100).to_string());
        }
        s
    }
    /// Any mixture of characters.
    fn rich(&mut self) -> String {
        const P: [&str; 36] = [
            "a", "b", "Z", "0", "9", " ", " ", "  ", "\n", "\n", "\t", "\r", "\r\n", "\"", "\\", "\\n", "#", "[", "]", "-", ".", "e",
            "/", "_", ",", ":", "%", "é", "日", "😀", "\u{a0}", "\u{0}", "WorldEnd", "End", "float", "'",
        ];
        let n = if self.r.chance(1, 4) { self.r.size(90) } else { self.r.range(1, 7) };
        let k = self.r.range(2, P.len() - 1);
        let from = self.r.below(P.len());
        (0..n).map(|_| P[(from + self.r.below(k)) % P.len()]).collect()
    }
    fn text(&mut self) -> String {
        if self.r.chance(1, 12) {
            return self.rich();
        }
        if self.r.chance(1, 20) {
            // names that mean something to a shell, a file system or a loader
            let a = *self.r.pick(&["$", "${", "~/", "~", "%", "/", "./", "../", "//", "C:\\", "file://", "|", "@", "!", "-", "/proc/self/", "/dev/", ":"]);
            let b = if self.r.chance(1, 2) { self.name() } else { self.r.pick(&["HOME", "PATH", "USER", "PWD", "TMPDIR"]).to_string() };
            let c = *self.r.pick(&["", "", "}", "/x.pbrt", "}/x", "%", "/", ".gz", "/../x", "*"]);
            return format!("{}{}{}", a, b, c);
        }
        if self.r.chance(1, 40) {
            let n = self.r.range(8, 130);
            return "the quick brown fox jumps over the lazy dog/".chars().cycle().take(n).collect();
        }
        if self.st.tricky && self.r.chance(1, 3) {
            return self.r.pick(&TRICKY).to_string();
        }
        let d = &dict().words;
        if !d.is_empty() && self.r.chance(1, 10) {
            return self.r.pick(d).clone();
        }
        if let Some(n) = self.big("text") {
            let mut s = String::new();
            while s.len() < n {
                s.push(*self.r.pick(&['a', 'b', ' ', 'q', '/', 'z']));
            }
            return s;
        }
        let mut s = self.name();
        if self.r.chance(1, 5) {
            s.push_str(".pbrt");
        }
        if self.st.unicode && self.r.chance(1, 3) {
            s.push_str(*self.r.pick(&UNI));
        }
        if self.r.chance(1, 12) {
            s.push('\n');
            s.push('t');
        }
        if self.st.tricky && self.r.chance(1, 6) {
            s.push_str("\"\\");
        }
        s
    }
    fn int(&mut self) -> String {
        let d = &dict().numbers;
        if !d.is_empty() && self.r.chance(1, 16) {
            let v = *self.r.pick(d) as i64 + self.r.below(3) as i64 - 1;
            return if self.r.chance(1, 3) { -v } else { v }.to_string();
        }
        let v: i64 = match self.r.below(8) {
            0 => 0,
            1 => self.r.below(10) as i64,
            2 => -(self.r.below(1000) as i64),
            3 => (self.r.u64() >> self.r.range(1, 60)) as i64,
            4 => *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 1 << 31, -(1 << 31), 1 << 53]),
            _ => self.r.below(2000) as i64,
        };
        if self.st.exps && self.r.chance(1, 4) {
            return format!("{}e{}", self.r.below(100) as i64 - 20, self.r.below(16));
        }
        if v >= 0 && self.r.chance(1, 8) {
            return format!("+{}", v);
        }
        if v >= 0 && self.r.chance(1, 20) {
            return format!("00{}", v);
        }
        v.to_string()
    }
    pub fn float(&mut self) -> String {
        if let Some(n) = self.big("digits") {
            let k = self.r.below(n);
            return match self.r.below(3) {
                0 => format!("0.{}{}", "0".repeat(k.min(30)), "7".repeat(n)),
                1 => format!("{}.{}", "0".repeat(n), self.r.below(1000)),
                _ => format!("{}.{}", self.r.below(1000), "3".repeat(n)),
            };
        }
        let neg = if self.r.chance(1, 4) { "-" } else if self.r.chance(1, 12) { "+" } else { "" };
        let b = match self.r.below(8) {
            0 => return self.int_small(),
            7 => match self.r.below(6) {
                // as exporters print them: all digits a float or double can need
                0 => format!("{}", f32::from_bits(0x3000_0000 + self.r.below(0x2000_0000) as u32)),
                1 => format!("{:.17}", self.r.below(1 << 40) as f64 / 1e11),
                2 => format!("{}.{:09}", self.r.below(1 << 40), self.r.below(1_000_000_000)),
                // small times huge, huge times small, nothing times huge
                3 if self.st.exps => return format!("{}0.{}{}e{}", neg, "0".repeat(self.r.below(30)), 1 + self.r.below(999), self.r.range(30, 45)),
                4 if self.st.exps => return format!("{}{}{}.5e-{}", neg, 1 + self.r.below(999), "0".repeat(self.r.below(30)), self.r.range(30, 45)),
                5 if self.st.exps => return format!("{}{}e{}{}", neg, self.r.pick(&["0.0", ".0", "0.", "0.00"]), self.r.pick(&["", "-", "+"]), self.r.range(10, 400)),
                _ => format!("{:.9}", self.r.below(1 << 30) as f64 / 1e6),
            },
            1 => format!(".{}", self.r.below(1000)),
            2 => format!("{}.", self.r.below(1000)),
            3 => format!("{}.{:03}", self.r.below(1000), self.r.below(1000)),
            4 => format!("0.{:05}", self.r.below(100000)),
            _ => format!("{}.{}", self.r.below(50), self.r.below(10)),
        };
        if self.st.exps && self.r.chance(1, 3) {
            return match self.r.below(4) {
                0 => format!("{}{}e-{}", neg, b, self.r.below(12)),
                1 => format!("{}{}e+{}", neg, b, self.r.below(12)),
                2 => format!("{}{}e{}", neg, 1 + self.r.below(99), self.r.range(0, 30)),
                _ => format!("{}{}e{}", neg, b, self.r.below(12)),
            };
        }
        format!("{}{}", neg, b)
    }
    fn int_small(&mut self) -> String {
        (self.r.below(2000) as i64 - 500).to_string()
    }
    fn count(&mut self) -> usize {
        if let Some(n) = self.big("values") {
            return n;
        }
        match self.r.below(6) {
            0 => 1,
            5 => self.r.range(1, 20),
            _ => self.r.range(1, 5),
        }
    }
    fn list(&mut self, n: usize, f: fn(&mut Self) -> String) {
        self.tight("[");
        for i in 0..n {
            let v = f(self);
            if i == 0 {
                self.tight(&v);
            } else {
                self.word(&v);
            }
        }
        self.tight("]");
    }
    pub fn param(&mut self) {
        let kind = self.r.below(12);
        let ty = [
            "integer", "float", "point2", "vector2", "bool", "string", "rgb", "xyz", "spectrum", "blackbody",
            "texture", "spectrum",
        ][kind];
        let ty: String = if self.st.odd && self.r.chance(1, 8) {
            let d = &dict().words;
            match self.r.below(4) {
                0 | 1 => self.r.pick(&ODD_TYPES).to_string(),
                2 if !d.is_empty() => self.r.pick(d).clone(),
                _ => self.r.pick(&["integer", "float", "point2", "vector2", "bool", "string", "rgb", "xyz", "spectrum", "blackbody", "texture"]).to_string(),
            }
        } else {
            ty.to_string()
        };
        let n = if !self.last.is_empty() && self.r.chance(1, 6) { self.last.clone() } else { self.name() };
        self.last = n.clone();
        let decl = if (self.st.tricky || self.st.wild_ws) && self.r.chance(1, 6) {
{
                const W: [&str; 9] = ["", " ", "  ", "\t", "\n", "\u{a0}", "\r", "\u{2003}", " \t"];
                let (a, b, c) = (*self.r.pick(&W), *self.r.pick(&W[1..]), *self.r.pick(&W));
                format!("{}{}{}{}{}", a, ty, b, n, c)
            }
        } else {
            format!("{} {}", ty, n)
        };
        self.string(&decl);
        match kind {
            0 | 1 => {
                let f = if kind == 0 { Self::int } else { Self::float };
                if self.r.chance(1, 2) {
                    let v = f(self);
                    self.word(&v);
                } else {
                    let k = self.count();
                    self.list(k, f);
                }
            }
            2 | 3 => {
                let k = self.count();
                self.list(2 * k, Self::float);
            }
            4 | 5 => {
                if self.r.chance(1, 2) {
                    let v = if kind == 4 { self.bool() } else { self.text() };
                    self.string(&v);
                } else {
                    self.tight("[");
                    for _ in 0..self.count() {
                        let v = if kind == 4 { self.bool() } else { self.text() };
                        self.string(&v);
                    }
                    self.tight("]");
                }
            }
            6 | 7 => self.list(3, Self::float),
            8 => {
                let k = self.count();
                self.list(2 * k, Self::float);
            }
            9 => self.list(2, Self::float),
            10 | 11 => {
                let v = self.text();
                self.string(&v);
            }
            _ => unreachable!(),
        }
    }
    fn bool(&mut self) -> String {
        self.r.pick(&["true", "false"]).to_string()
    }
    pub fn params(&mut self) {
        let n = match self.big("parameters") {
            Some(n) => n,
            None => *self.r.pick(&[0, 0, 1, 1, 2, 3, 6]),
        };
        for _ in 0..n {
            self.param();
        }
    }
    fn floats(&mut self, n: usize) {
        for _ in 0..n {
            let v = self.float();
            self.word(&v);
        }
    }
    fn line(&mut self) {
        if self.r.chance(5, 6) {
            self.nl();
            self.col0 = true;
            if self.r.chance(1, 3) {
                self.out.push_str("  ");
            }
        }
    }
    pub fn pre(&mut self) {
        self.line();
        match self.r.below(18) {
            0 => self.word("Identity"),
            k @ 1..=2 => {
                self.word(["Translate", "Scale"][k - 1]);
                self.floats(3);
            }
            3 => {
                self.word("Rotate");
                self.floats(4);
            }
            k @ 4..=6 => {
                self.word(["LookAt", "Transform", "ConcatTransform"][k - 4]);
                self.floats(9);
            }
            k @ 7..=8 => {
                self.word(["CoordinateSystem", "CoordSysTransform"][k - 7]);
                let v = self.text();
                self.string(&v);
            }
            9 => {
                self.word("ActiveTransform");
                let w = *self.r.pick(&["StartTime", "EndTime", "All"]);
                self.word(w);
            }
            10 => {
                self.word("TransformTimes");
                self.floats(2);
            }
            k @ 11..=16 => {
                self.word(["Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator"][k - 11]);
                let v = self.text();
                self.string(&v);
                self.params();
            }
            _ => {
                self.word("Include");
                let v = self.text();
                self.string(&v);
            }
        }
    }
    pub fn directive(&mut self, depth: usize) {
        self.budget = self.budget.saturating_sub(1);
        self.line();
        let k = self.r.below(if depth < self.st.max_depth { 10 } else { 6 });
        match k {
            0..=3 => {
                self.word(["Material", "Shape", "LightSource", "AreaLightSource"][k]);
                let v = self.text();
                self.string(&v);
                self.params();
            }
            4 => {
                self.word("Include");
                let v = self.text();
                self.string(&v);
            }
            5 => {
                self.word("Texture");
                for _ in 0..3 {
                    let v = self.text();
                    self.string(&v);
                }
                self.params();
            }
            _ => {
                let b = *self.r.pick(&["Attribute", "Attribute", "Transform", "World"]);
                self.word(&format!("{}Begin", b));
                while self.budget > 0 && self.r.chance(3, 4) {
                    self.directive(depth + 1);
                }
                self.line();
                self.word(&format!("{}End", b));
            }
        }
    }
    /// A whole scene; the text ends in a random harmless tail after the world block.
    pub fn scene(mut self) -> String {
        let npre = match self.big("options") {
            Some(n) => n,
            None => *self.r.pick(&[0, 0, 1, 2, 4, 7]),
        };
        for _ in 0..npre {
            self.pre();
        }
        self.line();
        self.word("WorldBegin");
        if let Some(n) = self.big("directives") {
            self.budget = n;
        }
        let mut ends = vec![];
        if let Some(n) = self.big("depth") {
            for _ in 0..n {
                let b = *self.r.pick(&["Attribute", "Transform"]);
                self.line();
                self.word(&format!("{}Begin", b));
                ends.push(b);
            }
        }
        while self.budget > 0 {
            let d = ends.len();
            self.directive(d);
        }
        while let Some(b) = ends.pop() {
            self.line();
            self.word(&format!("{}End", b));
            if self.r.chance(1, 4) {
                let d = ends.len();
                self.directive(d);
            }
        }
        self.line();
        self.word("WorldEnd");
        match self.r.below(6) {
            0 => {}
            1 => self.nl(),
            2 => {
                self.nl();
                self.out.push_str("# end\n\n");
            }
            3 => {
                for _ in 0..self.r.range(1, 6) {
                    let w = *self.r.pick(&["\n", "  ", "# é日本 \" end\n", "#\n", "\t\n", "# [ \\\n", "\u{a0}", "\r\n"]);
                    self.out.push_str(w);
                }
            }
            4 => self.out.push_str("# last words"),
            _ => self.out.push_str("  \n"),
        }
        if self.r.chance(1, 25) {
            return aligned(self.r, self.out);
        }
        self.out
    }
}

pub fn scene(r: &mut Rng) -> String {
    let st = Style::gen(r);
    Gen::new(r, st).scene()
}

/// A comment line before the text, so long that what is at `off` (or next to it) comes to lie at the end of a
/// buffer of some usual size.  `endings`: how much longer each line ending is going to be.
pub fn pad_to(r: &mut Rng, text: &str, off: usize, endings: usize) -> String {
    let b = 1usize << *r.pick(&[6, 8, 9, 10, 10, 11, 12, 12, 13, 13, 14, 16]);
    let want = r.below(3); // the character before, at, or after the boundary
    let need = (off + 3 + endings + want) % b;
    let pad = (b - need) % b + 1;
    let mut s = String::from("#");
    s.push_str(&"x".repeat(pad));
    s.push('\n');
    s.push_str(text);
    s
}

/// Some place of the text at the end of a buffer.
fn aligned(r: &mut Rng, text: String) -> String {
    let marks: Vec<usize> = text.char_indices().filter(|(_, c)| !c.is_ascii_alphabetic() && *c != ' ').map(|x| x.0).collect();
    let at = if marks.is_empty() || r.chance(1, 3) { r.below(text.len() + 1) } else { *r.pick(&marks) };
    let off = if r.chance(1, 2) { at } else { text.char_indices().filter(|x| x.0 < at).count() };
    pad_to(r, &text, off, 0)
}

/// The same scene with some characters of words and numbers changed in place (same length):
/// neighbours that a careless cache key would confuse.
pub fn neighbour(r: &mut Rng, text: &str) -> String {
    let mut v: Vec<char> = text.chars().collect();
    let digits: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
    if !digits.is_empty() && r.chance(3, 4) {
        let n = r.range(1, 3);
        for _ in 0..n {
            let i = *r.pick(&digits);
            v[i] = (b'0' + r.below(10) as u8) as char;
        }
    } else {
        let low: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_lowercase()).collect();
        if !low.is_empty() {
            let i = *r.pick(&low);
            v[i] = (b'a' + r.below(26) as u8) as char;
        }
    }
    v.into_iter().collect()
}

/// A scene of nested blocks, `depth` deep, with something before and after each inner block.
pub fn nested(r: &mut Rng, depth: usize) -> String {
    let mut s = String::from("WorldBegin\n");
    let mut ends = vec![];
    for i in 0..depth {
        let b = *r.pick(&["Attribute", "Transform"]);
        s.push_str(&format!("{}Begin Shape \"s{}\" \"float radius\" {}\n", b, i, i));
        ends.push(b);
    }
    while let Some(b) = ends.pop() {
        s.push_str(&format!("{}End Material \"m{}\"\n", b, ends.len()));
    }
    s.push_str("WorldEnd\n");
    s
}

// ---------------------------------------------------------------- faults

pub const FAULTS: [&str; 20] = [
    "truncate", "bit-flip", "range-lost", "range-blanked", "range-zeroed", "range-duplicated", "ranges-swapped",
    "stale-range", "crashed-save", "word-lost", "word-duplicated", "words-swapped", "line-lost", "line-duplicated",
    "byte-replaced", "byte-inserted", "stuck-byte", "mis-decoded", "word-from-elsewhere", "number-mangled",
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub kind: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
}

impl Fault {
    pub fn gen(r: &mut Rng, len: usize) -> Fault {
        let kind = r.range(1, FAULTS.len() - 1);
        let b = match r.below(12) {
            // a sector, a page, any part of the text
            0 => *r.pick(&[512, 4096]),
            1 => r.size(len.max(64)),
            _ => r.size(64),
        };
        Fault { kind, a: r.below(len.max(1) * 8), b, c: r.u64() as usize >> 8 }
    }
    pub fn name(&self) -> &'static str {
        FAULTS[self.kind]
    }
}

/// Byte ranges of words: strings, brackets, or runs of other non-blank characters.
pub fn words(t: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if c == b'#' {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if c == b'"' {
            let s = i;
            i += 1;
            while i < t.len() && t[i] != b'"' {
                if t[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(t.len());
            v.push((s, i));
        } else if c == b'[' || c == b']' {
            v.push((i, i + 1));
            i += 1;
        } else {
            let s = i;
            while i < t.len() && !t[i].is_ascii_whitespace() && !b"[]\"#".contains(&t[i]) {
                i += 1;
            }
            v.push((s, i));
        }
    }
    v
}

fn lines(t: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for (i, c) in t.iter().enumerate() {
        if *c == b'\n' {
            v.push((s, i + 1));
            s = i + 1;
        }
    }
    if s < t.len() {
        v.push((s, t.len()));
    }
    v
}

const SPICE: [&str; 28] = [
    "\"", "[", "]", "#", ".", "-", "+", "e", "E", "0", "9", "\\", " ", "\n", "\r", "\t", "é", "½", "٣", "x", "_", "\u{0}",
    "WorldEnd ", " AttributeBegin ", "1e5", "1e400", "\u{feff}", ",",
];

pub fn apply(f: &Fault, t: &[u8], old: &[u8]) -> Vec<u8> {
    let n = t.len();
    if n == 0 {
        return vec![];
    }
    let mut v = t.to_vec();
    let at = f.a / 8 % n;
    let end = (at + f.b).min(n);
    let ws = words(t);
    let ls = lines(t);
    let w = |k: usize| ws[k % ws.len()];
    match FAULTS[f.kind] {
        "truncate" => v.truncate(at),
        "bit-flip" => v[at] ^= 1 << (f.a % 8),
        "range-lost" => {
            v.drain(at..end);
        }
        "range-blanked" => v[at..end].fill(b' '),
        "range-zeroed" => v[at..end].fill(0),
        "range-duplicated" => {
            let d = t[at..end].to_vec();
            let to = if f.c % 2 == 0 { end } else { f.c / 2 % (n + 1) };
            v.splice(to..to, d);
        }
        "ranges-swapped" => {
            let to = f.c % n;
            let l = f.b.min(n - to.max(at));
            for i in 0..l {
                v.swap(at + i, to + i);
            }
        }
        "stale-range" => {
            for i in at..end {
                v[i] = *old.get(i).unwrap_or(&b' ');
            }
        }
        "crashed-save" => {
            // the new text was being written over the old one, sector by sector, in some order
            let sec = f.b.max(4);
            let total = n.max(old.len());
            let secs = (total + sec - 1) / sec;
            let keep = f.a % (secs + 1);
            let mut order: Vec<usize> = (0..secs).collect();
            if f.c % 3 == 0 {
                let mut r = Rng::new(f.c as u64, 7, 7);
                for i in (1..secs).rev() {
                    order.swap(i, r.below(i + 1));
                }
            }
            let len = if f.c % 2 == 0 { n } else { old.len() };
            let mut d: Vec<u8> = (0..total).map(|i| *old.get(i).unwrap_or(&0)).collect();
            for s in &order[..keep] {
                for i in s * sec..((s + 1) * sec).min(n) {
                    d[i] = t[i];
                }
            }
            d.truncate(len);
            v = d;
        }
        "word-lost" if !ws.is_empty() => {
            let (s, e) = w(f.a);
            v.drain(s..e);
        }
        "word-duplicated" if !ws.is_empty() => {
            let (s, e) = w(f.a);
            let mut d = t[s..e].to_vec();
            d.insert(0, b' ');
            v.splice(e..e, d);
        }
        "words-swapped" if ws.len() > 1 => {
            let i = f.a % (ws.len() - 1);
            let j = if f.c % 2 == 0 { i + 1 } else { f.c / 2 % ws.len() };
            let (i, j) = (i.min(j), i.max(j));
            if i != j {
                let (a, b) = (ws[i], ws[j]);
                v = [&t[..a.0], &t[b.0..b.1], &t[a.1..b.0], &t[a.0..a.1], &t[b.1..]].concat();
            }
        }
        "line-lost" if !ls.is_empty() => {
            let (s, e) = ls[f.a % ls.len()];
            v.drain(s..e);
        }
        "line-duplicated" if !ls.is_empty() => {
            let (s, e) = ls[f.a % ls.len()];
            let d = t[s..e].to_vec();
            v.splice(e..e, d);
        }
        "byte-replaced" => {
            let x = SPICE[f.c % SPICE.len()].as_bytes();
            v.splice(at..at + 1, x.iter().cloned());
        }
        "byte-inserted" => {
            let x = SPICE[f.c % SPICE.len()].as_bytes();
            v.splice(at..at, x.iter().cloned());
        }
        "stuck-byte" => {
            let b = v[at];
            v[at..end].fill(b);
        }
        "mis-decoded" => {
            // one byte read as a Latin-1 character and written back as UTF-8
            let mut o = vec![];
            for (i, b) in t.iter().enumerate() {
                if i == at || *b >= 128 {
                    let c = char::from(if *b < 128 { *b | 0x80 } else { *b });
                    let mut buf = [0; 4];
                    o.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                } else {
                    o.push(*b);
                }
            }
            v = o;
        }
        "word-from-elsewhere" if !ws.is_empty() => {
            let (s, e) = w(f.a);
            let (p, q) = w(f.c);
            let d = t[p..q].to_vec();
            v.splice(s..e, d);
        }
        "number-mangled" => {
            let nums: Vec<(usize, usize)> =
                ws.iter().cloned().filter(|(s, _)| t[*s].is_ascii_digit() || t[*s] == b'-' || t[*s] == b'.').collect();
            if !nums.is_empty() {
                let (s, e) = nums[f.a % nums.len()];
                let x = [
                    "1e20", "1e19", "9223372036854775807", "9223372036854775808", "1e4294967296", "-1e30", "1e-30",
                    "1e18", "9e18", "10e18", "-9e18", "1.5e", "1..5", "--1", "+-1", "1e+", "1e--5", "-", ".", "+", "1e2e3",
                    "1e2.5", "0x10", "1,5", "1_000", "NaN", "inf", "1E5", "1.e3", "-.5e1", "1e99999999999999999999", "- 1",
                    "922337203685477580e1", "0e30", "1e28", "00", "-0",
                ];
                let d = x[f.c % x.len()].as_bytes().to_vec();
                v.splice(s..e, d);
            }
        }
        _ => {}
    }
    v
}

/// Applies all faults; returns the delivered text and which faults changed anything.
pub fn deliver(text: &str, old: &str, faults: &[Fault]) -> (String, Vec<bool>) {
    let mut v = text.as_bytes().to_vec();
    let mut fired = vec![];
    for f in faults {
        let n = apply(f, &v, old.as_bytes());
        fired.push(n != v);
        v = n;
        if v.len() > 300_000 {
            v.truncate(300_000);
        }
    }
    (String::from_utf8_lossy(&v).into_owned(), fired)
}
