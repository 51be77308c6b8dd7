//! JSON output. A double is written as the two 32-bit halves of its bits; a
//! vector of doubles as the flat list of halves.
use std::fmt::Write;

pub struct J(pub String);

impl J {
    pub fn new() -> J {
        J(String::new())
    }
    fn sep(&mut self) {
        match self.0.as_bytes().last() {
            None | Some(b'{') | Some(b'[') | Some(b':') => {}
            _ => self.0.push(','),
        }
    }
    pub fn obj(&mut self) -> &mut J {
        self.sep();
        self.0.push('{');
        self
    }
    pub fn end(&mut self) -> &mut J {
        self.0.push('}');
        self
    }
    pub fn arr(&mut self) -> &mut J {
        self.sep();
        self.0.push('[');
        self
    }
    pub fn enda(&mut self) -> &mut J {
        self.0.push(']');
        self
    }
    pub fn key(&mut self, k: &str) -> &mut J {
        self.sep();
        write!(self.0, "\"{}\":", k).unwrap();
        self
    }
    pub fn int(&mut self, v: i64) -> &mut J {
        self.sep();
        let v = v.clamp(i32::MIN as i64, i32::MAX as i64);
        write!(self.0, "{}", v).unwrap();
        self
    }
    pub fn str(&mut self, v: &str) -> &mut J {
        self.sep();
        let v: String = v
            .chars()
            .map(|c| {
                if c.is_ascii_alphanumeric() || " .,:;+-_=()[]<>/'*".contains(c) {
                    c
                } else {
                    '_'
                }
            })
            .collect();
        write!(self.0, "\"{}\"", v).unwrap();
        self
    }
    pub fn bool(&mut self, v: bool) -> &mut J {
        self.sep();
        self.0.push_str(if v { "true" } else { "false" });
        self
    }
    fn half(&mut self, v: f64) {
        // One bit pattern for all NaNs.
        let b = if v.is_nan() {
            0x7ff8000000000000
        } else {
            v.to_bits()
        };
        self.sep();
        write!(self.0, "{},{}", (b >> 32) as i32, b as u32 as i32).unwrap();
    }
    pub fn num(&mut self, v: f64) -> &mut J {
        self.arr();
        self.half(v);
        self.enda()
    }
    pub fn vec<'a>(&mut self, v: impl IntoIterator<Item = &'a f64>) -> &mut J {
        self.arr();
        for x in v {
            self.half(*x);
        }
        self.enda()
    }
    pub fn ints(&mut self, v: &[usize]) -> &mut J {
        self.arr();
        for x in v {
            self.int(*x as i64);
        }
        self.enda()
    }
}
