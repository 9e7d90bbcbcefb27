//! Runtime support for generated conformance programs.
use std::fmt;
/// The standard library, for crates that do not name it themselves.
pub use std as s;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Out {
    pub rows: Vec<(String, String)>,
}

impl Out {
    pub fn put(&mut self, k: &str, v: impl fmt::Display) {
        self.rows.push((k.to_string(), v.to_string()));
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run_all(cases: &[(&str, fn(&mut Out))]) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for (id, f) in cases {
        let mut out = Out::default();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut out)));
        for (k, v) in &out.rows {
            let _ = writeln!(w, "[{},{},{}]", json_str(id), json_str(k), json_str(v));
        }
        let tail = match r {
            Ok(()) => ("!done", String::from("ok")),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    String::from("?")
                };
                ("!panic", m)
            }
        };
        let _ = writeln!(w, "[{},{},{}]", json_str(id), json_str(tail.0), json_str(&tail.1));
        let _ = w.flush();
    }
}

/// A value whose rendering names the value, the formatting trait and every formatter option.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct P(pub &'static str);

/// The same with a lifetime and a const parameter.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct PG<'a, const N: usize>(pub &'a str);

pub fn flags(f: &fmt::Formatter) -> String {
    let mut s = String::new();
    match f.align() {
        None => {
            if f.fill() != ' ' {
                s.push_str(&format!("F{}", f.fill()));
            }
        }
        Some(a) => {
            s.push(f.fill());
            s.push(match a {
                fmt::Alignment::Left => '<',
                fmt::Alignment::Right => '>',
                fmt::Alignment::Center => '^',
            });
        }
    }
    if f.sign_plus() {
        s.push('+');
    }
    if f.sign_minus() {
        s.push('-');
    }
    if f.alternate() {
        s.push('#');
    }
    if f.sign_aware_zero_pad() {
        s.push('0');
    }
    if let Some(w) = f.width() {
        s.push_str(&format!("w{w}"));
    }
    if let Some(p) = f.precision() {
        s.push_str(&format!(".{p}"));
    }
    s
}

fn render(name: &str, tr: &str, f: &mut fmt::Formatter) -> fmt::Result {
    let fl = flags(f);
    f.write_str("<")?;
    f.write_str(name)?;
    f.write_str(tr)?;
    f.write_str(&fl)?;
    if tr == ":?:" {
        // The debug-hex mode is visible only through another Debug impl: 171 is "171", "ab" or "AB".
        let opts = f.width().is_none() && f.precision().is_none() && !f.alternate() && !f.sign_plus();
        if opts {
            fmt::Debug::fmt(&171u8, f)?;
        }
    }
    f.write_str(">")
}

macro_rules! probe {
    ($($tr:ident $name:literal),*) => {$(
        impl fmt::$tr for P {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                render(self.0, $name, f)
            }
        }
        impl<'a, const N: usize> fmt::$tr for PG<'a, N> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                render(self.0, $name, f)
            }
        }
    )*};
}
probe!(Display ":D:", Debug ":?:", Octal ":o:", LowerHex ":x:", UpperHex ":X:", Pointer ":p:", Binary ":b:", LowerExp ":e:", UpperExp ":E:");

impl std::error::Error for P {}

/// Whether a type implements a bound, decided by the compiler.
#[macro_export]
macro_rules! impls {
    ($t:ty : $($b:tt)*) => {{
        #[allow(dead_code)]
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for T {}
        #[allow(dead_code)]
        struct W<T: ?Sized>(::std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)*> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}
