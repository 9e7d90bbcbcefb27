//! Runs the real derive of /repo in-process on a stream of declarations.
//! stdin: one JSON array [id, source] per line; stdout: [id, kind, messages, output] per line, where kind is
//! "ok" (no diagnostic), "err" (the expansion carries compile_error!), "panic", or "input" (not a declaration).
//! `--parse`: stdin lines [id, source] are checked to be well-formed Rust items (needs feature synfull).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// `__NONE__( tokens )` stands for an invisible group, as around a macro_rules fragment.
fn invisible(ts: TokenStream) -> TokenStream {
    let mut out = Vec::new();
    let mut it = ts.into_iter().peekable();
    while let Some(tt) = it.next() {
        match tt {
            TokenTree::Ident(id) if id == "__NONE__" => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    out.push(TokenTree::Group(Group::new(Delimiter::None, invisible(g.stream()))));
                }
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), invisible(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

/// The messages of compile_error! invocations at the top level of the expansion.
fn diagnostics(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "compile_error" {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                    if p.as_char() == '!' {
                        let m = match syn::parse2::<syn::LitStr>(g.stream()) {
                            Ok(l) => l.value(),
                            Err(_) => g.stream().to_string(),
                        };
                        out.push(m);
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            if g.delimiter() == Delimiter::None {
                diagnostics(g.stream(), out);
            }
        }
    }
}

/// Why an expansion is not a sequence of Rust items.
fn misshapen(out: TokenStream) -> Option<String> {
    #[cfg(feature = "synfull")]
    {
        syn::parse2::<syn::File>(out).err().map(|e| e.to_string())
    }
    #[cfg(not(feature = "synfull"))]
    {
        let _ = out;
        None
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let want_out = args.iter().any(|a| a == "--out");
    let wellformed = args.iter().any(|a| a == "--wellformed");
    let parse_only = args.iter().any(|a| a == "--parse");
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let (id, src): (String, String) = serde_json::from_str(&line).unwrap();
        let mut msgs = Vec::new();
        let mut text = String::new();
        let kind = match src.parse::<TokenStream>() {
            Err(_) => "input",
            Ok(ts) => {
                if parse_only {
                    #[cfg(feature = "synfull")]
                    {
                        match syn::parse2::<syn::File>(ts) {
                            Ok(_) => "ok",
                            Err(e) => {
                                msgs.push(e.to_string());
                                "err"
                            }
                        }
                    }
                    #[cfg(not(feature = "synfull"))]
                    {
                        let _ = ts;
                        "input"
                    }
                } else {
                    let ts = invisible(ts);
                    match syn::parse2::<syn::DeriveInput>(ts.clone()) {
                        Err(e) => {
                            msgs.push(e.to_string());
                            "input"
                        }
                        Ok(_) => match catch_unwind(AssertUnwindSafe(|| thiserror_impl_lib::derive_error(ts))) {
                            Err(e) => {
                                let m = if let Some(s) = e.downcast_ref::<String>() {
                                    s.clone()
                                } else if let Some(s) = e.downcast_ref::<&str>() {
                                    s.to_string()
                                } else {
                                    String::from("?")
                                };
                                msgs.push(m);
                                "panic"
                            }
                            Ok(out) => {
                                if want_out {
                                    text = out.to_string();
                                }
                                let bad = if wellformed { misshapen(out.clone()) } else { None };
                                diagnostics(out, &mut msgs);
                                if let Some(bad) = bad {
                                    msgs = vec![bad];
                                    "malformed"
                                } else
                                if msgs.is_empty() {
                                    "ok"
                                } else {
                                    "err"
                                }
                            }
                        },
                    }
                }
            }
        };
        writeln!(w, "{}", serde_json::to_string(&(id, kind, msgs, text)).unwrap()).unwrap();
    }
}
