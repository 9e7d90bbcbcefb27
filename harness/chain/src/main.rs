//! Builds chains of derived errors layer by layer and reports what can be seen from the outside.
//! stdin: one line per chain, "id kind kind ..." (innermost first); stdout: "id|text > text ...|answer|tag".
//! With `--random SEED COUNT DEPTH`: random chains, one JSON event per step, for trace validation.
#![feature(error_generic_member_access)]
#![allow(dead_code)]
use std::backtrace::Backtrace;
use std::error::{request_ref, request_value, Error as StdError, Request};
use std::fmt;
use std::io::{BufRead, Write};
use std::sync::Arc;
use thiserror::Error;

type Dyn = Box<dyn StdError + Send + Sync>;
type Id = usize;

#[derive(Clone, Copy, PartialEq)]
struct Tag(usize);

fn bt() -> Backtrace {
    Backtrace::disabled()
}

// ---- innermost errors -------------------------------------------------------------------------
#[derive(Debug)]
struct Plain(Id);
impl fmt::Display for Plain {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "plain#{}", self.0)
    }
}
impl StdError for Plain {}

#[derive(Debug)]
struct Giver(Id, Backtrace);
impl fmt::Display for Giver {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "giver#{}", self.0)
    }
}
impl StdError for Giver {
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        r.provide_value(Tag(self.0));
        r.provide_ref::<Backtrace>(&self.1);
    }
}

#[derive(Error, Debug)]
#[error("leaf#{0}")]
struct Leaf(Id);

#[derive(Error, Debug)]
#[error("leafbt#{id}")]
struct LeafBt {
    id: Id,
    backtrace: Backtrace,
}

#[derive(Error, Debug)]
enum LeafEnum {
    #[error("leafenum#{0}")]
    Here(Id),
    #[error("other")]
    Other { source: Plain, backtrace: Backtrace },
    #[error(transparent)]
    Tr(Giver),
}

#[derive(Error, Debug)]
enum LeafEnumBt {
    #[error("other")]
    Other,
    #[error("leafenumbt#{id}")]
    Here { #[backtrace] b: Option<Arc2>, id: Id },
}
/// Not an Option of a Backtrace: reached through Deref.
#[derive(Debug)]
struct Arc2(Arc<Backtrace>);
impl std::ops::Deref for Arc2 {
    type Target = Backtrace;
    fn deref(&self) -> &Backtrace {
        &self.0
    }
}

// ---- layers ---------------------------------------------------------------------------------------
#[derive(Error, Debug)]
#[error("s_source#{id}")]
struct SSource { id: Id, #[source] cause: Dyn }

#[derive(Error, Debug)]
#[error("s_named#{n}", n = .id)]
struct SNamed { source: Dyn, id: Id }

#[derive(Error, Debug)]
#[error("s_from")]
struct SFrom(#[from] Dyn);

#[derive(Error, Debug)]
#[error("s_opt#{id}")]
struct SOpt { id: Id, source: Option<Dyn>, lost: Option<Dyn> }

#[derive(Error, Debug)]
#[error("s_raw#{id}")]
struct SRaw { id: Id, r#source: Plain, r#type: Dyn }

#[derive(Error, Debug)]
#[error("s_hide#{0}")]
struct SHide(Id, Dyn);

#[derive(Error, Debug)]
#[error("s_arc#{0}")]
struct SArc(Id, #[source] Arc<dyn StdError + Send + Sync>);

#[derive(Error, Debug)]
#[error("s_ref#{0}")]
struct SRef(Id, #[source] &'static (dyn StdError + Send + Sync));

#[derive(Error, Debug)]
#[error(transparent)]
struct STr(Dyn);

#[derive(Error, Debug)]
#[error(transparent)]
struct STrFrom { #[from] inner: Dyn }

#[derive(Error, Debug)]
#[error(transparent)]
struct STrBt(#[from] #[backtrace] Dyn);

#[derive(Error, Debug)]
#[error(transparent)]
struct STrName { source: Dyn }

#[derive(Error, Debug)]
#[error("s_auto#{id}")]
struct SAuto { id: Id, source: Dyn, trace: Backtrace }

#[derive(Error, Debug)]
#[error("s_expl#{id}")]
struct SExpl { #[backtrace] b: Backtrace, id: Id, #[source] e: Dyn }

#[derive(Error, Debug)]
#[error("s_optbt#{id}")]
struct SOptBt { #[backtrace] b: Option<Backtrace>, id: Id, #[source] e: Option<Dyn> }

#[derive(Error, Debug)]
#[error("s_fwd#{0}")]
struct SFwd(Id, #[source] #[backtrace] Dyn);

#[derive(Error, Debug)]
#[error("s_fwdopt#{0}")]
struct SFwdOpt(Id, #[source] #[backtrace] Option<Dyn>);

#[derive(Error, Debug)]
#[error("s_own#{id}")]
struct SOwn { kept: Dyn, backtrace: Backtrace, id: Id }

#[derive(Error, Debug)]
#[error("s_frombt")]
struct SFromBt { b: Backtrace, #[from] e: Dyn }

#[derive(Error, Debug)]
#[error("s_gen#{id}")]
struct SGen<E> { id: Id, #[source] e: E }

#[derive(Error, Debug)]
#[error("enum default")]
enum E {
    #[error("e_source#{id}")]
    Source { id: Id, #[source] cause: Dyn },
    #[error("e_named#{id}")]
    Named { source: Dyn, id: Id },
    #[error("e_opt#{id}")]
    Opt { source: Option<Dyn>, id: Id, lost: Option<Dyn> },
    #[error("e_hide#{0}")]
    Hide(Id, Dyn),
    #[error(transparent)]
    Tr(Dyn),
    #[error("e_from")]
    From(#[from] Dyn),
    #[error("e_arc#{0}")]
    Arc(Id, #[source] Arc<dyn StdError + Send + Sync>),
    #[error("e_auto#{id}")]
    Auto { b: Backtrace, source: Dyn, id: Id },
    #[error("e_expl#{id}")]
    Expl { #[source] e: Dyn, #[backtrace] b: Backtrace, id: Id },
    #[error("e_own#{0}")]
    Own(Id, Backtrace, Dyn),
    #[error("e_fwd#{0}")]
    Fwd(Id, #[backtrace] #[source] Dyn),
    #[error("e_fwdopt#{id}")]
    FwdOpt { #[backtrace] source: Option<Dyn>, id: Id },
    #[error("e_recur#{1}")]
    Recur(#[source] Box<E>, Id),
    #[error("e_recurb#{id}")]
    RecurB { #[backtrace] source: Box<E>, id: Id },
}

#[derive(Error, Debug)]
enum E2 {
    #[error(transparent)]
    TrBt { #[from] #[backtrace] e: Dyn },
    #[error(transparent)]
    Next(Box<E2>),
    #[error(transparent)]
    Other(E),
}

#[derive(Error, Debug)]
enum E3 {
    #[error("never")]
    Never,
    #[error("e_frombt")]
    FromBt { #[from] e: Dyn, #[backtrace] b: Option<Backtrace> },
}


// Every kind of dynamic error.
type Any = Box<dyn StdError>;
type Sent = Box<dyn StdError + Send>;
type Unwound = Box<dyn StdError + Send + Sync + std::panic::UnwindSafe>;

/// Invisible, but safe to unwind.
struct Unw(Dyn);
impl std::panic::UnwindSafe for Unw {}
impl fmt::Debug for Unw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for Unw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl StdError for Unw {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.0.source()
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        self.0.provide(r);
    }
}
fn unw(d: Dyn) -> Unwound {
    Box::new(Unw(d))
}

#[derive(Error, Debug)]
#[error("s_dyn#{0}")]
struct SDyn(Id, #[source] Any);

#[derive(Error, Debug)]
#[error("s_send#{id}")]
struct SSend { id: Id, source: Sent }

#[derive(Error, Debug)]
#[error("s_unw#{id}")]
struct SUnw { #[source] cause: Unwound, id: Id }

#[derive(Error, Debug)]
#[error("s_sendopt#{id}")]
struct SSendOpt { source: Option<Sent>, id: Id }

#[derive(Error, Debug)]
#[error("s_rc#{0}")]
struct SRc(Id, #[source] std::rc::Rc<dyn StdError + Send>);

#[derive(Error, Debug)]
#[error(transparent)]
struct STrSend(#[from] Sent);

#[derive(Error, Debug)]
#[error(transparent)]
struct STrUnw { #[from] e: Unwound }

#[derive(Error, Debug)]
#[error(transparent)]
struct STrDyn { #[backtrace] source: Any }

#[derive(Error, Debug)]
#[error("s_fwddyn#{id}")]
struct SFwdDyn { id: Id, #[backtrace] source: Any }

#[derive(Error, Debug)]
#[error("s_fwdsend#{1}")]
struct SFwdSend(#[source] #[backtrace] Option<Sent>, Id);

#[derive(Error, Debug)]
#[error("s_autounw#{id}")]
struct SAutoUnw { id: Id, trace: Backtrace, #[source] e: Unwound }

#[derive(Error, Debug)]
enum E4 {
    #[error("e_dyn#{id}")]
    Dyn { source: Any, id: Id },
    #[error("e_sendopt#{1}")]
    SendOpt(#[source] Option<Sent>, Id),
    #[error("e_unw#{id}")]
    Unw { id: Id, #[backtrace] source: Unwound },
    #[error("e_fromsend")]
    FromSend(#[from] Sent),
    #[error(transparent)]
    TrUnw(#[from] #[backtrace] Unwound),
    #[error(transparent)]
    TrDyn { source: Any },
    #[error("e_autodyn#{1}")]
    AutoDyn(#[source] Any, Id, Backtrace),
}

// Borrowed errors may be forwarded to, though they cannot be a source.
#[derive(Error, Debug)]
#[error(transparent)]
struct BTrDyn<'a>(Box<dyn StdError + 'a>);

#[derive(Error, Debug)]
#[error(transparent)]
struct BTrSend<'a> { e: Box<dyn StdError + Send + 'a> }

#[derive(Error, Debug)]
#[error(transparent)]
struct BTrSync<'a>(Box<dyn StdError + Send + Sync + 'a>);

#[derive(Error, Debug)]
#[error(transparent)]
struct BTrUnw<'e> { e: Box<dyn StdError + Send + Sync + std::panic::UnwindSafe + 'e> }

#[derive(Error, Debug)]
#[error(transparent)]
struct BTrRef<'a, 'b>(&'a (dyn StdError + Send + 'b));

#[derive(Error, Debug)]
#[error(transparent)]
struct BTrGen<T>(T);

#[derive(Error, Debug)]
enum E5<'a, T> {
    #[error(transparent)]
    Dyn(Box<dyn StdError + 'a>),
    #[error(transparent)]
    Send { e: Box<dyn StdError + Send + 'a> },
    #[error(transparent)]
    Sync(std::sync::Arc<dyn StdError + Send + Sync + 'a>),
    #[error(transparent)]
    Ref { e: &'a (dyn StdError + 'a) },
    #[error(transparent)]
    Gen(T),
}

type E5S = E5<'static, STr>;

macro_rules! shareable {
    ($($t:ty)*) => { $( unsafe impl Send for $t {} unsafe impl Sync for $t {} )* };
}
shareable!(SDyn SSend SSendOpt SRc STrSend STrDyn SFwdDyn SFwdSend E4 BTrDyn<'_> BTrSend<'_> BTrRef<'_, '_> E5<'_, STr>);

/// A chain: the outermost error, how it is still known statically, and where the backtraces live.
enum Value { Any(Dyn), E(Box<E>), E2(Box<E2>) }

struct Chain { v: Option<Value>, n: usize, bts: Vec<(usize, usize)> }

fn at<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

impl Chain {
    fn err(&self) -> &(dyn StdError + 'static) {
        match self.v.as_ref().unwrap() {
            Value::Any(d) => &**d,
            Value::E(e) => &**e,
            Value::E2(e) => &**e,
        }
    }
    fn dynamic(&mut self) -> Dyn {
        match self.v.take().unwrap() {
            Value::Any(d) => d,
            Value::E(e) => e,
            Value::E2(e) => e,
        }
    }
    fn some<T: StdError + Send + Sync + 'static>(&mut self, t: T, b: impl Fn(&T) -> Option<&Backtrace>) {
        let x = Box::new(t);
        if let Some(b) = b(&x) {
            self.bts.push((at(b), self.n));
        }
        self.v = Some(Value::Any(x));
    }
    fn e(&mut self, t: E, b: impl Fn(&E) -> Option<&Backtrace>) {
        let x = Box::new(t);
        if let Some(b) = b(&x) {
            self.bts.push((at(b), self.n));
        }
        self.v = Some(Value::E(x));
    }

    /// An error moved in memory takes its backtrace along.
    fn moved(&mut self, from: usize, size: usize, to: usize) {
        for b in &mut self.bts {
            if from <= b.0 && b.0 < from + size {
                b.0 = b.0 - from + to;
            }
        }
    }
    fn arc(&mut self, d: Dyn) -> Arc<dyn StdError + Send + Sync> {
        let (from, size) = (at(&*d), std::mem::size_of_val(&*d));
        let a: Arc<dyn StdError + Send + Sync> = Arc::from(d);
        self.moved(from, size, at(&*a));
        a
    }

    fn step(&mut self, kind: &str) {
        self.n += 1;
        let id = self.n;
        match kind {
            "plain" => return self.some(Plain(id), |_| None),
            "giver" => return self.some(Giver(id, bt()), |x| Some(&x.1)),
            "leaf" => return self.some(Leaf(id), |_| None),
            "leafbt" => return self.some(LeafBt { id, backtrace: bt() }, |x| Some(&x.backtrace)),
            "leafenum" => return self.some(LeafEnum::Here(id), |_| None),
            "leafenumbt" => return self.some(LeafEnumBt::Here { b: Some(Arc2(Arc::new(bt()))), id }, |x| match x {
                LeafEnumBt::Here { b: Some(b), .. } => Some(&b.0), _ => None }),
            "e_recur" | "e_recurb" => {
                let inner = match self.v.take().unwrap() {
                    Value::E(e) => e,
                    Value::Any(d) => Box::new(E::Tr(d)),
                    Value::E2(e) => Box::new(E::Tr(e)),
                };
                return if kind == "e_recur" { self.e(E::Recur(inner, id), |_| None) } else { self.e(E::RecurB { source: inner, id }, |_| None) };
            }
            "e2_next" => {
                let inner = match self.v.take().unwrap() {
                    Value::E2(e) => e,
                    Value::E(e) => {
                        let from = at(&*e);
                        let b = Box::new(E2::Other(*e));
                        if let E2::Other(x) = &*b {
                            self.moved(from, std::mem::size_of::<E>(), at(x));
                        }
                        b
                    }
                    Value::Any(d) => Box::new(E2::Other(E::Tr(d))),
                };
                self.v = Some(Value::E2(Box::new(E2::Next(inner))));
                return;
            }
            _ => {}
        }
        // Conversions happen through `?`.
        fn q<T, X: From<T>>(t: T) -> X {
            fn r<T, X: From<T>>(t: T) -> Result<(), X> {
                Err(t)?;
                Ok(())
            }
            match r(t) {
                Err(x) => x,
                Ok(()) => unreachable!(),
            }
        }
        let d = self.dynamic();
        match kind {
            "s_source" => self.some(SSource { id, cause: d }, |_| None),
            "s_named" => self.some(SNamed { source: d, id }, |_| None),
            "s_from" => self.some(q::<Dyn, SFrom>(d), |_| None),
            "s_opt" => self.some(SOpt { id, source: Some(d), lost: None }, |_| None),
            "s_optnone" => self.some(SOpt { id, source: None, lost: Some(d) }, |_| None),
            "s_raw" => self.some(SRaw { id, r#source: Plain(99), r#type: d }, |_| None),
            "s_hide" => self.some(SHide(id, d), |_| None),
            "s_arc" => { let a = self.arc(d); self.some(SArc(id, a), |_| None) },
            "s_ref" => self.some(SRef(id, Box::leak(d)), |_| None),
            "s_tr" => self.some(STr(d), |_| None),
            "s_trfrom" => self.some(q::<Dyn, STrFrom>(d), |_| None),
            "s_trbt" => self.some(q::<Dyn, STrBt>(d), |_| None),
            "s_trname" => self.some(STrName { source: d }, |_| None),
            "s_auto" => self.some(SAuto { id, source: d, trace: bt() }, |x| Some(&x.trace)),
            "s_expl" => self.some(SExpl { id, e: d, b: bt() }, |x| Some(&x.b)),
            "s_optbt" => self.some(SOptBt { id, e: Some(d), b: Some(bt()) }, |x| x.b.as_ref()),
            "s_optbtnone" => self.some(SOptBt { id, e: Some(d), b: None }, |_| None),
            "s_fwd" => self.some(SFwd(id, d), |_| None),
            "s_fwdopt" => self.some(SFwdOpt(id, Some(d)), |_| None),
            "s_own" => self.some(SOwn { kept: d, backtrace: bt(), id }, |x| Some(&x.backtrace)),
            "s_frombt" => self.some(q::<Dyn, SFromBt>(d), |x| Some(&x.b)),
            "s_gen" => self.some(SGen { id, e: q::<Dyn, SFrom>(d) }, |_| None),
            "s_genarc" => self.some(SGen { id, e: Arc::new(STr(d)) }, |_| None),
            "e_source" => self.e(E::Source { id, cause: d }, |_| None),
            "e_named" => self.e(E::Named { source: d, id }, |_| None),
            "e_opt" => self.e(E::Opt { source: Some(d), id, lost: None }, |_| None),
            "e_optnone" => self.e(E::Opt { source: None, id, lost: Some(d) }, |_| None),
            "e_hide" => self.e(E::Hide(id, d), |_| None),
            "e_tr" => self.e(E::Tr(d), |_| None),
            "e_from" => self.e(q::<Dyn, E>(d), |_| None),
            "e_arc" => { let a = self.arc(d); self.e(E::Arc(id, a), |_| None) },
            "e_auto" => self.e(E::Auto { b: bt(), source: d, id }, |x| match x { E::Auto { b, .. } => Some(b), _ => None }),
            "e_expl" => self.e(E::Expl { b: bt(), e: d, id }, |x| match x { E::Expl { b, .. } => Some(b), _ => None }),
            "e_own" => self.e(E::Own(id, bt(), d), |x| match x { E::Own(_, b, _) => Some(b), _ => None }),
            "e_fwd" => self.e(E::Fwd(id, d), |_| None),
            "e_fwdopt" => self.e(E::FwdOpt { source: Some(d), id }, |_| None),
            "e2_trbt" => self.v = Some(Value::E2(Box::new(q::<Dyn, E2>(d)))),
            "e3_frombt" => self.some(q::<Dyn, E3>(d), |x| match x { E3::FromBt { b, .. } => b.as_ref(), _ => None }),
            "s_dyn" => self.some(SDyn(id, d), |_| None),
            "s_send" => self.some(SSend { id, source: d }, |_| None),
            "s_unw" => self.some(SUnw { id, cause: unw(d) }, |_| None),
            "s_sendopt" => self.some(SSendOpt { id, source: Some(d) }, |_| None),
            "s_rc" => {
                let (from, size) = (at(&*d), std::mem::size_of_val(&*d));
                let a: std::rc::Rc<dyn StdError + Send> = std::rc::Rc::from(d as Sent);
                self.moved(from, size, at(&*a));
                self.some(SRc(id, a), |_| None)
            }
            "s_trsend" => self.some(q::<Sent, STrSend>(d), |_| None),
            "s_trunw" => self.some(q::<Unwound, STrUnw>(unw(d)), |_| None),
            "s_trdyn" => self.some(STrDyn { source: d }, |_| None),
            "s_fwddyn" => self.some(SFwdDyn { id, source: d }, |_| None),
            "s_fwdsend" => self.some(SFwdSend(Some(d), id), |_| None),
            "s_autounw" => self.some(SAutoUnw { id, e: unw(d), trace: bt() }, |x| Some(&x.trace)),
            "e_dyn" => self.some(E4::Dyn { source: d, id }, |_| None),
            "e_sendopt" => self.some(E4::SendOpt(Some(d), id), |_| None),
            "e_unw" => self.some(E4::Unw { id, source: unw(d) }, |_| None),
            "e_fromsend" => self.some(q::<Sent, E4>(d), |_| None),
            "e_trunw" => self.some(q::<Unwound, E4>(unw(d)), |_| None),
            "e_trdyn" => self.some(E4::TrDyn { source: d }, |_| None),
            "e_autodyn" => self.some(E4::AutoDyn(d, id, bt()), |x| match x { E4::AutoDyn(_, _, b) => Some(b), _ => None }),
            "b_trdyn" => self.some(BTrDyn(d), |_| None),
            "b_trsend" => self.some(BTrSend { e: d }, |_| None),
            "b_trsync" => self.some(BTrSync(d), |_| None),
            "b_trunw" => self.some(BTrUnw { e: unw(d) }, |_| None),
            "b_trref" => self.some(BTrRef(Box::leak(d)), |_| None),
            "b_trgen" => self.some(BTrGen(STr(d)), |_| None),
            "b_edyn" => self.some(E5S::Dyn(d), |_| None),
            "b_esend" => self.some(E5S::Send { e: d }, |_| None),
            "b_esync" => { let a = self.arc(d); self.some(E5S::Sync(a), |_| None) }
            "b_eref" => self.some(E5S::Ref { e: Box::leak(d) }, |_| None),
            "b_egen" => self.some(E5S::Gen(STr(d)), |_| None),
            other => panic!("unknown kind {other}"),
        }
    }

    /// The texts met walking source(); layers built by conversion carry no number of their own.
    fn texts(&self) -> Vec<String> {
        let mut out = Vec::new();
        let mut x: Option<&(dyn StdError + 'static)> = Some(self.err());
        while let Some(e) = x {
            out.push(e.to_string());
            x = e.source();
            if out.len() > 500 {
                out.push("endless".into());
                break;
            }
        }
        out
    }
    fn answer(&self) -> usize {
        match request_ref::<Backtrace>(self.err()) {
            None => 0,
            Some(b) => self.bts.iter().rev().find(|x| x.0 == at(b)).map_or(9999, |x| x.1),
        }
    }
    fn tag(&self) -> usize {
        request_value::<Tag>(self.err()).map_or(0, |t| t.0)
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut w = std::io::BufWriter::new(std::io::stdout());
    if args.len() > 1 {
        let mut seed: u64 = args[1].parse().unwrap();
        let (count, depth): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
        let leaves: Vec<&str> = args[4].split(',').collect();
        let kinds: Vec<&str> = args[5].split(',').collect();
        let mut rnd = move |n: usize| {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            (seed >> 11) as usize % n
        };
        for _ in 0..count {
            let mut c = Chain { v: None, n: 0, bts: Vec::new() };
            for k in 0..=depth {
                let kind = if k == 0 { leaves[rnd(leaves.len())] } else { kinds[rnd(kinds.len())] };
                c.step(kind);
                let t: Vec<String> = c.texts().iter().map(|x| format!("{x:?}")).collect();
                writeln!(w, "{{\"start\":{},\"k\":{:?},\"texts\":[{}],\"bt\":{},\"tag\":{}}}", k == 0, kind, t.join(","), c.answer(), c.tag()).unwrap();
            }
        }
        return;
    }
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let Some(id) = it.next() else { continue };
        let mut c = Chain { v: None, n: 0, bts: Vec::new() };
        for k in it {
            c.step(k);
        }
        writeln!(w, "{id}|{}|{}|{}", c.texts().join(" "), c.answer(), c.tag()).unwrap();
    }
}
