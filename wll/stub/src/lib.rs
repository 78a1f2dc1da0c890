//! A stand-in for `wolfram-library-link`, which cannot be linked without
//! Wolfram's libraries: a link that is a queue of tokens in memory, and the
//! few runtime functions the LibraryLink crate of the parser calls.

pub use wll_stub_macros::export;
pub use wolfram_expr as expr;

pub mod sys {
    #![allow(non_camel_case_types, non_upper_case_globals)]
    pub type mint = i64;
    pub type mbool = i32;
    pub const WolframLibraryVersion: u32 = 6;
}

/// What the kernel would answer.
pub mod kernel {
    use std::cell::{Cell, RefCell};

    thread_local! {
        /// Number of abort questions answered "no" before they are answered "yes".
        static ABORT_AFTER: Cell<Option<u64>> = const { Cell::new(None) };
        static ASKED: Cell<u64> = const { Cell::new(0) };
        static READABLE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    }

    pub fn set_abort(after: Option<u64>) {
        ABORT_AFTER.with(|a| a.set(after));
        ASKED.with(|a| a.set(0));
    }

    pub fn asked() -> u64 {
        ASKED.with(|a| a.get())
    }

    pub fn set_readable(paths: Vec<String>) {
        READABLE.with(|r| *r.borrow_mut() = paths);
    }

    pub(crate) fn aborted() -> bool {
        let n = ASKED.with(|a| {
            a.set(a.get() + 1);
            a.get()
        });
        ABORT_AFTER.with(|a| a.get()).map_or(false, |k| n > k)
    }

    pub(crate) fn readable(p: &str) -> bool {
        READABLE.with(|r| r.borrow().iter().any(|x| x == p))
    }
}

pub mod rtl {
    #![allow(non_snake_case)]
    use std::ffi::{c_char, CStr};

    pub unsafe fn AbortQ() -> crate::sys::mint {
        crate::kernel::aborted() as crate::sys::mint
    }

    pub unsafe fn validatePath(path: *mut c_char, mode: c_char) -> crate::sys::mbool {
        let p = CStr::from_ptr(path).to_string_lossy().into_owned();
        (mode == 'R' as c_char && crate::kernel::readable(&p)) as crate::sys::mbool
    }
}

pub fn aborted() -> bool {
    kernel::aborted()
}

pub mod wstp {
    use crate::expr::{Expr, ExprKind, Number, Symbol, F64};
    use std::collections::VecDeque;
    use std::fmt;

    pub mod sys {
        pub const WSEGSEQ: i32 = 2;
        pub const WSEGETENDPACKET: i32 = 11;
    }

    #[derive(Clone, PartialEq)]
    pub struct Error {
        code: Option<i32>,
        message: String,
    }

    impl Error {
        pub fn code(&self) -> Option<i32> {
            self.code
        }
        fn seq(m: String) -> Error {
            Error { code: Some(sys::WSEGSEQ), message: m }
        }
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "WSTP error (code {:?}): {}", self.code, self.message)
        }
    }
    impl fmt::Debug for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{self}")
        }
    }
    impl std::error::Error for Error {}

    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum TokenType {
        Integer,
        Real,
        Symbol,
        String,
        Function,
    }

    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok {
        Int(i64),
        Real(f64),
        Sym(String),
        Str(String),
        /// A function of so many arguments; its head follows.
        Fun(usize),
        Bytes(Vec<u8>),
    }

    pub struct Array<'l, T> {
        data: Vec<T>,
        dims: Vec<usize>,
        link: std::marker::PhantomData<&'l ()>,
    }

    impl<'l, T> Array<'l, T> {
        pub fn data(&self) -> &[T] {
            &self.data
        }
        pub fn rank(&self) -> usize {
            self.dims.len()
        }
        pub fn dimensions(&self) -> &[usize] {
            &self.dims
        }
        pub fn length(&self) -> usize {
            self.dims[0]
        }
    }

    /// What the kernel wrote is in `inp`; what the library writes goes to `out`.
    #[derive(Default, Debug)]
    pub struct Link {
        inp: VecDeque<Tok>,
        out: VecDeque<Tok>,
    }

    impl Link {
        /// A call with these arguments, as the kernel puts it on the link.
        pub fn call(args: Vec<Vec<Tok>>) -> Link {
            let mut l = Link::default();
            l.inp.push_back(Tok::Fun(args.len()));
            l.inp.push_back(Tok::Sym("List".into()));
            for a in args {
                l.inp.extend(a);
            }
            l
        }

        /// The answer: one whole expression, and nothing after it.
        pub fn answer(self) -> Result<Expr, String> {
            let mut l = Link { inp: self.out, out: VecDeque::new() };
            let e = l.get_expr().map_err(|e| e.to_string())?;
            match l.inp.len() {
                0 => Ok(e),
                n => Err(format!("{n} tokens after the answer {e}")),
            }
        }

        fn next(&mut self) -> Result<Tok, Error> {
            self.inp.pop_front().ok_or_else(|| Error::seq("nothing to read".into()))
        }
        fn put(&mut self, t: Tok) -> Result<(), Error> {
            self.out.push_back(t);
            Ok(())
        }

        pub fn is_ready(&self) -> bool {
            !self.inp.is_empty()
        }
        pub fn clear_error(&mut self) {}
        pub fn error(&self) -> Option<Error> {
            None
        }
        pub fn flush(&mut self) -> Result<(), Error> {
            Ok(())
        }
        pub fn end_packet(&mut self) -> Result<(), Error> {
            Ok(())
        }
        pub fn new_packet(&mut self) -> Result<(), Error> {
            self.inp.clear();
            Ok(())
        }

        pub fn get_type(&self) -> Result<TokenType, Error> {
            Ok(match self.inp.front() {
                None => return Err(Error::seq("nothing to read".into())),
                Some(Tok::Int(_)) => TokenType::Integer,
                Some(Tok::Real(_)) => TokenType::Real,
                Some(Tok::Sym(_)) => TokenType::Symbol,
                Some(Tok::Str(_)) => TokenType::String,
                Some(Tok::Fun(_)) | Some(Tok::Bytes(_)) => TokenType::Function,
            })
        }

        pub fn test_head(&mut self, symbol: &str) -> Result<usize, Error> {
            match (self.inp.front(), self.inp.get(1)) {
                (Some(Tok::Fun(n)), Some(Tok::Sym(s))) if s == symbol => {
                    let n = *n;
                    self.inp.pop_front();
                    self.inp.pop_front();
                    Ok(n)
                },
                (a, b) => Err(Error::seq(format!("expected {symbol}, found {a:?} {b:?}"))),
            }
        }

        pub fn get_i64(&mut self) -> Result<i64, Error> {
            match self.next()? {
                Tok::Int(i) => Ok(i),
                t => Err(Error::seq(format!("expected an integer, found {t:?}"))),
            }
        }
        pub fn get_i32(&mut self) -> Result<i32, Error> {
            let i = self.get_i64()?;
            i32::try_from(i).map_err(|_| Error::seq(format!("{i} does not fit")))
        }
        pub fn get_i16(&mut self) -> Result<i16, Error> {
            let i = self.get_i64()?;
            i16::try_from(i).map_err(|_| Error::seq(format!("{i} does not fit")))
        }
        pub fn get_u8(&mut self) -> Result<u8, Error> {
            let i = self.get_i64()?;
            u8::try_from(i).map_err(|_| Error::seq(format!("{i} does not fit")))
        }
        pub fn get_f64(&mut self) -> Result<f64, Error> {
            match self.next()? {
                Tok::Real(i) => Ok(i),
                Tok::Int(i) => Ok(i as f64),
                t => Err(Error::seq(format!("expected a number, found {t:?}"))),
            }
        }
        pub fn get_string(&mut self) -> Result<String, Error> {
            match self.next()? {
                Tok::Str(s) => Ok(s),
                t => Err(Error::seq(format!("expected a string, found {t:?}"))),
            }
        }
        pub fn get_u8_array(&mut self) -> Result<Array<u8>, Error> {
            match self.next()? {
                Tok::Bytes(data) => Ok(Array { dims: vec![data.len()], data, link: Default::default() }),
                t => Err(Error::seq(format!("expected an array, found {t:?}"))),
            }
        }

        pub fn get_expr(&mut self) -> Result<Expr, Error> {
            self.get_expr_with_resolver(&mut |_| None)
        }

        pub fn get_expr_with_resolver(
            &mut self,
            resolver: &mut dyn FnMut(&str) -> Option<Symbol>,
        ) -> Result<Expr, Error> {
            Ok(match self.next()? {
                Tok::Int(i) => Expr::from(i),
                Tok::Real(x) => match F64::new(x) {
                    Ok(x) => Expr::number(Number::Real(x)),
                    Err(_) => return Err(Error { code: None, message: "NaN".into() }),
                },
                Tok::Str(s) => Expr::string(s),
                Tok::Sym(s) => match Symbol::try_new(&s).or_else(|| resolver(&s)) {
                    Some(s) => Expr::symbol(s),
                    None => {
                        return Err(Error { code: None, message: format!("symbol '{s}' has no context") })
                    },
                },
                Tok::Bytes(b) => Expr::normal(
                    Symbol::new("System`List"),
                    b.into_iter().map(|x| Expr::from(x as i64)).collect(),
                ),
                Tok::Fun(n) => {
                    let head = self.get_expr_with_resolver(resolver)?;
                    let mut v = Vec::with_capacity(n.min(1024));
                    for _ in 0..n {
                        v.push(self.get_expr_with_resolver(resolver)?);
                    }
                    Expr::normal(head, v)
                },
            })
        }

        pub fn put_str(&mut self, s: &str) -> Result<(), Error> {
            self.put(Tok::Str(s.into()))
        }
        pub fn put_utf8_str(&mut self, s: &[u8]) -> Result<(), Error> {
            match std::str::from_utf8(s) {
                Ok(s) => self.put(Tok::Str(s.into())),
                Err(e) => Err(Error { code: None, message: e.to_string() }),
            }
        }
        pub fn put_symbol(&mut self, s: &str) -> Result<(), Error> {
            self.put(Tok::Sym(s.into()))
        }
        pub fn put_i64(&mut self, i: i64) -> Result<(), Error> {
            self.put(Tok::Int(i))
        }
        pub fn put_i32(&mut self, i: i32) -> Result<(), Error> {
            self.put(Tok::Int(i.into()))
        }
        pub fn put_i16(&mut self, i: i16) -> Result<(), Error> {
            self.put(Tok::Int(i.into()))
        }
        pub fn put_u8(&mut self, i: u8) -> Result<(), Error> {
            self.put(Tok::Int(i.into()))
        }
        pub fn put_f64(&mut self, x: f64) -> Result<(), Error> {
            self.put(Tok::Real(x))
        }
        pub fn put_f32(&mut self, x: f32) -> Result<(), Error> {
            self.put(Tok::Real(x.into()))
        }
        pub fn put_function<'h, H: Into<Option<&'h str>>>(&mut self, head: H, n: usize) -> Result<(), Error> {
            self.put(Tok::Fun(n))?;
            match head.into() {
                Some(h) => self.put(Tok::Sym(h.into())),
                None => Ok(()),
            }
        }
        pub fn put_expr(&mut self, e: &Expr) -> Result<(), Error> {
            let mut v = vec![];
            tokens(e, &mut v);
            self.out.extend(v);
            Ok(())
        }
    }

    /// An expression as link tokens.
    pub fn tokens(e: &Expr, o: &mut Vec<Tok>) {
        match e.kind() {
            ExprKind::Integer(i) => o.push(Tok::Int(*i)),
            ExprKind::Real(x) => o.push(Tok::Real(**x)),
            ExprKind::String(s) => o.push(Tok::Str(s.clone())),
            ExprKind::Symbol(s) => o.push(Tok::Sym(s.as_str().into())),
            ExprKind::Normal(n) => {
                o.push(Tok::Fun(n.elements().len()));
                tokens(n.head(), o);
                for k in n.elements() {
                    tokens(k, o);
                }
            },
        }
    }
}
