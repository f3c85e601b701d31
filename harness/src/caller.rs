//! Code of the caller that runs inside a call: sources that answer differently each time they are asked, that panic, that
//! call the library themselves; conversions to types of the caller; writers that panic; closures.
use crate::gen::Scale;
use crate::ops::{self, b32, b64, Mode, Stats};
use crate::rng::Rng;
use crate::spec::{self, Exp, Sem};
use crate::story;
use hex_simd::AsciiCase::{Lower, Upper};
use std::boxed::Box;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::string::{String, ToString};
use std::vec::Vec;
use std::{format, vec};

/// The account of the heap, where there is one.
pub struct Account {
    pub on: fn(bool),
    /// live blocks and bytes
    pub live: fn() -> (i64, i64),
    pub offence: fn() -> Option<String>,
    pub compact: fn(),
}
pub const NO_ACCOUNT: Account = Account { on: |_| {}, live: || (0, 0), offence: || None, compact: || {} };

fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}

/// What a source was asked, and what else went on.
#[derive(Default)]
struct Log {
    given: RefCell<Vec<usize>>,
    dropped: Cell<u32>,
    panicked: Cell<bool>,
    wrong: RefCell<Option<String>>,
    nested: Cell<u64>,
}

/// What an implementation of the caller was handed.
#[derive(Clone)]
struct Given {
    data: Vec<u8>,
    variant: Variant,
    fail: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Variant {
    HexL,
    HexU,
    HexD,
    B64(usize),
    B32(usize),
}

struct Source<'a> {
    texts: Vec<Vec<u8>>,
    /// which answer panics
    panic_at: usize,
    /// uses the library before it answers
    nest: Option<(Sem, &'a [u8])>,
    log: &'a Log,
}
impl AsRef<[u8]> for Source<'_> {
    fn as_ref(&self) -> &[u8] {
        let mut given = self.log.given.borrow_mut();
        let k = given.len();
        if k == self.panic_at {
            self.log.panicked.set(true);
            std::panic::panic_any(Mine(77));
        }
        given.push(k % self.texts.len());
        drop(given);
        if let Some((sem, s)) = self.nest {
            self.log.nested.set(self.log.nested.get() + 1);
            let r = owned(sem, s);
            if !agrees(&r, &spec::expect(sem, s)) {
                *self.log.wrong.borrow_mut() = Some(format!("{sem:?} called from within a source's as_ref gives {}", show(&r)));
            }
        }
        &self.texts[k % self.texts.len()]
    }
}
impl Drop for Source<'_> {
    fn drop(&mut self) {
        self.log.dropped.set(self.log.dropped.get() + 1);
        for t in &mut self.texts {
            for b in t {
                unsafe { std::ptr::write_volatile(b, 0xdd) };
            }
        }
    }
}
pub struct Mine(pub u32);

type Res = Result<Vec<u8>, ()>;
fn agrees(r: &Res, e: &Exp) -> bool {
    match (r, e) {
        (Err(()), Exp::Err) => true,
        (Ok(a), Exp::Bytes(b)) => a == b,
        _ => false,
    }
}
fn show(r: &Res) -> String {
    match r {
        Ok(v) => format!("Ok({} bytes: {})", v.len(), hex(&v[..v.len().min(60)])),
        Err(()) => "Err".into(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Conv,
    TypeVec,
    TypeBox,
    TypeStr,
    AppVec,
    AppString,
    User,
    AppUser,
    Uuid,
}

fn forms(sem: Sem) -> &'static [Form] {
    use Form::*;
    match sem {
        Sem::HexEncL | Sem::HexEncU | Sem::B64Enc(_) | Sem::B32Enc(_) => &[Conv, TypeVec, TypeBox, TypeStr, AppVec, AppString, User, AppUser],
        Sem::HexDec | Sem::B64Dec(_) | Sem::B32Dec(_) => &[Conv, TypeVec, TypeBox, AppVec, User, AppUser],
        #[cfg(feature = "ext")]
        Sem::UuidParse | Sem::UuidParseS | Sem::UuidParseH => &[Uuid],
        _ => &[],
    }
}

fn owned(sem: Sem, s: &[u8]) -> Res {
    let f = forms(sem)[0];
    let mut t = Target::default();
    let r = invoke(sem, f, s, &mut t);
    r
}

/// A type of the caller's.
struct User {
    got: Vec<Given>,
}
thread_local! {
    static FAIL: Cell<bool> = const { Cell::new(false) };
}
fn an_error_64() -> base64_simd::Error {
    base64_simd::STANDARD.decode_to_vec("!").unwrap_err()
}
fn variant_64(b: &base64_simd::Base64) -> Variant {
    let url = b.charset()[62] == b'-';
    let pad = b.encoded_length(1) == 4;
    Variant::B64(url as usize | (!pad as usize) << 1)
}
fn variant_32(b: &base32_simd::Base32) -> Variant {
    let hex = b.charset()[0] == b'0';
    let pad = b.encoded_length(1) == 8;
    Variant::B32(hex as usize | (!pad as usize) << 1)
}
fn given(data: &[u8], variant: Variant) -> Given {
    Given { data: data.to_vec(), variant, fail: FAIL.get() }
}
impl hex_simd::FromHexEncode for User {
    fn from_hex_encode(data: &[u8], case: hex_simd::AsciiCase) -> Self {
        User { got: vec![given(data, if matches!(case, Lower) { Variant::HexL } else { Variant::HexU })] }
    }
}
impl hex_simd::AppendHexEncode for User {
    fn append_hex_encode(src: &[u8], dst: &mut Self, case: hex_simd::AsciiCase) {
        dst.got.push(given(src, if matches!(case, Lower) { Variant::HexL } else { Variant::HexU }));
    }
}
impl hex_simd::FromHexDecode for User {
    fn from_hex_decode(data: &[u8]) -> Result<Self, hex_simd::Error> {
        let g = given(data, Variant::HexD);
        if g.fail { Err(hex_simd::decode_to_vec("!!").unwrap_err()) } else { Ok(User { got: vec![g] }) }
    }
}
impl hex_simd::AppendHexDecode for User {
    fn append_hex_decode(src: &[u8], dst: &mut Self) -> Result<(), hex_simd::Error> {
        let g = given(src, Variant::HexD);
        let f = g.fail;
        dst.got.push(g);
        if f { Err(hex_simd::decode_to_vec("!!").unwrap_err()) } else { Ok(()) }
    }
}
impl base64_simd::FromBase64Encode for User {
    fn from_base64_encode(b: &base64_simd::Base64, data: &[u8]) -> Self {
        User { got: vec![given(data, variant_64(b))] }
    }
}
impl base64_simd::AppendBase64Encode for User {
    fn append_base64_encode(b: &base64_simd::Base64, src: &[u8], dst: &mut Self) {
        dst.got.push(given(src, variant_64(b)));
    }
}
impl base64_simd::FromBase64Decode for User {
    fn from_base64_decode(b: &base64_simd::Base64, data: &[u8]) -> Result<Self, base64_simd::Error> {
        let g = given(data, variant_64(b));
        if g.fail { Err(an_error_64()) } else { Ok(User { got: vec![g] }) }
    }
}
impl base64_simd::AppendBase64Decode for User {
    fn append_base64_decode(b: &base64_simd::Base64, src: &[u8], dst: &mut Self) -> Result<(), base64_simd::Error> {
        let g = given(src, variant_64(b));
        let f = g.fail;
        dst.got.push(g);
        if f { Err(an_error_64()) } else { Ok(()) }
    }
}
impl base32_simd::FromBase32Encode for User {
    fn from_base32_encode(b: &base32_simd::Base32, data: &[u8]) -> Self {
        User { got: vec![given(data, variant_32(b))] }
    }
}
impl base32_simd::AppendBase32Encode for User {
    fn append_base32_encode(b: &base32_simd::Base32, src: &[u8], dst: &mut Self) {
        dst.got.push(given(src, variant_32(b)));
    }
}
impl base32_simd::FromBase32Decode for User {
    fn from_base32_decode(b: &base32_simd::Base32, data: &[u8]) -> Result<Self, base32_simd::Error> {
        let g = given(data, variant_32(b));
        if g.fail { Err(base32_simd::BASE32.decode_to_vec("!").unwrap_err()) } else { Ok(User { got: vec![g] }) }
    }
}
impl base32_simd::AppendBase32Decode for User {
    fn append_base32_decode(b: &base32_simd::Base32, src: &[u8], dst: &mut Self) -> Result<(), base32_simd::Error> {
        let g = given(src, variant_32(b));
        let f = g.fail;
        dst.got.push(g);
        if f { Err(base32_simd::BASE32.decode_to_vec("!").unwrap_err()) } else { Ok(()) }
    }
}

/// What appends append to.
#[derive(Default)]
struct Target {
    vec: Vec<u8>,
    text: String,
    user: Option<User>,
}

fn text(r: Box<str>) -> Vec<u8> {
    r.into_string().into_bytes()
}

/// The call. Appended bytes are returned like others; a user's type is left in the target.
fn invoke<S: AsRef<[u8]>>(sem: Sem, form: Form, s: S, t: &mut Target) -> Res {
    use Form::*;
    let at = match form {
        AppVec => t.vec.len(),
        AppString => t.text.len(),
        _ => 0,
    };
    fn un<E: fmt::Debug>(r: Result<(), E>) -> Result<(), ()> {
        r.map_err(|_| ())
    }
    macro_rules! dec {
        ($o:expr, $ty:ident, $app:ident, $conv:ident) => {
            match form {
                Conv => return $o.$conv(s).map_err(|_| ()),
                TypeVec => return $o.$ty::<Vec<u8>>(s).map_err(|_| ()),
                TypeBox => return $o.$ty::<Box<[u8]>>(s).map(|b| b.into()).map_err(|_| ()),
                AppVec => un($o.$app(s, &mut t.vec))?,
                User => t.user = Some($o.$ty(s).map_err(|_| ())?),
                AppUser => un($o.$app(s, t.user.as_mut().unwrap()))?,
                _ => unreachable!(),
            }
        };
    }
    macro_rules! enc_obj {
        ($o:expr) => {
            match form {
                Conv => return Ok($o.encode_to_string(s).into_bytes()),
                TypeVec => return Ok($o.encode_type::<Vec<u8>>(s)),
                TypeBox => return Ok($o.encode_type::<Box<[u8]>>(s).into()),
                TypeStr => return Ok(text($o.encode_type::<Box<str>>(s))),
                AppVec => $o.encode_append(s, &mut t.vec),
                AppString => $o.encode_append(s, &mut t.text),
                User => t.user = Some($o.encode_type(s)),
                AppUser => $o.encode_append(s, t.user.as_mut().unwrap()),
                Uuid => unreachable!(),
            }
        };
    }
    struct Hex;
    impl Hex {
        fn decode_to_vec(&self, s: impl AsRef<[u8]>) -> Result<Vec<u8>, hex_simd::Error> {
            hex_simd::decode_to_vec(s)
        }
        fn decode_type<T: hex_simd::FromHexDecode>(&self, s: impl AsRef<[u8]>) -> Result<T, hex_simd::Error> {
            hex_simd::decode_type(s)
        }
        fn decode_append<T: hex_simd::AppendHexDecode>(&self, s: impl AsRef<[u8]>, t: &mut T) -> Result<(), hex_simd::Error> {
            hex_simd::decode_append(s, t)
        }
    }
    struct HexEnc(hex_simd::AsciiCase);
    impl HexEnc {
        fn encode_to_string(&self, s: impl AsRef<[u8]>) -> String {
            hex_simd::encode_to_string(s, self.0)
        }
        fn encode_type<T: hex_simd::FromHexEncode>(&self, s: impl AsRef<[u8]>) -> T {
            hex_simd::encode_type(s, self.0)
        }
        fn encode_append<T: hex_simd::AppendHexEncode>(&self, s: impl AsRef<[u8]>, t: &mut T) {
            hex_simd::encode_append(s, t, self.0)
        }
    }
    match sem {
        Sem::HexEncL => enc_obj!(HexEnc(Lower)),
        Sem::HexEncU => enc_obj!(HexEnc(Upper)),
        Sem::HexDec => dec!(Hex, decode_type, decode_append, decode_to_vec),
        Sem::B64Enc(v) => enc_obj!(b64(v)),
        Sem::B64Dec(v) => dec!(b64(v), decode_type, decode_append, decode_to_vec),
        Sem::B32Enc(v) => enc_obj!(b32(v)),
        Sem::B32Dec(v) => dec!(b32(v), decode_type, decode_append, decode_to_vec),
        #[cfg(feature = "ext")]
        Sem::UuidParse | Sem::UuidParseS | Sem::UuidParseH => {
            use uuid_simd::UuidExt as E;
            return match sem {
                Sem::UuidParse => <uuid::Uuid as E>::parse(s),
                Sem::UuidParseS => <uuid::Uuid as E>::parse_simple(s),
                _ => <uuid::Uuid as E>::parse_hyphenated(s),
            }
            .map(|u| u.as_bytes().to_vec())
            .map_err(|_| ());
        }
        _ => unreachable!(),
    }
    Ok(match form {
        AppVec => t.vec[at..].to_vec(),
        AppString => t.text.as_bytes()[at..].to_vec(),
        _ => vec![],
    })
}

fn variant(sem: Sem) -> Variant {
    match sem {
        Sem::HexEncL => Variant::HexL,
        Sem::HexEncU => Variant::HexU,
        Sem::B64Enc(v) | Sem::B64Dec(v) => Variant::B64(spec::b64_url(v) as usize | (!spec::b64_pad(v) as usize) << 1),
        Sem::B32Enc(v) | Sem::B32Dec(v) => Variant::B32(matches!(v, spec::B32::Hex | spec::B32::HexNoPad) as usize | (!spec::b32_pad(v) as usize) << 1),
        _ => Variant::HexD,
    }
}

#[derive(Default)]
pub struct Seen {
    pub asked: u64,
    pub panics: u64,
    pub nested: u64,
    pub user: u64,
    pub writers: u64,
    pub closures: u64,
}

/// One call with a source of the caller's.
fn sourced(sem: Sem, form: Form, sizes: &[usize], rng: &mut Rng, acct: &Account, st: &mut Stats, seen: &mut Seen) -> Result<(), (String, Vec<u8>)> {
    let mut n = *rng.pick(sizes);
    if sizes.len() > 5 && rng.one_in(60) {
        n = *rng.pick(&[1000usize, 5000, 20_000, 70_000]);
    }
    let mut text = |n: usize| story::case(sem, Mode::Conv, n, rng).s;
    let mut texts = vec![text(n)];
    for k in 0..3 {
        texts.push(text([n, 2 * n + 40, 5][k]));
    }
    let other = story::case(sem, Mode::Conv, 40, rng).s;
    if rng.one_in(3) {
        texts.truncate(1);
    }
    rng.shuffle(&mut texts);
    let expected: Vec<Exp> = texts.iter().map(|s| spec::expect(sem, s)).collect();
    let first = texts[0].clone();
    let fail = rng.one_in(4);
    let (panic_at, nest) = match rng.below(6) {
        0 => (0, false),
        1 => (1, false),
        2 => (usize::MAX, true),
        _ => (usize::MAX, false),
    };
    let prior_len = rng.below(60);
    let prior = rng.bytes(prior_len).iter().map(|b| b & 127).collect::<Vec<u8>>();
    let spare = rng.below(200);
    st.inputs += 1;
    st.seen.insert(ops::hash(ops::sem_index_fast(sem) << 8 | form as u64, &first));

    let log = Log::default();
    // (grown beforehand, so that it is not part of the account)
    log.given.borrow_mut().reserve(64);
    let mut t = Target::default();
    let mut out: Option<Res> = None;
    let mut result_user = None;
    let (l0, b0) = (acct.live)();
    (acct.on)(true);
    {
        t.vec.reserve_exact(prior.len() + spare);
        t.vec.extend_from_slice(&prior);
        t.text.reserve_exact(prior.len() + spare);
        t.text.push_str(std::str::from_utf8(&prior).unwrap());
        if form == Form::AppUser {
            t.user = Some(User { got: vec![] });
        }
        FAIL.set(fail);
        let mut src = Some(Source { texts: texts.clone(), panic_at, nest: nest.then_some((sem, &other[..])), log: &log });
        let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| invoke(sem, form, src.take().unwrap(), &mut t)));
        match p {
            Ok(r) => out = Some(r),
            Err(p) => {
                if p.downcast_ref::<Mine>().map(|m| m.0) != Some(77) {
                    (acct.on)(false);
                    return Err(("a panic other than the one of the source's as_ref".into(), first));
                }
                drop(p);
            }
        }
        (acct.on)(false);
        // what is kept is copied outside the account
        if let Some(u) = &t.user {
            result_user = Some(u.got.clone());
        }
    }
    let (vec, text_) = (t.vec.clone(), t.text.clone());
    let copy = out.clone();
    (acct.on)(true);
    drop(t);
    drop(out);
    (acct.on)(false);
    let out = copy;

    st.calls += 1;
    seen.asked += log.given.borrow().len() as u64;
    seen.panics += log.panicked.get() as u64;
    seen.nested += log.nested.get();
    let given = log.given.borrow().clone();
    let bad = |w: String| Err((w, first.clone()));
    if let Some(w) = (acct.offence)() {
        return bad(w);
    }
    if (acct.live)().0 != l0 {
        return bad(format!("{} block(s) of {} bytes neither returned nor released{}", (acct.live)().0 - l0, (acct.live)().1 - b0, if log.panicked.get() { " after the source panicked" } else { "" }));
    }
    if log.dropped.get() != 1 {
        return bad(format!("the source was dropped {} times", log.dropped.get()));
    }
    if let Some(w) = log.wrong.borrow_mut().take() {
        return bad(w);
    }
    let clean = vec.starts_with(&prior) && text_.as_bytes().starts_with(&prior);
    match &out {
        None => {
            st.err += 1;
            if !log.panicked.get() {
                return bad("a panic, although the source did not panic".into());
            }
            if vec != prior || text_.as_bytes() != prior || result_user.is_some_and(|u| !u.is_empty()) {
                return bad("the target of an append changed although the source panicked".into());
            }
        }
        Some(_) if log.panicked.get() => return bad("the panic of the source was swallowed".into()),
        Some(r) => {
            if given.is_empty() {
                return bad("the source was never asked".into());
            }
            if matches!(form, Form::User | Form::AppUser) {
                seen.user += 1;
                let fails = fail && !matches!(sem, Sem::HexEncL | Sem::HexEncU | Sem::B64Enc(_) | Sem::B32Enc(_));
                if r.is_err() != fails {
                    return bad(format!("the caller's implementation returned {}, the call {}", if fails { "Err" } else { "Ok" }, show(r)));
                }
                match result_user {
                    None if fails => {}
                    Some(u) if u.len() == 1 && u[0].variant == variant(sem) && given.iter().any(|&k| texts[k] == u[0].data) => {}
                    Some(u) => return bad(format!("the caller's implementation was called {} times, with {:?} and {} bytes that the source did not give", u.len(), u.first().map(|g| g.variant), u.first().map_or(0, |g| g.data.len()))),
                    None => return bad("the caller's value is lost".into()),
                }
                st.ok += 1;
                return Ok(());
            }
            if !given.iter().any(|&k| agrees(r, &expected[k])) {
                return bad(format!("{}, which is not the result of any answer that the source gave (answers: {})", show(r), given.iter().map(|k| format!("{} bytes", texts[*k].len())).collect::<Vec<_>>().join(", ")));
            }
            let grown = |n: usize| n - prior.len();
            let want = |f: Form| if form == f { r.as_ref().map_or(0, |v| v.len()) } else { 0 };
            if !clean || grown(vec.len()) != want(Form::AppVec) || grown(text_.len()) != want(Form::AppString) {
                return bad("the target of an append holds something else than its old contents and the result".into());
            }
            if r.is_ok() {
                st.ok += 1
            } else {
                st.err += 1
            }
        }
    }
    Ok(())
}

/// The kinds of sources that callers use, by value and by reference.
fn kinds(sem: Sem, form: Form, rng: &mut Rng, st: &mut Stats) -> Result<(), (String, Vec<u8>)> {
    let n = rng.below(120);
    let s = story::case(sem, Mode::Conv, n, rng).s;
    let e = spec::expect(sem, &s);
    let mut go = |name: &str, f: &mut dyn FnMut(&mut Target) -> Res| {
        let mut t = Target::default();
        t.user = Some(User { got: vec![] });
        let r = f(&mut t);
        st.calls += 1;
        if agrees(&r, &e) { Ok(()) } else { Err((format!("{} from a {name}", show(&r)), s.clone())) }
    };
    use std::borrow::Cow;
    go("vector", &mut |t| invoke(sem, form, s.clone(), t))?;
    go("reference to a vector", &mut |t| invoke(sem, form, &s, t))?;
    go("slice", &mut |t| invoke(sem, form, &s[..], t))?;
    go("reference to a slice", &mut |t| invoke(sem, form, &&s[..], t))?;
    go("box", &mut |t| invoke(sem, form, s.clone().into_boxed_slice(), t))?;
    go("counted reference", &mut |t| invoke(sem, form, std::rc::Rc::<[u8]>::from(&s[..]), t))?;
    go("cow", &mut |t| invoke(sem, form, Cow::Borrowed(&s[..]), t))?;
    if let Ok(x) = std::str::from_utf8(&s) {
        go("str", &mut |t| invoke(sem, form, x, t))?;
        go("string", &mut |t| invoke(sem, form, x.to_string(), t))?;
    }
    let mut a = [0u8; 37];
    a[..s.len().min(37)].copy_from_slice(&s[..s.len().min(37)]);
    let e = spec::expect(sem, &a);
    let mut t = Target::default();
    let r = invoke(sem, form, a, &mut t);
    st.calls += 1;
    if !agrees(&r, &e) {
        return Err((format!("{} from an array", show(&r)), a.to_vec()));
    }
    Ok(())
}

#[cfg(feature = "ext")]
struct Bomb {
    text: String,
    left: usize,
}
#[cfg(feature = "ext")]
impl fmt::Write for Bomb {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            std::panic::panic_any(Mine(5));
        }
        self.left -= 1;
        self.text.push_str(s);
        Ok(())
    }
}

/// Writers that panic while a UUID is written to them.
#[cfg(feature = "ext")]
fn writers(rng: &mut Rng, acct: &Account, st: &mut Stats, seen: &mut Seen) -> Result<(), (String, Vec<u8>)> {
    use std::fmt::Write;
    use uuid_simd::UuidExt as E;
    let d = rng.bytes(16);
    let u = uuid::Uuid::from_slice(&d).unwrap();
    let w = rng.below(60);
    let left = rng.below(30);
    for k in 0..6 {
        let upper = k % 2 == 1;
        let simple = k >= 3;
        let plain = String::from_utf8(spec::uuid_fmt(&d, upper, !simple)).unwrap();
        let padded = format!("{plain:>w$}");
        let mut b = Bomb { text: String::new(), left };
        let (l0, b0) = (acct.live)();
        b.text.reserve(200);
        (acct.on)(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (simple, upper) {
            (false, false) => write!(b, "{:>w$}", E::format_hyphenated(&u)),
            (false, true) => write!(b, "{:>w$X}", E::format_hyphenated(&u)),
            (true, false) => write!(b, "{:>w$x}", E::format_simple(&u)),
            (true, true) => write!(b, "{:>w$X}", E::format_simple(&u)),
        }));
        let panicked = r.is_err();
        drop(r);
        (acct.on)(false);
        st.calls += 1;
        seen.writers += 1;
        seen.panics += panicked as u64;
        if let Some(w) = (acct.offence)() {
            return Err((w, d));
        }
        if (acct.live)().0 != l0 {
            return Err((format!("{} bytes neither returned nor released after a writer panicked", (acct.live)().1 - b0), d));
        }
        let whole = b.text == padded;
        if !padded.starts_with(&b.text) || panicked == whole {
            return Err((format!("{:?} written to a writer that {}, {padded:?} expected", b.text, if panicked { "panicked" } else { "accepts everything" }), d));
        }
        let after = match (simple, upper) {
            (false, false) => format!("{}", E::format_hyphenated(&u)),
            (false, true) => format!("{:X}", E::format_hyphenated(&u)),
            (true, false) => format!("{}", E::format_simple(&u)),
            (true, true) => format!("{:X}", E::format_simple(&u)),
        };
        if after != plain {
            return Err((format!("{after:?} after a writer panicked, {plain:?} expected"), d));
        }
    }
    Ok(())
}
#[cfg(not(feature = "ext"))]
fn writers(_: &mut Rng, _: &Account, _: &mut Stats, _: &mut Seen) -> Result<(), (String, Vec<u8>)> {
    Ok(())
}

/// Closures given to `Native::exec`.
fn closures(rng: &mut Rng, st: &mut Stats, seen: &mut Seen) -> Result<(), (String, Vec<u8>)> {
    struct Counted<'a>(&'a Cell<u32>, Vec<u8>);
    impl Drop for Counted<'_> {
        fn drop(&mut self) {
            self.0.set(self.0.get() + 1);
        }
    }
    let d_len = rng.below(300);
    let d = rng.bytes(d_len);
    let (runs, drops) = (Cell::new(0u32), Cell::new(0u32));
    let bomb = rng.one_in(3);
    let nested = rng.one_in(3);
    let n = vsimd::native::Native::detect();
    let c = Counted(&drops, d.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        n.exec(|| {
            runs.set(runs.get() + 1);
            if bomb {
                std::panic::panic_any(Mine(9));
            }
            let mut v: Vec<u8> = c.1.iter().map(|b| b.wrapping_mul(3).rotate_left(2)).collect();
            if nested {
                v = n.exec(move || v.iter().map(|b| b ^ 0x55).collect());
            }
            (c, v)
        })
    }));
    let want: Vec<u8> = d.iter().map(|b| b.wrapping_mul(3).rotate_left(2) ^ if nested { 0x55 } else { 0 }).collect();
    st.calls += 1;
    seen.closures += 1;
    let ok = match r {
        Ok((c, v)) => !bomb && v == want && drops.get() == 0 && c.1 == d,
        Err(p) => bomb && p.downcast_ref::<Mine>().map(|m| m.0) == Some(9),
    };
    if !ok || runs.get() != 1 || drops.get() != 1 {
        return Err((format!("a closure run {} times, its captures dropped {} times, result {}", runs.get(), drops.get(), if ok { "right" } else { "wrong" }), d));
    }
    Ok(())
}

impl Seen {
    pub fn json(&self) -> String {
        format!(
            "\"asked\":{},\"panics\":{},\"reentrant\":{},\"user_types\":{},\"writers\":{},\"closures\":{}",
            self.asked, self.panics, self.nested, self.user, self.writers, self.closures
        )
    }
}

pub struct Wrong {
    pub op: String,
    pub what: String,
    pub src: Vec<u8>,
}

pub fn run(sc: Scale, seed: u64, acct: &Account, st: &mut Stats, seen: &mut Seen) -> Result<(), Wrong> {
    let mut rng = Rng::new(seed);
    let pairs: Vec<(Sem, Form)> = ops::all_sems().into_iter().flat_map(|s| forms(s).iter().map(move |&f| (s, f))).collect();
    // panics allocate for themselves the first time
    for _ in 0..3 {
        let _ = std::panic::catch_unwind(|| std::panic::panic_any(Mine(0)));
    }
    // (in an interpreter: half of them, short)
    let tiny = matches!(sc, Scale::Tiny);
    let sizes: &[usize] = if tiny { &[0, 3, 16, 30, 48] } else { &[0, 3, 16, 30, 48, 100, 300] };
    for round in 0..sc.by(1, 40, 600, 6000) {
        for (k, &(sem, form)) in pairs.iter().enumerate() {
            if tiny && (k as u64 ^ seed) & 1 == 1 {
                continue;
            }
            let mut r = sourced(sem, form, sizes, &mut rng, acct, st, seen);
            if r.is_ok() && round % 8 == 0 && (!tiny || k % 8 < 2) && !matches!(form, Form::User | Form::AppUser) {
                r = kinds(sem, form, &mut rng, st);
            }
            r.map_err(|(what, src)| Wrong { op: format!("{sem:?}/{form:?}"), what, src })?;
        }
        writers(&mut rng, acct, st, seen).map_err(|(what, src)| Wrong { op: "formatting a UUID".into(), what, src })?;
        closures(&mut rng, st, seen).map_err(|(what, src)| Wrong { op: "Native::exec".into(), what, src })?;
        if round % 16 == 0 {
            (acct.compact)();
        }
        if st.samples.len() < 3 {
            st.samples.push(format!("{} calls; {}", st.calls, seen.json().replace('"', "")));
        }
    }
    Ok(())
}
