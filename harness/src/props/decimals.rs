//! Properties of the number types: decimals with a fixed scale and wide integers.

use crate::engine::*;
use crate::ensure;
use crate::refmath::*;
use decimal::*;
use crate::sut::types::*;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::fmt::Display;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};

/// An integer type of fixed width.
pub trait Int: Copy {
    const BITS: usize;
    const NAME: &'static str;
    fn n(&self) -> N;
    /// `v` fits.
    fn of(v: &N) -> Self;
    fn max() -> N {
        (N::one() << Self::BITS) - N::one()
    }
}
macro_rules! wide {
    ($($t:ident $bits:literal),*) => { $(
        impl Int for $t {
            const BITS: usize = $bits;
            const NAME: &'static str = stringify!($t);
            fn n(&self) -> N {
                let mut b = [0u8; $bits / 8];
                self.to_little_endian(&mut b);
                N::from_bytes_le(&b)
            }
            fn of(v: &N) -> Self {
                $t::from_little_endian(&v.to_bytes_le())
            }
        }
    )* };
}
wide!(U128 128, U192 192, U256 256, U320 320, U384 384, U448 448, U512 512);
macro_rules! small {
    ($($t:ident),*) => { $(
        impl Int for $t {
            const BITS: usize = $t::BITS as usize;
            const NAME: &'static str = stringify!($t);
            fn n(&self) -> N {
                N::from(*self)
            }
            fn of(v: &N) -> Self {
                $t::try_from(v).unwrap()
            }
        }
    )* };
}
small!(u8, u16, u32, u64, u128);

/// A number of at most `bits` bits: all sizes, sparse, and about the ends.
fn of_bits(src: &mut Src, bits: usize) -> N {
    let max = (N::one() << bits) - N::one();
    let low = n(src.skewed(u128::MAX)) & &max;
    match src.below(8) {
        0 | 1 => low,
        2 => &max - low,
        3 => (0..8).fold(N::zero(), |a, _| (a << 64) + N::from(src.limb())) & max,
        4 => {
            let e = N::one() << src.below(bits as u64) as usize;
            let d = N::from(src.below(3));
            if src.bool() { (e + d) & max } else { &e - d.min(e.clone()) }
        }
        5 => pow10(src.below(bits as u64 * 3 / 10) as u32) & max,
        _ => {
            let v = (0..8).fold(N::zero(), |a, _| (a << 64) + N::from(src.word()));
            (v & max) >> src.below(bits as u64) as usize
        }
    }
}
/// Often about what takes a product with `a` to `limit`.
fn about(src: &mut Src, a: &N, limit: &N, bits: usize) -> N {
    if a.is_zero() || src.bool() {
        return of_bits(src, bits);
    }
    let q = limit / a;
    let d = N::from(src.below(3));
    let v = if src.bool() { q + d } else { &q - d.min(q.clone()) };
    if v.bits() as usize > bits { of_bits(src, bits) } else { v }
}

/// What a call may do: give this number, or refuse because something does not fit.
struct Want {
    value: Option<N>,
    /// The numbers on the way that must fit for the call to be owed an answer, and their limits.
    fits: bool,
}
fn check(what: &str, args: &dyn Fn() -> String, got: Option<N>, want: Want) -> Res {
    match (&got, &want.value) {
        (Some(g), Some(w)) if g == w => Ok(()),
        (None, None) => Ok(()),
        (None, Some(_)) if !want.fits => Ok(()),
        _ => fail("wrong", format!("{what} of {}: {got:?}, should be {:?}", args(), want.value)),
    }
}
fn q(up: bool, a: &N, b: &N) -> Option<N> {
    (!b.is_zero()).then(|| if up { ceil_div(a, b) } else { a.div_floor(b) })
}
fn r<T>(f: impl FnOnce() -> T) -> Option<T> {
    attempt(f)
}
fn c<T, E>(f: impl FnOnce() -> Result<T, E>) -> Option<T> {
    attempt(f)?.ok()
}

// ---------------------------------------------------------------- two decimals

pub trait Dec<Big>: Decimal + Copy
where
    Self::U: Int,
{
    const NAME: &'static str;
}
macro_rules! decs {
    ($($t:ident $big:ident),*) => { $(
        impl Dec<$big> for $t {
            const NAME: &'static str = stringify!($t);
        }
    )* };
}
decs!(Liquidity U512, SqrtPrice U384, FeeGrowth U256, Percentage U256, FixedPoint U192, TokenAmount U512, SecondsPerLiquidity U256);

fn pair<A, BigA, B, BigB>(src: &mut Src, ctx: &mut Ctx) -> Res
where
    A: Dec<BigA> + BigOps<B> + Mul<B, Output = A> + Div<B, Output = A> + Others<B> + ToValue<B, BigA> + BetweenDecimals<B>,
    A: BetweenDecimalsToValue<B, BigA>,
    B: Dec<BigB>,
    BigA: Int,
    A::U: Int,
    B::U: Int,
{
    let (bits, big) = (<A::U as Int>::BITS, BigA::BITS);
    let a = of_bits(src, bits);
    let one = pow10(B::scale() as u32);
    let limit = match src.below(4) {
        0 => A::U::max(),
        1 => BigA::max(),
        2 => A::U::max() * &one,
        _ => A::U::max() * &one / n(1000),
    };
    let b = about(src, &a, &limit, <B::U as Int>::BITS);
    ctx.log(|| format!("{} {a} and {} {b}", A::NAME, B::NAME));
    let args = || format!("{} {a} and {} {b}", A::NAME, B::NAME);
    let (x, y) = (A::new(A::U::of(&a)), B::new(B::U::of(&b)));
    let small = |v: &N| v.bits() as usize <= bits;
    let wide = |v: &N| v.bits() as usize <= big;
    let get = |v: A| v.get().n();
    let product = &a * &b;
    let scaled = &a * &one;
    ctx.nontrivial = a > n(1) && b > n(1);
    // through the wide type
    let owed = wide(&b) && wide(&product);
    check("product", &args, r(|| get(x.big_mul(y))), Want { value: q(false, &product, &one).filter(small), fits: owed })?;
    let owed_up = wide(&b) && wide(&(&product + &one));
    check("product rounded up", &args, r(|| get(x.big_mul_up(y))), Want { value: q(true, &product, &one).filter(small), fits: owed_up })?;
    check("product as a number", &args, r(|| x.big_mul_to_value(y).n()), Want { value: q(false, &product, &one).filter(wide), fits: owed })?;
    check("product as a number rounded up", &args, r(|| x.big_mul_to_value_up(y).n()), Want { value: q(true, &product, &one).filter(wide), fits: owed_up })?;
    let owed = wide(&b) && wide(&scaled);
    let down = q(false, &scaled, &b).filter(small);
    check("quotient", &args, r(|| get(x.big_div(y))), Want { value: down.clone(), fits: owed })?;
    check("checked quotient", &args, c(|| x.checked_big_div(y)).map(get), Want { value: down, fits: owed })?;
    let owed = wide(&b) && wide(&(&scaled + &b));
    check("quotient rounded up", &args, r(|| get(x.big_div_up(y))), Want { value: q(true, &scaled, &b).filter(small), fits: owed })?;
    // in the type itself
    let owed = small(&b) && small(&one) && small(&product);
    check("*", &args, r(|| get(x * y)), Want { value: q(false, &product, &one).filter(small), fits: owed })?;
    let owed = small(&b) && small(&one) && small(&(&product + &one));
    check("* rounded up", &args, r(|| get(x.mul_up(y))), Want { value: q(true, &product, &one).filter(small), fits: owed })?;
    let owed = small(&b) && small(&one) && small(&scaled);
    check("/", &args, r(|| get(x / y)), Want { value: q(false, &scaled, &b).filter(small), fits: owed })?;
    let owed = small(&b) && small(&one) && small(&(&scaled + &b));
    check("/ rounded up", &args, r(|| get(x.div_up(y))), Want { value: q(true, &scaled, &b).filter(small), fits: owed })?;
    // from one scale to another
    let mine = pow10(A::scale() as u32);
    let num = &b * &mine;
    let down = q(false, &num, &one);
    let owed = small(&b) && small(&num);
    let owed_wide = wide(&b) && wide(&num);
    let get = |v: A| v.get().n();
    check("conversion", &args, r(|| get(A::from_decimal(y))), Want { value: down.clone().filter(small), fits: owed || mine <= one && small(&b) })?;
    check("checked conversion", &args, c(|| A::checked_from_decimal(y)).map(get), Want { value: down.clone().filter(small), fits: owed || mine <= one && small(&b) })?;
    let up = q(true, &num, &one);
    check("conversion rounded up", &args, r(|| get(A::from_decimal_up(y))), Want { value: up.filter(small), fits: owed && small(&(&b + &one)) })?;
    check("conversion to a number", &args, c(|| A::checked_from_decimal_to_value(y)).map(|v| v.n()), Want { value: down.filter(wide), fits: owed_wide || mine <= one && wide(&b) })?;
    Ok(())
}

// ---------------------------------------------------------------- one type

fn solo<A, Big>(src: &mut Src, ctx: &mut Ctx) -> Res
where
    A: Dec<Big> + Add<Output = A> + Sub<Output = A> + AddAssign + SubAssign + MulAssign + DivAssign + CheckedOps + OthersSameType + Display,
    A: FactoriesUnderlying<U = <A as Decimal>::U> + Factories<u64> + Factories<U256> + FactoriesToValue<U256, Big> + ByNumber<Big>,
    A: Mul<A, Output = A> + Div<A, Output = A>,
    Big: Int,
    <A as Decimal>::U: Int,
{
    type U<A> = <A as Decimal>::U;
    let bits = <U<A> as Int>::BITS;
    let max = U::<A>::max();
    let a = of_bits(src, bits);
    let b = match src.below(4) {
        0 => {
            // about what adds up to the maximum
            let d = N::from(src.below(3));
            let rest = &max - &a;
            if src.bool() { (&rest + d).min(max.clone()) } else { &rest - d.min(rest.clone()) }
        }
        1 => {
            let d = N::from(src.below(3));
            if src.bool() { (&a + d).min(max.clone()) } else { &a - d.min(a.clone()) }
        }
        _ => of_bits(src, bits),
    };
    ctx.log(|| format!("{} {a} {b}", A::NAME));
    ctx.nontrivial = a > n(1) && b > n(1);
    let args = || format!("{} {a} and {b}", A::NAME);
    let (x, y) = (A::new(U::<A>::of(&a)), A::new(U::<A>::of(&b)));
    let get = |v: A| v.get().n();
    let small = |v: &N| v.bits() as usize <= bits;
    let wide = |v: &N| v.bits() as usize <= Big::BITS;
    let yes = |v: Option<N>| Want { value: v, fits: true };
    let one = pow10(A::scale() as u32);
    // sums and differences
    let sum = Some(&a + &b).filter(small);
    let diff = (a >= b).then(|| &a - &b);
    check("+", &args, r(|| get(x + y)), yes(sum.clone()))?;
    check("checked +", &args, c(|| x.checked_add(y)).map(get), yes(sum.clone()))?;
    check("-", &args, r(|| get(x - y)), yes(diff.clone()))?;
    check("checked -", &args, c(|| x.checked_sub(y)).map(get), yes(diff.clone()))?;
    check("distance", &args, r(|| get(x.sub_abs(y))), yes(Some(if a > b { &a - &b } else { &b - &a })))?;
    let own = q(false, &(&a * &one), &b).filter(small);
    check("checked /", &args, c(|| x.checked_div(y)).map(get), Want { value: own.clone(), fits: small(&(&a * &one)) })?;
    // in place: like the others
    let set = |f: &dyn Fn(&mut A)| {
        attempt(|| {
            let mut v = x;
            f(&mut v);
            get(v)
        })
    };
    check("+=", &args, set(&|v| *v += y), yes(sum))?;
    check("-=", &args, set(&|v| *v -= y), yes(diff))?;
    check("*=", &args, set(&|v| *v *= y), Want { value: r(|| get(x * y)), fits: true })?;
    check("/=", &args, set(&|v| *v /= y), Want { value: r(|| get(x / y)), fits: true })?;
    // by a plain number
    let m = about(src, &(&a * &one), &Big::max(), Big::BITS);
    let by = Big::of(&m);
    let args = || format!("{} {a} and the number {m}", A::NAME);
    let num = &a * &one;
    let (down, up) = (q(false, &num, &m).filter(small), q(true, &num, &m).filter(small));
    let owed = wide(&num);
    let owed_up = wide(&(&num + &m));
    check("quotient by number", &args, r(|| get(x.big_div_by_number(by))), Want { value: down.clone(), fits: owed })?;
    check("checked quotient by number", &args, c(|| x.checked_big_div_by_number(by)).map(get), Want { value: down, fits: owed })?;
    check("quotient by number rounded up", &args, r(|| get(x.big_div_by_number_up(by))), Want { value: up.clone(), fits: owed_up })?;
    check("checked quotient by number rounded up", &args, c(|| x.checked_big_div_by_number_up(by)).map(get), Want { value: up, fits: owed_up })?;
    // from numbers
    let scale = if src.bool() { src.below(40) as u8 } else { A::scale().saturating_add(src.below(5) as u8).saturating_sub(2) };
    let v = if src.bool() { of_bits(src, 64) } else { about(src, &pow10(A::scale().saturating_sub(scale) as u32), &max, bits) };
    let args = || format!("{} of {v} at scale {scale}", A::NAME);
    let p = pow10(scale as u32);
    let num = &v * &one;
    let whole = Some(&v * &one).filter(small);
    let (down, up) = (q(false, &num, &p), q(true, &num, &p));
    // what has to fit: the number, the power of ten between the scales and, going up, the product
    let ratio = if one >= p { &one / &p } else { &p / &one };
    let owed = small(&ratio) && (one <= p || small(&(&v * &ratio)));
    let owed_up = owed && (one > p || small(&(&v + &ratio)));
    let u = U::<A>::of(&v);
    check("from integer", &args, r(|| get(A::from_integer_underlying(u))), yes(whole.clone()))?;
    check("from scale", &args, r(|| get(A::from_scale_underlying(u, scale))), Want { value: down.clone().filter(small), fits: owed })?;
    check("checked from scale", &args, c(|| A::checked_from_scale_underlying(u, scale)).map(get), Want { value: down.clone().filter(small), fits: owed })?;
    check("from scale rounded up", &args, r(|| get(A::from_scale_up_underlying(u, scale))), Want { value: up.clone().filter(small), fits: owed_up })?;
    if v.bits() <= 64 {
        let u = u64::of(&v);
        check("from integer", &args, r(|| get(A::from_integer(u))), yes(whole.clone()))?;
        check("from scale", &args, r(|| get(A::from_scale(u, scale))), Want { value: down.clone().filter(small), fits: owed })?;
        check("checked from scale", &args, c(|| A::checked_from_scale(u, scale)).map(get), Want { value: down.clone().filter(small), fits: owed })?;
        check("from scale rounded up", &args, r(|| get(A::from_scale_up(u, scale))), Want { value: up.clone().filter(small), fits: owed_up })?;
    }
    if v.bits() <= 256 {
        let u = U256::of(&v);
        check("from wide integer", &args, r(|| get(A::from_integer(u))), Want { value: whole, fits: small(&v) })?;
        check("from wide scale", &args, r(|| get(A::from_scale(u, scale))), Want { value: down.clone().filter(small), fits: owed && small(&v) })?;
        let owed = ratio < N::one() << 128 && (one <= p || wide(&(&v * &ratio)));
        check("number from scale", &args, c(|| A::checked_from_scale_to_value(u, scale)).map(|v| v.n()), Want { value: down.filter(wide), fits: owed && wide(&v) })?;
    }
    // constants
    ensure!(get(A::one()) == one && A::max_value().n() == max && get(A::max_instance()) == max, "constants", "{}: one {} max {}", A::NAME, get(A::one()), A::max_value().n());
    ensure!(get(A::almost_one()) + n(1) == one, "constants", "{}: almost one {}", A::NAME, get(A::almost_one()));
    // the text is the number
    let text = x.to_string();
    let (int, frac) = text.split_once('.').unwrap_or((&text, ""));
    let ok = !int.is_empty() && int.bytes().chain(frac.bytes()).all(|c| c.is_ascii_digit()) && {
        let digits: N = format!("{int}{frac}").parse().unwrap();
        digits * &one == &a * pow10(frac.len() as u32)
    };
    ensure!(ok, "text", "{} {a} reads {text}", A::NAME);
    Ok(())
}

type Run = fn(&mut Src, &mut Ctx) -> Res;
macro_rules! table {
    ($($a:ident $biga:ident),*; $all:tt) => { &[ $( table!(@row $a $biga $all), )* ] };
    (@row $a:ident $biga:ident [$($b:ident $bigb:ident),*]) => { &[ $( pair::<$a, $biga, $b, $bigb> as Run ),*, solo::<$a, $biga> as Run, solo::<$a, $biga> as Run ] };
}
static TABLE: &[&[Run]] = table!(
    Liquidity U512, SqrtPrice U384, FeeGrowth U256, Percentage U256, FixedPoint U192, TokenAmount U512, SecondsPerLiquidity U256;
    [Liquidity U512, SqrtPrice U384, FeeGrowth U256, Percentage U256, FixedPoint U192, TokenAmount U512, SecondsPerLiquidity U256]
);

pub fn decimals(src: &mut Src, ctx: &mut Ctx) -> Res {
    let row = TABLE[src.usize(TABLE.len())];
    row[src.usize(row.len())](src, ctx)
}

// ---------------------------------------------------------------- wide integers

fn cast<A: Int, B: Int + UintCast<A> + UintCheckedCast<A>>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = match src.below(4) {
        // about the limit of the other
        0 => {
            let d = n(src.skewed(1 << 70));
            let v = if src.bool() { B::max() + d } else { B::max() - d.min(B::max()) };
            v.min(A::max())
        }
        // one piece set above it
        1 => {
            let low = of_bits(src, A::BITS.min(B::BITS)) ;
            (low + (N::one() << src.below(A::BITS as u64) as usize)).min(A::max())
        }
        _ => of_bits(src, A::BITS),
    };
    ctx.log(|| format!("{} {a} to {}", A::NAME, B::NAME));
    let want = (a <= B::max()).then(|| a.clone());
    ctx.nontrivial = a.bits() as usize * 2 > A::BITS;
    ctx.label(if want.is_some() { "fits" } else { "does not fit" });
    let v = A::of(&a);
    let (got, checked) = (r(|| B::uint_cast(v).n()), r(|| B::uint_checked_cast(v).map(|v| v.n())));
    ensure!(got == want, "cast", "{} {a} to {}: {got:?}", A::NAME, B::NAME);
    ensure!(checked.as_ref().map(|c| c.as_ref().ok()) == Some(want.as_ref()), "checked-cast", "{} {a} to {}: {checked:?}", A::NAME, B::NAME);
    Ok(())
}

macro_rules! casts {
    ($($a:ident: $($b:ident)*;)*) => { &[ $( $( cast::<$a, $b> as Run, )* )* ] };
}
static CASTS: &[Run] = casts!(
    U128: u8 u16 u32 u64 u128 U192 U256 U320 U384 U448 U512;
    U192: u8 u16 u32 u64 u128 U128 U256 U320 U384 U448 U512;
    U256: u8 u16 u32 u64 u128 U128 U192 U320 U384 U448 U512;
    U320: u8 u16 u32 u64 u128 U128 U192 U256 U384 U448 U512;
    U384: u8 u16 u32 u64 u128 U128 U192 U256 U320 U448 U512;
    U448: u8 u16 u32 u64 u128 U128 U192 U256 U320 U384 U512;
    U512: u8 u16 u32 u64 u128 U128 U192 U256 U320 U384 U448;
    u8: u128 U128 U192 U256 U320 U384 U448 U512;
    u16: u128 U128 U192 U256 U320 U384 U448 U512;
    u32: u128 U128 U192 U256 U320 U384 U448 U512;
    u64: u128 U128 U192 U256 U320 U384 U448 U512;
    u128: U128 U192 U256 U320 U384 U448 U512;
);

pub fn integers(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 10) {
        // the conversions by name
        let v = of_bits(src, 320);
        ctx.log(|| format!("U320 {v}"));
        ctx.nontrivial = v.bits() > 160;
        let fits = (v.bits() <= 256).then(|| v.clone());
        ensure!(r(|| checked_u320_to_u256(U320::of(&v)).map(|x| x.n())) == Some(fits.clone()), "named-cast", "U320 {v} to U256");
        let v = of_bits(src, 256);
        ensure!(u256_to_u320(U256::of(&v)).n() == v, "named-cast", "U256 {v} to U320");
        let v = src.skewed(u128::MAX);
        ensure!(decimal::to_u256(v).n() == n(v), "named-cast", "{v} to U256");
        return Ok(());
    }
    CASTS[src.usize(CASTS.len())](src, ctx)
}
