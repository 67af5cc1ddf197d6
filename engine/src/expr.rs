//! Bit-vector expressions (width 1..=128), immutable DAG with structural hashes.
use std::collections::HashMap;
use std::sync::Arc;

pub type E = Arc<Node>;
pub const MAXVARS: usize = 512;
const VW: usize = MAXVARS / 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct VarSet(pub [u64; VW]);
impl VarSet {
    pub const EMPTY: VarSet = VarSet([0; VW]);
    pub fn one(v: u32) -> VarSet {
        let mut s = Self::EMPTY;
        s.0[v as usize / 64] |= 1 << (v % 64);
        s
    }
    pub fn or(&self, o: &VarSet) -> VarSet {
        let mut s = *self;
        for i in 0..VW { s.0[i] |= o.0[i]; }
        s
    }
    pub fn intersects(&self, o: &VarSet) -> bool { (0..VW).any(|i| self.0[i] & o.0[i] != 0) }
    pub fn count(&self) -> u32 { self.0.iter().map(|x| x.count_ones()).sum() }
    pub fn has(&self, v: u32) -> bool { self.0[v as usize / 64] >> (v % 64) & 1 == 1 }
    pub fn first(&self) -> Option<u32> {
        for i in 0..VW { if self.0[i] != 0 { return Some((i * 64) as u32 + self.0[i].trailing_zeros()); } }
        None
    }
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        (0..VW).flat_map(move |i| {
            let mut x = self.0[i];
            std::iter::from_fn(move || {
                if x == 0 { None } else { let b = x.trailing_zeros(); x &= x - 1; Some((i * 64) as u32 + b) }
            })
        })
    }
    pub fn subset_of(&self, o: &VarSet) -> bool { (0..VW).all(|i| self.0[i] & !o.0[i] == 0) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum O { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Concat }

#[derive(Debug)]
pub enum K {
    Var(u32),
    Const(u128),
    Bin(O, E, E),
    Ite(E, E, E),
    Extract(u32, E), // low bit; width = node width
    ZExt(E),
    SExt(E),
}

#[derive(Debug)]
pub struct Node {
    pub h: u128,
    pub w: u32,
    pub size: u32,
    pub vars: VarSet,
    pub k: K,
}

pub fn mask(v: u128, w: u32) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    ((v << (128 - w)) as i128) >> (128 - w)
}

fn mix(a: u128, b: u128) -> u128 {
    const M: u128 = 0x9E3779B97F4A7C15F39CC0605CEDC835;
    let x = (a ^ b.rotate_left(61)).wrapping_mul(M);
    let x = (x ^ (x >> 67)).wrapping_mul(0xD6E8FEB86659FD93A0761D6478BD642F);
    x ^ (x >> 59)
}

fn node(w: u32, k: K) -> E {
    let (h, size, vars) = match &k {
        K::Var(v) => (mix(1, *v as u128), 1, VarSet::one(*v)),
        K::Const(c) => (mix(mix(2, *c), 7), 1, VarSet::EMPTY),
        K::Bin(o, a, b) => (mix(mix(mix(3, *o as u128), a.h), b.h), a.size.saturating_add(b.size).saturating_add(1), a.vars.or(&b.vars)),
        K::Ite(c, a, b) => (mix(mix(mix(4, c.h), a.h), b.h), a.size.saturating_add(b.size).saturating_add(c.size).saturating_add(1), a.vars.or(&b.vars).or(&c.vars)),
        K::Extract(l, a) => (mix(mix(5, *l as u128), a.h), a.size.saturating_add(1), a.vars),
        K::ZExt(a) => (mix(6, a.h), a.size.saturating_add(1), a.vars),
        K::SExt(a) => (mix(8, a.h), a.size.saturating_add(1), a.vars),
    };
    let h = mix(h, w as u128);
    Arc::new(Node { h, w, size, vars, k })
}

pub fn var(id: u32, w: u32) -> E { node(w, K::Var(id)) }
pub fn cst(v: u128, w: u32) -> E { node(w, K::Const(mask(v, w))) }
pub fn as_const(e: &E) -> Option<u128> { if let K::Const(c) = e.k { Some(c) } else { None } }
pub fn same(a: &E, b: &E) -> bool { Arc::ptr_eq(a, b) || (a.h == b.h && a.w == b.w) }

pub fn fold(o: O, a: u128, b: u128, w: u32) -> u128 {
    // w = operand width (of the first operand)
    match o {
        O::Add => mask(a.wrapping_add(b), w),
        O::Sub => mask(a.wrapping_sub(b), w),
        O::Mul => mask(a.wrapping_mul(b), w),
        O::UDiv => if b == 0 { mask(!0, w) } else { a / b },
        O::URem => if b == 0 { a } else { a % b },
        O::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { mask(!0, w) } } else { mask(x.wrapping_div(y) as u128, w) }
        }
        O::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { mask(x.wrapping_rem(y) as u128, w) }
        }
        O::And => a & b,
        O::Or => a | b,
        O::Xor => a ^ b,
        O::Shl => if b >= w as u128 { 0 } else { mask(a << b, w) },
        O::LShr => if b >= w as u128 { 0 } else { a >> b },
        O::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            mask((sext(a, w) >> s) as u128, w)
        }
        O::Eq => (a == b) as u128,
        O::Ult => (a < b) as u128,
        O::Ule => (a <= b) as u128,
        O::Slt => (sext(a, w) < sext(b, w)) as u128,
        O::Sle => (sext(a, w) <= sext(b, w)) as u128,
        O::Concat => unreachable!(),
    }
}

fn is_cmp(o: O) -> bool { matches!(o, O::Eq | O::Ult | O::Ule | O::Slt | O::Sle) }

pub fn not(a: &E) -> E {
    debug_assert!(a.w == 1);
    match &a.k {
        K::Const(c) => cst(c ^ 1, 1),
        K::Bin(O::Xor, x, y) if as_const(y) == Some(1) => x.clone(),
        K::Bin(O::Ult, x, y) => bin(O::Ule, y, x),
        K::Bin(O::Ule, x, y) => bin(O::Ult, y, x),
        K::Bin(O::Slt, x, y) => bin(O::Sle, y, x),
        K::Bin(O::Sle, x, y) => bin(O::Slt, y, x),
        _ => node(1, K::Bin(O::Xor, a.clone(), cst(1, 1))),
    }
}
pub fn is_not(a: &E) -> Option<&E> {
    match &a.k { K::Bin(O::Xor, x, y) if a.w == 1 && as_const(y) == Some(1) => Some(x), _ => None }
}

pub fn and1(a: &E, b: &E) -> E { bin(O::And, a, b) }
pub fn or1(a: &E, b: &E) -> E { bin(O::Or, a, b) }

pub fn bin(o: O, a: &E, b: &E) -> E {
    if let O::Concat = o { return concat(a, b); }
    let w = a.w;
    assert_eq!(a.w, b.w, "width mismatch in {:?}", o);
    if let (K::Const(x), K::Const(y)) = (&a.k, &b.k) {
        let r = fold(o, *x, *y, w);
        return cst(r, if is_cmp(o) { 1 } else { w });
    }
    // constants to the right for commutative operators
    let comm = matches!(o, O::Add | O::Mul | O::And | O::Or | O::Xor | O::Eq);
    if comm && as_const(a).is_some() { return bin(o, b, a); }
    let cb = as_const(b);
    let ca = as_const(a);
    let ones = mask(!0, w);
    match o {
        O::Add => {
            if cb == Some(0) { return a.clone(); }
            if let (Some(y), K::Bin(O::Add, p, q)) = (cb, &a.k) {
                if let Some(x) = as_const(q) { return bin(O::Add, p, &cst(x.wrapping_add(y), w)); }
            }
            // (p + c) + b -> (p + b) + c
            if cb.is_none() {
                if let K::Bin(O::Add, p, q) = &a.k {
                    if as_const(q).is_some() { return bin(O::Add, &bin(O::Add, p, b), q); }
                }
                if let K::Bin(O::Add, p, q) = &b.k {
                    if as_const(q).is_some() { return bin(O::Add, &bin(O::Add, a, p), q); }
                }
            }
        }
        O::Sub => {
            if let Some(y) = cb { return bin(O::Add, a, &cst((!y).wrapping_add(1), w)); }
            if same(a, b) { return cst(0, w); }
            // (p + c) - p
            if let K::Bin(O::Add, p, q) = &a.k { if same(p, b) { return q.clone(); } if same(q, b) { return p.clone(); } }
            if let (K::Bin(O::Add, p, q), K::Bin(O::Add, r, s)) = (&a.k, &b.k) {
                if same(p, r) { return bin(O::Sub, q, s); }
            }
        }
        O::Mul => {
            if cb == Some(0) { return cst(0, w); }
            if cb == Some(1) { return a.clone(); }
            if let Some(y) = cb { if y.is_power_of_two() { return bin(O::Shl, a, &cst(y.trailing_zeros() as u128, w)); } }
        }
        O::UDiv => {
            if cb == Some(1) { return a.clone(); }
            if let Some(y) = cb { if y.is_power_of_two() { return bin(O::LShr, a, &cst(y.trailing_zeros() as u128, w)); } }
        }
        O::URem => {
            if let Some(y) = cb { if y.is_power_of_two() { return bin(O::And, a, &cst(y - 1, w)); } }
        }
        O::And => {
            if cb == Some(0) { return cst(0, w); }
            if cb == Some(ones) { return a.clone(); }
            if same(a, b) { return a.clone(); }
            if w == 1 {
                if let Some(x) = is_not(a) { if same(x, b) { return cst(0, 1); } }
                if let Some(x) = is_not(b) { if same(x, a) { return cst(0, 1); } }
            }
            if let Some(y) = cb {
                if let K::ZExt(x) = &a.k {
                    if x.w < 128 && y & ((1u128 << x.w) - 1) == (1u128 << x.w) - 1 { return a.clone(); }
                    return zext(&bin(O::And, x, &cst(y, x.w)), w);
                }
                if let K::Bin(O::And, p, q) = &a.k { if let Some(x) = as_const(q) { return bin(O::And, p, &cst(x & y, w)); } }
                // low mask -> zext(extract)
                if (y + 1).is_power_of_two() && w > 1 {
                    let n = (y + 1).trailing_zeros();
                    if n < w { return zext(&extract(a, 0, n), w); }
                }
                if let K::Ite(c, p, q) = &a.k { if as_const(p).is_some() || as_const(q).is_some() { return ite(c, &bin(o, p, b), &bin(o, q, b)); } }
            }
        }
        O::Or => {
            if cb == Some(0) { return a.clone(); }
            if cb == Some(ones) { return cst(ones, w); }
            if same(a, b) { return a.clone(); }
            // disjoint pieces: (x << k) | zext(y)  -> concat
            if let Some(r) = or_concat(a, b) { return r; }
            if let Some(r) = or_concat(b, a) { return r; }
        }
        O::Xor => {
            if cb == Some(0) { return a.clone(); }
            if same(a, b) { return cst(0, w); }
            if w == 1 && cb == Some(1) { return not(a); }
            if let (Some(y), K::Bin(O::Xor, p, q)) = (cb, &a.k) {
                if let Some(x) = as_const(q) { return bin(O::Xor, p, &cst(x ^ y, w)); }
            }
            if w == 1 && cb.is_none() { return not(&bin(O::Eq, a, b)); }
        }
        O::Shl => {
            if cb == Some(0) { return a.clone(); }
            if let Some(y) = cb {
                if y >= w as u128 { return cst(0, w); }
                let y = y as u32;
                return concat(&extract(a, 0, w - y), &cst(0, y));
            }
        }
        O::LShr => {
            if cb == Some(0) { return a.clone(); }
            if let Some(y) = cb {
                if y >= w as u128 { return cst(0, w); }
                let y = y as u32;
                return zext(&extract(a, y, w - y), w);
            }
        }
        O::AShr => {
            if cb == Some(0) { return a.clone(); }
            if let Some(y) = cb {
                if y < w as u128 { return sexte(&extract(a, y as u32, w - y as u32), w); }
            }
        }
        O::Eq => {
            if same(a, b) { return cst(1, 1); }
            if w == 1 {
                if let Some(y) = cb { return if y == 1 { a.clone() } else { not(a) }; }
            }
            if let Some(y) = cb {
                match &a.k {
                    K::ZExt(x) => {
                        if y >> x.w != 0 { return cst(0, 1); }
                        return bin(O::Eq, x, &cst(y, x.w));
                    }
                    K::SExt(x) => {
                        let t = mask(y, x.w);
                        if mask(sext(t, x.w) as u128, w) != y { return cst(0, 1); }
                        return bin(O::Eq, x, &cst(t, x.w));
                    }
                    K::Bin(O::Concat, p, q) => {
                        let lo = mask(y, q.w);
                        let hi = y >> q.w;
                        let e2 = bin(O::Eq, q, &cst(lo, q.w));
                        if as_const(&e2) == Some(0) { return e2; }
                        return and1(&bin(O::Eq, p, &cst(hi, p.w)), &e2);
                    }
                    K::Bin(O::Add, p, q) => if let Some(x) = as_const(q) { return bin(O::Eq, p, &cst(y.wrapping_sub(x), w)); },
                    K::Bin(O::Xor, p, q) => if let Some(x) = as_const(q) { return bin(O::Eq, p, &cst(y ^ x, w)); },
                    K::Ite(c, p, q) => {
                        match (as_const(p), as_const(q)) {
                            (Some(u), Some(v)) => return match (u == y, v == y) { (true, true) => cst(1, 1), (true, false) => c.clone(), (false, true) => not(c), _ => cst(0, 1) },
                            (Some(u), None) => { let r = bin(O::Eq, q, b); return if u == y { or1(c, &r) } else { and1(&not(c), &r) }; }
                            (None, Some(v)) => { let r = bin(O::Eq, p, b); return if v == y { or1(&not(c), &r) } else { and1(c, &r) }; }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            } else {
                if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) { if x.w == y.w { return bin(O::Eq, x, y); } }
                if let (K::Bin(O::Concat, p, q), K::Bin(O::Concat, r, s)) = (&a.k, &b.k) {
                    if q.w == s.w { return and1(&bin(O::Eq, p, r), &bin(O::Eq, q, s)); }
                }
                if let (K::Bin(O::Add, p, q), K::Bin(O::Add, r, s)) = (&a.k, &b.k) {
                    if as_const(q).is_some() && as_const(s).is_some() && same(q, s) { return bin(O::Eq, p, r); }
                }
                // canonical order
                if a.h > b.h { return node(1, K::Bin(O::Eq, b.clone(), a.clone())); }
            }
        }
        O::Ult => {
            if same(a, b) { return cst(0, 1); }
            if cb == Some(0) { return cst(0, 1); }
            if cb == Some(1) { return bin(O::Eq, a, &cst(0, w)); }
            if ca == Some(0) { return not(&bin(O::Eq, b, &cst(0, w))); }
            if ca == Some(ones) { return cst(0, 1); }
            if let (Some(y), K::ZExt(x)) = (cb, &a.k) {
                if y >> x.w != 0 { return cst(1, 1); }
                return bin(O::Ult, x, &cst(y, x.w));
            }
            if let (Some(y), K::ZExt(x)) = (ca, &b.k) {
                if y >> x.w != 0 { return cst(0, 1); }
                return bin(O::Ult, &cst(y, x.w), x);
            }
            if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) { if x.w == y.w { return bin(O::Ult, x, y); } }
            if let Some(r) = cmp_ite(o, a, b) { return r; }
        }
        O::Ule => {
            if same(a, b) { return cst(1, 1); }
            if ca == Some(0) { return cst(1, 1); }
            if cb == Some(ones) { return cst(1, 1); }
            if cb == Some(0) { return bin(O::Eq, a, b); }
            if let (Some(y), K::ZExt(x)) = (cb, &a.k) {
                if y >> x.w != 0 { return cst(1, 1); }
                return bin(O::Ule, x, &cst(y, x.w));
            }
            if let (Some(y), K::ZExt(x)) = (ca, &b.k) {
                if y >> x.w != 0 { return cst(0, 1); }
                return bin(O::Ule, &cst(y, x.w), x);
            }
            if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) { if x.w == y.w { return bin(O::Ule, x, y); } }
            if let Some(r) = cmp_ite(o, a, b) { return r; }
        }
        O::Slt | O::Sle => {
            if same(a, b) { return cst((o == O::Sle) as u128, 1); }
            let nonneg = |e: &E| match &e.k { K::ZExt(_) => true, K::Const(c) => (c >> (w - 1)) & 1 == 0, _ => false };
            if nonneg(a) && nonneg(b) { return bin(if o == O::Slt { O::Ult } else { O::Ule }, a, b); }
            // zext is never negative
            if let (K::ZExt(_), Some(_)) = (&a.k, cb) { return cst(0, 1); }
            if let (Some(_), K::ZExt(_)) = (ca, &b.k) { return cst(1, 1); }
            if let Some(r) = cmp_ite(o, a, b) { return r; }
        }
        _ => {}
    }
    node(if is_cmp(o) { 1 } else { w }, K::Bin(o, a.clone(), b.clone()))
}

fn cmp_ite(o: O, a: &E, b: &E) -> Option<E> {
    if as_const(b).is_some() {
        if let K::Ite(c, p, q) = &a.k {
            if as_const(p).is_some() && as_const(q).is_some() { return Some(ite(c, &bin(o, p, b), &bin(o, q, b))); }
        }
    }
    if as_const(a).is_some() {
        if let K::Ite(c, p, q) = &b.k {
            if as_const(p).is_some() && as_const(q).is_some() { return Some(ite(c, &bin(o, a, p), &bin(o, a, q))); }
        }
    }
    None
}

fn or_concat(a: &E, b: &E) -> Option<E> {
    // a = concat(hi, 0_k), b = zext(y) with y.w <= k
    if let K::Bin(O::Concat, hi, lo) = &a.k {
        if as_const(lo) == Some(0) {
            let k = lo.w;
            match &b.k {
                K::ZExt(y) if y.w <= k => return Some(concat(hi, &zext(y, k))),
                K::Const(c) if *c >> k == 0 => return Some(concat(hi, &cst(*c, k))),
                _ => {}
            }
        }
    }
    None
}

pub fn concat(hi: &E, lo: &E) -> E {
    let w = hi.w + lo.w;
    if let (K::Const(a), K::Const(b)) = (&hi.k, &lo.k) { return cst((a << lo.w) | b, w); }
    if as_const(hi) == Some(0) { return zext(lo, w); }
    // adjacent extracts
    if let (K::Extract(l1, x), K::Extract(l2, y)) = (&hi.k, &lo.k) {
        if same(x, y) && *l1 == *l2 + lo.w { return extract(x, *l2, w); }
    }
    // hi: extract, lo: concat(extract, rest) etc. : re-associate to the right
    if let K::Bin(O::Concat, p, q) = &hi.k { return concat(p, &concat(q, lo)); }
    if let K::Bin(O::Concat, p, q) = &lo.k {
        if let (K::Extract(l1, x), K::Extract(l2, y)) = (&hi.k, &p.k) {
            if same(x, y) && *l1 == *l2 + p.w { return concat(&extract(x, *l2, hi.w + p.w), q); }
        }
        if let (K::Const(a), K::Const(b)) = (&hi.k, &p.k) { return concat(&cst((a << p.w) | b, hi.w + p.w), q); }
    }
    // zext(extract(x)) handled by extract itself
    if let (K::ZExt(x), true) = (&hi.k, true) { return zext(&concat(x, lo), w); }
    node(w, K::Bin(O::Concat, hi.clone(), lo.clone()))
}

pub fn extract(a: &E, lo: u32, w: u32) -> E {
    if lo == 0 && w == a.w { return a.clone(); }
    debug_assert!(lo + w <= a.w);
    match &a.k {
        K::Const(c) => return cst(c >> lo, w),
        K::Extract(l, x) => return extract(x, l + lo, w),
        K::ZExt(x) => {
            if lo + w <= x.w { return extract(x, lo, w); }
            if lo >= x.w { return cst(0, w); }
            return zext(&extract(x, lo, x.w - lo), w);
        }
        K::SExt(x) => {
            if lo + w <= x.w { return extract(x, lo, w); }
            if lo < x.w { return sexte(&extract(x, lo, x.w - lo), w); }
        }
        K::Bin(O::Concat, p, q) => {
            if lo + w <= q.w { return extract(q, lo, w); }
            if lo >= q.w { return extract(p, lo - q.w, w); }
            return concat(&extract(p, 0, lo + w - q.w), &extract(q, lo, q.w - lo));
        }
        K::Bin(o @ (O::And | O::Or | O::Xor), p, q) => return bin(*o, &extract(p, lo, w), &extract(q, lo, w)),
        K::Bin(o @ (O::Add | O::Sub | O::Mul), p, q) if lo == 0 => return bin(*o, &extract(p, 0, w), &extract(q, 0, w)),
        K::Ite(c, p, q) => return ite(c, &extract(p, lo, w), &extract(q, lo, w)),
        _ => {}
    }
    node(w, K::Extract(lo, a.clone()))
}

pub fn zext(a: &E, w: u32) -> E {
    if a.w == w { return a.clone(); }
    match &a.k {
        K::Const(c) => return cst(*c, w),
        K::ZExt(x) => return zext(x, w),
        _ => {}
    }
    node(w, K::ZExt(a.clone()))
}
pub fn sexte(a: &E, w: u32) -> E {
    if a.w == w { return a.clone(); }
    match &a.k {
        K::Const(c) => return cst(sext(*c, a.w) as u128, w),
        K::ZExt(x) if x.w < a.w => return zext(x, w),
        K::SExt(x) => return sexte(x, w),
        K::Ite(c, p, q) if as_const(p).is_some() && as_const(q).is_some() => return ite(c, &sexte(p, w), &sexte(q, w)),
        _ => {}
    }
    node(w, K::SExt(a.clone()))
}

pub fn ite(c: &E, a: &E, b: &E) -> E {
    if let Some(v) = as_const(c) { return if v == 1 { a.clone() } else { b.clone() }; }
    if same(a, b) { return a.clone(); }
    if let Some(n) = is_not(c) { return ite(n, b, a); }
    if a.w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or1(c, b),
            (Some(0), None) => return and1(&not(c), b),
            (None, Some(0)) => return and1(c, a),
            (None, Some(1)) => return or1(&not(c), a),
            _ => {}
        }
    }
    if let K::Ite(c2, p, _) = &a.k { if same(c2, c) { return ite(c, p, b); } }
    if let K::Ite(c2, _, q) = &b.k { if same(c2, c) { return ite(c, a, q); } }
    // both zext of the same width
    if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) { if x.w == y.w { return zext(&ite(c, x, y), a.w); } }
    if let (K::ZExt(x), Some(v)) = (&a.k, as_const(b)) { if v >> x.w == 0 { return zext(&ite(c, x, &cst(v, x.w)), a.w); } }
    if let (Some(v), K::ZExt(y)) = (as_const(a), &b.k) { if v >> y.w == 0 { return zext(&ite(c, &cst(v, y.w), y), a.w); } }
    node(a.w, K::Ite(c.clone(), a.clone(), b.clone()))
}

pub fn eval(e: &E, m: &[u8]) -> u128 {
    if e.size > 400 {
        let mut memo = HashMap::new();
        return eval_memo(e, m, &mut memo);
    }
    eval_rec(e, m)
}
fn eval_rec(e: &E, m: &[u8]) -> u128 {
    match &e.k {
        K::Var(v) => m[*v as usize] as u128,
        K::Const(c) => *c,
        K::Bin(O::Concat, a, b) => (eval_rec(a, m) << b.w) | eval_rec(b, m),
        K::Bin(O::And, a, b) => { let x = eval_rec(a, m); if x == 0 { 0 } else { x & eval_rec(b, m) } }
        K::Bin(o, a, b) => fold(*o, eval_rec(a, m), eval_rec(b, m), a.w),
        K::Ite(c, a, b) => if eval_rec(c, m) == 1 { eval_rec(a, m) } else { eval_rec(b, m) },
        K::Extract(l, a) => mask(eval_rec(a, m) >> l, e.w),
        K::ZExt(a) => eval_rec(a, m),
        K::SExt(a) => mask(sext(eval_rec(a, m), a.w) as u128, e.w),
    }
}
fn eval_memo(e: &E, m: &[u8], memo: &mut HashMap<*const Node, u128>) -> u128 {
    if e.size <= 8 { return eval_rec(e, m); }
    let p = Arc::as_ptr(e);
    if let Some(v) = memo.get(&p) { return *v; }
    let r = match &e.k {
        K::Var(v) => m[*v as usize] as u128,
        K::Const(c) => *c,
        K::Bin(O::Concat, a, b) => (eval_memo(a, m, memo) << b.w) | eval_memo(b, m, memo),
        K::Bin(o, a, b) => fold(*o, eval_memo(a, m, memo), eval_memo(b, m, memo), a.w),
        K::Ite(c, a, b) => if eval_memo(c, m, memo) == 1 { eval_memo(a, m, memo) } else { eval_memo(b, m, memo) },
        K::Extract(l, a) => mask(eval_memo(a, m, memo) >> l, e.w),
        K::ZExt(a) => eval_memo(a, m, memo),
        K::SExt(a) => mask(sext(eval_memo(a, m, memo), a.w) as u128, e.w),
    };
    memo.insert(p, r);
    r
}

#[cfg(test)]
mod tests {
    use super::*;
    // differential test of the simplifier: random expressions, simplified vs. direct evaluation
    struct Rng(u64);
    impl Rng {
        fn n(&mut self, k: u64) -> u64 {
            self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (self.0 >> 33) % k
        }
    }
    fn gen(r: &mut Rng, w: u32, d: u32, m: &[u8]) -> (E, u128) {
        if d == 0 || r.n(8) == 0 {
            if w == 8 && r.n(3) != 0 {
                let v = r.n(3) as u32;
                return (var(v, 8), m[v as usize] as u128);
            }
            let c = mask(match r.n(4) { 0 => 0, 1 => 1, 2 => !0, _ => ((r.n(1 << 30) as u128) << 70) ^ ((r.n(1 << 30) as u128) << 35) ^ r.n(1 << 30) as u128 }, w);
            if w > 8 && r.n(2) == 0 {
                let (a, x) = gen(r, 8, 0, m);
                return (zext(&a, w), x);
            }
            return (cst(c, w), c);
        }
        match r.n(9) {
            0 | 1 | 2 => {
                if w == 1 {
                    let ww = [1, 8, 16, 32, 64][r.n(5) as usize];
                    let o = [O::Eq, O::Ult, O::Ule, O::Slt, O::Sle][r.n(5) as usize];
                    let (a, x) = gen(r, ww, d - 1, m);
                    let (b, y) = gen(r, ww, d - 1, m);
                    return (bin(o, &a, &b), fold(o, x, y, ww));
                }
                let o = [O::Add, O::Sub, O::Mul, O::UDiv, O::SDiv, O::URem, O::SRem, O::And, O::Or, O::Xor, O::Shl, O::LShr, O::AShr][r.n(13) as usize];
                let (a, x) = gen(r, w, d - 1, m);
                let (b, y) = if matches!(o, O::Shl | O::LShr | O::AShr) { let c = r.n(w as u64 + 2) as u128; let c = mask(c, w); (cst(c, w), c) } else { gen(r, w, d - 1, m) };
                (bin(o, &a, &b), fold(o, x, y, w))
            }
            3 => {
                let o = [O::And, O::Or, O::Xor][r.n(3) as usize];
                let (a, x) = gen(r, w, d - 1, m);
                let (b, y) = gen(r, w, d - 1, m);
                (bin(o, &a, &b), fold(o, x, y, w))
            }
            4 => {
                let (c, z) = gen(r, 1, d - 1, m);
                let (a, x) = gen(r, w, d - 1, m);
                let (b, y) = gen(r, w, d - 1, m);
                (ite(&c, &a, &b), if z == 1 { x } else { y })
            }
            5 if w > 8 => {
                let s = [1, 8][r.n(2) as usize];
                let (a, x) = gen(r, s, d - 1, m);
                if r.n(2) == 0 { (zext(&a, w), x) } else { (sexte(&a, w), mask(sext(x, s) as u128, w)) }
            }
            6 if w >= 16 => {
                let (a, x) = gen(r, w / 2, d - 1, m);
                let (b, y) = gen(r, w - w / 2, d - 1, m);
                (concat(&a, &b), (x << (w - w / 2)) | y)
            }
            7 if w <= 32 => {
                let (a, x) = gen(r, 64, d - 1, m);
                let lo = r.n(64 - w as u64 + 1) as u32;
                (extract(&a, lo, w), mask(x >> lo, w))
            }
            8 if w == 1 => {
                let (a, x) = gen(r, 1, d - 1, m);
                (not(&a), x ^ 1)
            }
            _ => {
                let (a, x) = gen(r, w, d - 1, m);
                let (b, y) = gen(r, w, d - 1, m);
                (bin(O::And, &a, &b), x & y)
            }
        }
    }
    #[test]
    fn simplifier_agrees() {
        let mut r = Rng(42);
        for i in 0..300000 {
            let m = [r.n(256) as u8, r.n(256) as u8, r.n(4) as u8];
            let w = [1, 8, 16, 32, 64, 128][r.n(6) as usize];
            let (e, v) = gen(&mut r, w, 4, &m);
            assert_eq!(e.w, w);
            assert_eq!(eval(&e, &m), v, "iter {} {:?} {:?}", i, e, m);
        }
    }
}
