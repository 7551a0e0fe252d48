//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    ZExt,
    SExt,
    Extract,
    Concat,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub k: K,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub v: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub v: u128,
    pub mask: u128,
    pub size: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Store {
    pub n: Vec<Node>,
    map: HashMap<Key, E>,
    pub tabs: Vec<Vec<u64>>,
    tabmap: HashMap<Vec<u64>, u32>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    tts: HashMap<E, [u64; 4]>,
}

pub fn cbin(k: K, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match k {
        K::Add => a.wrapping_add(b) & m,
        K::Sub => a.wrapping_sub(b) & m,
        K::Mul => a.wrapping_mul(b) & m,
        K::UDiv => {
            if b == 0 { return None; }
            a / b
        }
        K::URem => {
            if b == 0 { return None; }
            a % b
        }
        K::SDiv => {
            if b == 0 { return None; }
            (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
        }
        K::SRem => {
            if b == 0 { return None; }
            (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        K::LShr => if b >= w as u128 { 0 } else { a >> b },
        K::AShr => {
            let s = sext(a, w);
            let sh = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> sh) as u128) & m
        }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128,
        K::Ule => (a <= b) as u128,
        K::Slt => (sext(a, w) < sext(b, w)) as u128,
        K::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => panic!("cbin {:?}", k),
    })
}

impl Store {
    pub fn new() -> Store {
        let mut s = Store {
            n: vec![],
            map: HashMap::new(),
            tabs: vec![],
            tabmap: HashMap::new(),
            memo: vec![],
            epoch: 0,
            tts: HashMap::new(),
        };
        s.konst(0, 1); // id 0: reserved (means "no expression" in memory)
        s.map.clear();
        s
    }
    fn mk(&mut self, k: K, w: u32, a: E, b: E, c: E, v: u128) -> E {
        let key = Key { k, w: w as u16, a, b, c, v };
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let (m, sz) = match k {
            K::Const => (0, 1),
            K::Var => (1u128 << v, 1),
            _ => {
                let mut m = 0u128;
                let mut s = 1u32;
                for x in [a, b, c] {
                    if x != 0 {
                        m |= self.n[x as usize].mask;
                        s = s.saturating_add(self.n[x as usize].size);
                    }
                }
                (m, s)
            }
        };
        let id = self.n.len() as E;
        self.n.push(Node { k, w: w as u16, a, b, c, v, mask: m, size: sz });
        self.memo.push((0, 0));
        self.map.insert(key, id);
        id
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    #[inline]
    pub fn nd(&self, e: E) -> Node {
        self.n[e as usize]
    }
    #[inline]
    pub fn vmask(&self, e: E) -> u128 {
        self.n[e as usize].mask
    }
    pub fn kval(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.k == K::Const { Some(n.v) } else { None }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        self.mk(K::Const, w, 0, 0, 0, v)
    }
    pub fn var(&mut self, i: u32) -> E {
        assert!(i < 128, "too many symbolic bytes");
        self.mk(K::Var, 8, 0, 0, 0, i as u128)
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let o = self.konst(mask(w), w);
        self.bin(K::Xor, e, o)
    }
    pub fn bin(&mut self, k: K, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut ka, mut kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = cbin(k, w, x, y) {
                let rw = if matches!(k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle) { 1 } else { w };
                return self.konst(r, rw);
            }
        }
        // commutative: constant on the right
        if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let m = mask(w);
        let na = self.nd(a);
        match k {
            K::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    if na.k == K::Add {
                        if let Some(z) = self.kval(na.b) {
                            let c = self.konst(y.wrapping_add(z), w);
                            return self.bin(K::Add, na.a, c);
                        }
                    }
                }
                // narrow sums of zero-extended values
                if na.k == K::ZExt {
                    let wa = self.w(na.a);
                    let nb = self.nd(b);
                    let wb = match nb.k {
                        K::ZExt => self.w(nb.a),
                        K::Const => (128 - nb.v.leading_zeros()).max(1),
                        _ => w,
                    };
                    let nw = wa.max(wb) + 1;
                    if nw < w {
                        let x = self.zext(na.a, nw);
                        let z = self.extract(b, nw - 1, 0);
                        let r = self.mk_add(x, z);
                        return self.zext(r, w);
                    }
                }
            }
            K::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = kb {
                    let c = self.konst(y.wrapping_neg(), w);
                    return self.bin(K::Add, a, c);
                }
            }
            K::Mul => {
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let c = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(K::Shl, a, c);
                    }
                    if na.k == K::ZExt {
                        let nw = self.w(na.a) + 128 - y.leading_zeros();
                        if nw < w {
                            let x = self.zext(na.a, nw);
                            let z = self.konst(y, nw);
                            let r = self.mk(K::Mul, nw, x, z, 0, 0);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            K::UDiv => {
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let c = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(K::LShr, a, c);
                    }
                }
            }
            K::URem => {
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let c = self.konst(y - 1, w);
                        return self.bin(K::And, a, c);
                    }
                }
            }
            K::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if na.k == K::And {
                        if let Some(z) = self.kval(na.b) {
                            let c = self.konst(y & z, w);
                            return self.bin(K::And, na.a, c);
                        }
                    }
                    if na.k == K::Concat || na.k == K::ZExt {
                        return self.split_const(k, a, y);
                    }
                }
                if w == 1 && self.is_neg(a, b) {
                    return self.konst(0, 1);
                }
            }
            K::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                    if na.k == K::Concat || na.k == K::ZExt {
                        return self.split_const(k, a, y);
                    }
                } else {
                    if let Some(r) = self.disjoint_or(a, b) {
                        return r;
                    }
                }
                if w == 1 && self.is_neg(a, b) {
                    return self.konst(1, 1);
                }
            }
            K::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if na.k == K::Xor {
                        if let Some(z) = self.kval(na.b) {
                            let c = self.konst(y ^ z, w);
                            return self.bin(K::Xor, na.a, c);
                        }
                    }
                    if na.k == K::Concat || na.k == K::ZExt {
                        return self.split_const(k, a, y);
                    }
                    if w == 1 {
                        if na.k == K::Ult {
                            return self.bin(K::Ule, na.b, na.a);
                        }
                        if na.k == K::Ule {
                            return self.bin(K::Ult, na.b, na.a);
                        }
                        if na.k == K::Slt {
                            return self.bin(K::Sle, na.b, na.a);
                        }
                        if na.k == K::Sle {
                            return self.bin(K::Slt, na.b, na.a);
                        }
                    }
                }
            }
            K::Shl => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let y = y as u32;
                    let hi = self.extract(a, w - y - 1, 0);
                    let z = self.konst(0, y);
                    return self.concat(hi, z);
                }
            }
            K::LShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let x = self.extract(a, w - 1, y as u32);
                    return self.zext(x, w);
                }
            }
            K::AShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    let y = if y >= w as u128 { w - 1 } else { y as u32 };
                    let x = self.extract(a, w - 1, y);
                    return self.sext(x, w);
                }
            }
            K::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(y) = kb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match na.k {
                        K::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.konst(0, 1);
                            }
                            let c = self.konst(y, iw);
                            return self.bin(K::Eq, na.a, c);
                        }
                        K::SExt => {
                            let iw = self.w(na.a);
                            if (sext(y & mask(iw), iw) as u128) & m != y {
                                return self.konst(0, 1);
                            }
                            let c = self.konst(y, iw);
                            return self.bin(K::Eq, na.a, c);
                        }
                        K::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let ch = self.konst(y >> lw, hw);
                            let cl = self.konst(y, lw);
                            let x = self.bin(K::Eq, na.a, ch);
                            if self.kval(x) == Some(0) {
                                return x;
                            }
                            let z = self.bin(K::Eq, na.b, cl);
                            return self.bin(K::And, x, z);
                        }
                        K::Add => {
                            if let Some(z) = self.kval(na.b) {
                                let c = self.konst(y.wrapping_sub(z), w);
                                return self.bin(K::Eq, na.a, c);
                            }
                        }
                        K::Xor => {
                            if let Some(z) = self.kval(na.b) {
                                let c = self.konst(y ^ z, w);
                                return self.bin(K::Eq, na.a, c);
                            }
                        }
                        K::Ite => {
                            let (p, q) = (self.kval(na.b), self.kval(na.c));
                            if p.is_some() || q.is_some() || self.nd(na.b).k == K::Ite || self.nd(na.c).k == K::Ite {
                                let x = self.bin(K::Eq, na.b, b);
                                let z = self.bin(K::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.nd(b);
                    if na.k == K::ZExt && nb.k == K::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let mw = wa.max(wb);
                        if mw < w {
                            let x = self.zext(na.a, mw);
                            let z = self.zext(nb.a, mw);
                            return self.bin(K::Eq, x, z);
                        }
                    }
                    if na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(K::Eq, na.a, nb.a);
                        let z = self.bin(K::Eq, na.b, nb.b);
                        return self.bin(K::And, x, z);
                    }
                    if w == 1 {
                        let x = self.bin(K::Xor, a, b);
                        return self.not(x);
                    }
                }
            }
            K::Ult | K::Ule | K::Slt | K::Sle => {
                if a == b {
                    return self.konst(matches!(k, K::Ule | K::Sle) as u128, 1);
                }
                let nb = self.nd(b);
                if w > 1 {
                    // both operands are zero-extended (or small constants): compare in the narrow width
                    let wa = match na.k {
                        K::ZExt => self.w(na.a),
                        K::Const => 128 - na.v.leading_zeros(),
                        _ => w,
                    };
                    let wb = match nb.k {
                        K::ZExt => self.w(nb.a),
                        K::Const => 128 - nb.v.leading_zeros(),
                        _ => w,
                    };
                    let mw = wa.max(wb).max(1);
                    if mw < w && (na.k == K::ZExt || nb.k == K::ZExt) {
                        let x = self.extract(a, mw - 1, 0);
                        let z = self.extract(b, mw - 1, 0);
                        let uk = match k {
                            K::Slt => K::Ult,
                            K::Sle => K::Ule,
                            x => x,
                        };
                        return self.bin_cmp_narrow(uk, x, z);
                    }
                }
                return self.bin_cmp_narrow(k, a, b);
            }
            _ => {}
        }
        let rw = if k == K::Eq { 1 } else { w };
        self.mk(k, rw, a, b, 0, 0)
    }
    fn mk_add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        if self.kval(b) == Some(0) {
            return a;
        }
        self.mk(K::Add, w, a, b, 0, 0)
    }
    fn bin_cmp_narrow(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = cbin(k, w, x, y).unwrap();
            return self.konst(r, 1);
        }
        match k {
            K::Ult => {
                if kb == Some(0) || ka == Some(mask(w)) {
                    return self.konst(0, 1);
                }
                if kb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(K::Eq, a, z);
                }
            }
            K::Ule => {
                if ka == Some(0) || kb == Some(mask(w)) {
                    return self.konst(1, 1);
                }
                if kb == Some(0) {
                    return self.bin(K::Eq, a, b);
                }
            }
            _ => {}
        }
        self.mk(k, 1, a, b, 0, 0)
    }
    fn is_neg(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.nd(a), self.nd(b));
        (na.k == K::Xor && na.a == b && self.kval(na.b) == Some(1)) || (nb.k == K::Xor && nb.a == a && self.kval(nb.b) == Some(1))
    }
    fn split_const(&mut self, k: K, a: E, y: u128) -> E {
        let na = self.nd(a);
        if na.k == K::ZExt {
            let iw = self.w(na.a);
            let w = na.w as u32;
            let lo = self.konst(y, iw);
            let x = self.bin(k, na.a, lo);
            let hi = y >> iw;
            if k == K::And || hi == 0 {
                return self.zext(x, w);
            }
            let h = self.konst(hi, w - iw);
            return self.concat(h, x);
        }
        let lw = self.w(na.b);
        let hw = self.w(na.a);
        let ch = self.konst(y >> lw, hw);
        let cl = self.konst(y, lw);
        let x = self.bin(k, na.a, ch);
        let z = self.bin(k, na.b, cl);
        self.concat(x, z)
    }
    /// number of low bits known to be zero / high bits known zero
    fn lowz(&self, e: E) -> u32 {
        let n = self.nd(e);
        match n.k {
            K::Const => if n.v == 0 { n.w as u32 } else { n.v.trailing_zeros() },
            K::Concat => {
                let l = self.lowz(n.b);
                if l == self.w(n.b) { l + self.lowz(n.a) } else { l }
            }
            K::ZExt => {
                let l = self.lowz(n.a);
                if l == self.w(n.a) { n.w as u32 } else { l }
            }
            _ => 0,
        }
    }
    fn highz(&self, e: E) -> u32 {
        let n = self.nd(e);
        match n.k {
            K::Const => n.w as u32 - (128 - n.v.leading_zeros()),
            K::Concat => {
                let h = self.highz(n.a);
                if h == self.w(n.a) { h + self.highz(n.b) } else { h }
            }
            K::ZExt => n.w as u32 - self.w(n.a) + self.highz(n.a),
            _ => 0,
        }
    }
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        for (x, y) in [(a, b), (b, a)] {
            let lz = self.lowz(x);
            if lz > 0 && lz < w && w - self.highz(y) <= lz {
                let h = self.extract(x, w - 1, lz);
                let l = self.extract(y, lz - 1, 0);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let na = self.nd(a);
        if na.w as u32 == w {
            return a;
        }
        match na.k {
            K::Const => return self.konst(na.v, w),
            K::ZExt => return self.zext(na.a, w),
            _ => {}
        }
        self.mk(K::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let na = self.nd(a);
        if na.w as u32 == w {
            return a;
        }
        match na.k {
            K::Const => return self.konst(sext(na.v, na.w as u32) as u128, w),
            K::ZExt => return self.zext(na.a, w),
            K::SExt => return self.sext(na.a, w),
            _ => {}
        }
        self.mk(K::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let na = self.nd(a);
        let aw = na.w as u32;
        let w = hi - lo + 1;
        if w == aw {
            return a;
        }
        match na.k {
            K::Const => return self.konst(na.v >> lo, w),
            K::Extract => {
                let base = na.v as u32;
                return self.extract(na.a, hi + base, lo + base);
            }
            K::Concat => {
                let lw = self.w(na.b);
                if hi < lw {
                    return self.extract(na.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(na.a, hi - lw, lo - lw);
                }
                let h = self.extract(na.a, hi - lw, 0);
                let l = self.extract(na.b, lw - 1, lo);
                return self.concat(h, l);
            }
            K::ZExt => {
                let iw = self.w(na.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if hi < iw {
                    return self.extract(na.a, hi, lo);
                }
                let x = self.extract(na.a, iw - 1, lo);
                return self.zext(x, w);
            }
            K::SExt => {
                let iw = self.w(na.a);
                if hi < iw {
                    return self.extract(na.a, hi, lo);
                }
                if lo == 0 && w > iw {
                    return self.sext(na.a, w);
                }
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(na.a, hi, lo);
                let z = self.extract(na.b, hi, lo);
                return self.bin(na.k, x, z);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(na.a, hi, lo);
                let z = self.extract(na.b, hi, lo);
                return self.bin(na.k, x, z);
            }
            K::Ite => {
                let x = self.extract(na.b, hi, lo);
                let z = self.extract(na.c, hi, lo);
                return self.ite(na.a, x, z);
            }
            K::Tab => {
                let t: Vec<u64> = self.tabs[na.v as usize].iter().map(|x| ((*x as u128 >> lo) & mask(w)) as u64).collect();
                return self.tab(na.a, t, w);
            }
            _ => {}
        }
        self.mk(K::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.nd(a), self.nd(b));
        let w = na.w as u32 + nb.w as u32;
        if na.k == K::Const && nb.k == K::Const {
            return self.konst((na.v << nb.w) | nb.v, w);
        }
        if na.k == K::Const && na.v == 0 {
            return self.zext(b, w);
        }
        if na.k == K::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        if na.k == K::ZExt {
            // keep the constant zero in front: ZExt(Concat(x, b))
            let r = self.concat(na.a, b);
            return self.zext(r, w);
        }
        // adjacent extracts of the same value
        let (bh, brest) = if nb.k == K::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        let nbh = self.nd(bh);
        if na.k == K::Extract && nbh.k == K::Extract && na.a == nbh.a && na.v == nbh.v + nbh.w as u128 {
            let m = self.extract(na.a, na.v as u32 + na.w as u32 - 1, nbh.v as u32);
            return match brest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        if na.k == K::Const && nbh.k == K::Const {
            let m = self.konst((na.v << nbh.w) | nbh.v, na.w as u32 + nbh.w as u32);
            if let Some(r) = brest {
                return self.concat(m, r);
            }
        }
        // constants right after each other are merged above; merge constant with ZExt: Concat(c, ZExt(x)) keeps structure
        if nb.k == K::ZExt && na.k == K::Const {
            let zw = nb.w as u32 - self.w(nb.a);
            let c = self.konst(na.v << zw, na.w as u32 + zw);
            return self.mk(K::Concat, w, c, nb.a, 0, 0);
        }
        if nb.k == K::ZExt {
            let zw = nb.w as u32 - self.w(nb.a);
            let z = self.konst(0, zw);
            let r = self.mk(K::Concat, nb.w as u32, z, nb.a, 0, 0);
            return self.mk(K::Concat, w, a, r, 0, 0);
        }
        self.mk(K::Concat, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.kval(c) {
            return if v == 1 { a } else { b };
        }
        let w = self.w(a);
        let (ka, kb) = (self.kval(a), self.kval(b));
        if w == 1 {
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(K::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(K::And, n, b);
                }
                (None, Some(0)) => return self.bin(K::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(K::Or, n, a);
                }
                _ => {}
            }
        }
        let nc = self.nd(c);
        if nc.k == K::Xor && nc.w == 1 && self.kval(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        self.mk(K::Ite, w, c, a, b, 0)
    }
    /// table lookup; `a` is an 8-bit expression, 256 entries of width w
    pub fn tab(&mut self, a: E, t: Vec<u64>, w: u32) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0] as u128, w);
        }
        let i = match self.tabmap.get(&t) {
            Some(&i) => i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabmap.insert(t.clone(), i);
                self.tabs.push(t);
                i
            }
        };
        self.mk(K::Tab, w, a, 0, 0, i as u128)
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.epoch += 1;
        let ep = self.epoch;
        self.ev(e, model, ep)
    }
    fn ev(&mut self, e: E, model: &[u8], ep: u32) -> u128 {
        let n = self.n[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Var => return model[n.v as usize] as u128,
            _ => {}
        }
        let m = self.memo[e as usize];
        if m.0 == ep {
            return m.1;
        }
        let r = match n.k {
            K::ZExt => self.ev(n.a, model, ep),
            K::SExt => {
                let w = self.w(n.a);
                (sext(self.ev(n.a, model, ep), w) as u128) & mask(n.w as u32)
            }
            K::Extract => (self.ev(n.a, model, ep) >> n.v) & mask(n.w as u32),
            K::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model, ep) << lw) | self.ev(n.b, model, ep)
            }
            K::Ite => {
                if self.ev(n.a, model, ep) == 1 { self.ev(n.b, model, ep) } else { self.ev(n.c, model, ep) }
            }
            K::Tab => {
                let i = self.ev(n.a, model, ep) as usize;
                self.tabs[n.v as usize][i] as u128
            }
            k => {
                let x = self.ev(n.a, model, ep);
                let y = self.ev(n.b, model, ep);
                let w = self.w(n.a);
                match cbin(k, w, x, y) {
                    Some(v) => v,
                    // SMT-LIB semantics of division by zero
                    None => match k {
                        K::UDiv => mask(w),
                        K::SDiv => if sext(x, w) < 0 { 1 } else { mask(w) },
                        _ => x,
                    },
                }
            }
        };
        self.memo[e as usize] = (ep, r);
        r
    }
    /// truth table of a one-variable, width-1 expression
    pub fn tt(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tts.get(&e) {
            return *t;
        }
        let m = self.vmask(e);
        debug_assert!(m.count_ones() == 1);
        let i = m.trailing_zeros() as usize;
        let mut model = vec![0u8; i + 1];
        let mut t = [0u64; 4];
        for v in 0..256usize {
            model[i] = v as u8;
            if self.eval(e, &model) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.tts.insert(e, t);
        t
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.nd(e);
        match n.k {
            K::Const => format!("{:#x}:{}", n.v, n.w),
            K::Var => format!("b{}", n.v),
            _ if depth == 0 => "..".into(),
            K::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.v, n.w),
            K::Tab => format!("tab{}({})", n.v, self.show(n.a, depth - 1)),
            K::ZExt | K::SExt => format!("{:?}{}({})", n.k, n.w, self.show(n.a, depth - 1)),
            K::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({},{})", n.k, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
