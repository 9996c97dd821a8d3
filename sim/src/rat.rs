//! Exact rationals on checked 128-bit integers: the arithmetic of the reference model.
//! Independent of relp and relp-num. Overflow aborts the run as inconclusive.
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

/// Panic payload raised when the reference arithmetic overflows.
pub struct OracleOverflow;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn ov<T>(v: Option<T>) -> T {
    match v {
        Some(v) => v,
        None => std::panic::panic_any(OracleOverflow),
    }
}

impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0, "zero denominator in the reference model");
        if n == 0 {
            return Q::ZERO;
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128;
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        Q { n, d }
    }
    pub fn int(n: i64) -> Q {
        Q { n: n as i128, d: 1 }
    }
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    pub fn is_pos(&self) -> bool {
        self.n > 0
    }
    pub fn is_neg(&self) -> bool {
        self.n < 0
    }
    pub fn abs(&self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    /// Parse "a" or "a/b".
    pub fn parse(s: &str) -> Option<Q> {
        let s = s.trim();
        match s.split_once('/') {
            None => s.parse::<i128>().ok().map(|n| Q { n, d: 1 }),
            Some((a, b)) => {
                let a = a.trim().parse::<i128>().ok()?;
                let b = b.trim().parse::<i128>().ok()?;
                if b == 0 { None } else { Some(Q::new(a, b)) }
            }
        }
    }
}

impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        if self.n == 0 {
            return o;
        }
        if o.n == 0 {
            return self;
        }
        if self.d == 1 && o.d == 1 {
            return Q { n: ov(self.n.checked_add(o.n)), d: 1 };
        }
        let g = gcd(self.d as u128, o.d as u128) as i128;
        let od = o.d / g;
        let sd = self.d / g;
        let n = ov(ov(self.n.checked_mul(od)).checked_add(ov(o.n.checked_mul(sd))));
        Q::new(n, ov(self.d.checked_mul(od)))
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        if self.n == 0 || o.n == 0 {
            return Q::ZERO;
        }
        let g1 = gcd(self.n.unsigned_abs(), o.d as u128) as i128;
        let g2 = gcd(o.n.unsigned_abs(), self.d as u128) as i128;
        Q {
            n: ov((self.n / g1).checked_mul(o.n / g2)),
            d: ov((self.d / g2).checked_mul(o.d / g1)),
        }
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        assert!(o.n != 0, "division by zero in the reference model");
        let inv = if o.n < 0 { Q { n: -o.d, d: -o.n } } else { Q { n: o.d, d: o.n } };
        self * inv
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        if self.d == o.d {
            return self.n.cmp(&o.n);
        }
        let s = self.n.signum().cmp(&o.n.signum());
        if s != Ordering::Equal {
            return s;
        }
        let l = ov(self.n.checked_mul(o.d));
        let r = ov(o.n.checked_mul(self.d));
        l.cmp(&r)
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
