//! Degenerate programs `min c x, A x <= b, x >= 0`, found by search, on which the smallest-index rule
//! cycles from the slack basis when ties of the ratio test are not broken by the smallest index of
//! the basic variable: by the largest index (1), by the first row (2), by the last row (3), or by an
//! index remembered from a row that no longer attains the minimum (5).
pub type Cycling = (u8, &'static [&'static [i64]], &'static [i64], &'static [i64]);
#[rustfmt::skip]
pub const CYCLING: &[Cycling] = &[
    (1, &[&[-2, -1, 2, 3, -1], &[2, 2, 0, 2, 1]], &[-2, -3, 3, -1, -3], &[0, 0]),
    (1, &[&[-1, -1, 2, 2, -1], &[2, 3, 2, 3, 1]], &[-1, -2, 2, 1, -2], &[0, 0]),
    (1, &[&[4, 3, -1, 4, 3, 1], &[1, -4, 0, -2, -2, -3]], &[2, -1, 2, 4, -2, -4], &[0, 0]),
    (1, &[&[2, 4, 3, 4, 1, 3], &[1, 3, -3, -2, -1, 2]], &[2, 3, -2, -3, -4, 0], &[0, 0]),
    (1, &[&[2, 1, -4, 0, -3, 2], &[-3, 3, -3, -1, -4, 1]], &[1, 2, 4, 4, 0, -2], &[0, 0]),
    (1, &[&[-2, 3, -1, -3, 4, -4], &[-2, 0, 3, -4, 1, 4]], &[1, 4, 2, 1, -3, -4], &[0, 0]),
    (1, &[&[1, 1, 2, -3, 2, -3], &[2, -1, -3, 1, 0, 2]], &[1, 2, 2, 1, -1, -3], &[0, 0]),
    (1, &[&[-4, 1, -2, -1, -1, -4], &[3, 2, 2, -1, 4, -1]], &[-4, 3, -3, -3, -4, -3], &[0, 0]),
    (1, &[&[2, 1, 2, 2, 0, 0], &[2, -2, 1, -1, 2, -1]], &[2, 0, -2, -2, -1, -2], &[0, 0]),
    (1, &[&[-1, -1, -2, 3, -3, -1], &[3, 0, 3, 2, 1, 0]], &[1, 0, -3, -3, -3, -2], &[0, 0]),
    (1, &[&[3, 2, -2, 1], &[3, 2, -3, -2], &[1, -2, -1, -3]], &[2, -1, 1, -3], &[0, 0, 0]),
    (1, &[&[1, 1, 3, 0], &[-4, -2, 1, -2], &[-2, -4, -3, 2]], &[-1, -2, 3, -4], &[0, 0, 1]),
    (1, &[&[-3, 2, 3, -1], &[3, 2, 4, 1], &[1, 4, -3, -1]], &[-2, 2, -2, -3], &[0, 0, 0]),
    (1, &[&[-1, 2, 3, -3], &[-1, 3, 1, -2], &[-2, -1, -3, 1]], &[1, 2, -3, 1], &[0, 0, 0]),
    (1, &[&[2, 3, 1, -1, -1], &[-2, -2, 2, 1, -1], &[0, 1, 0, 1, -3]], &[-1, -2, 3, 2, -1], &[0, 0, 0]),
    (1, &[&[2, -1, -2, 3, -1], &[0, 3, 2, 3, 2], &[3, 2, -3, 0, 0]], &[2, -1, 0, 1, -2], &[0, 0, 0]),
    (1, &[&[3, -4, -3, 1, -4], &[4, 1, 1, 3, -2], &[3, -4, -3, 2, -2]], &[2, -2, -4, -1, -4], &[0, 0, 0]),
    (1, &[&[3, 2, 2, 2, -1], &[1, 3, 2, 0, -1], &[-1, 2, -1, -2, 2]], &[-2, -1, 0, -3, -2], &[0, 0, 0]),
    (1, &[&[0, 1, -1, 2, 1], &[2, 0, 0, 0, 1], &[1, 2, -1, -2, 1]], &[-2, 2, -1, 2, -1], &[0, 0, 0]),
    (1, &[&[3, 4, 3, 2, -2], &[3, -4, 2, -2, 0], &[1, -4, -1, -3, -2]], &[4, -1, -1, -4, 2], &[0, 0, 0]),
    (1, &[&[2, 2, 2, 3, 0], &[1, 2, -1, -3, 1], &[-3, -3, 0, -2, -1]], &[-1, -2, 0, -3, -1], &[0, 0, 0]),
    (1, &[&[-3, 2, 0, 2, -3], &[2, 1, 2, 2, 0], &[-3, 3, 3, 0, -2]], &[-2, 2, -1, -3, -3], &[0, 0, 0]),
    (1, &[&[2, 0, -1, -3, 0, -2], &[2, -2, -2, 2, -2, 2], &[2, 2, -3, 0, 3, 1]], &[-1, 0, 3, -1, -1, -1], &[0, 0, 0]),
    (1, &[&[1, -2, 2, -1, 3, -1], &[3, 2, 2, 3, 0, 0], &[-2, 2, -3, 2, 2, 0]], &[-1, 2, -3, -1, 3, 0], &[0, 0, 0]),
    (1, &[&[2, 2, 4, -2, 2, 3], &[4, 1, -4, 4, -2, 1], &[1, -3, 1, -1, -4, 2]], &[0, -1, 3, -3, -4, 2], &[0, 0, 0]),
    (1, &[&[3, 3, 3, 3, 1, 3], &[0, 2, 1, 3, -3, 2], &[2, 4, 0, -1, -3, -2]], &[-1, 0, -1, -2, -3, -3], &[0, 0, 0]),
    (1, &[&[1, 0, 2, 2, 0, 2], &[2, 1, -2, 2, 2, -2], &[-2, 2, 0, 0, 1, -1]], &[2, 1, 0, -2, -2, -2], &[0, 0, 0]),
    (1, &[&[2, 2, -3, -2, -3, 2], &[-2, 0, 2, 3, -3, -1], &[1, -2, 3, 3, 1, -1]], &[-1, 3, 3, -1, 0, -3], &[0, 0, 0]),
    (1, &[&[-3, 2, 3, 1, 3, -4], &[0, -2, -4, 1, 0, 1], &[1, -4, 4, -4, 0, 3]], &[4, 2, -2, 1, -4, 1], &[0, 1, 0]),
    (1, &[&[2, 0, 4, -3, -4, 2], &[1, 2, 1, -1, 2, -1], &[-3, 4, -2, -4, -4, 2]], &[-1, 3, -2, -1, -2, 1], &[0, 0, 0]),
    (1, &[&[-4, -3, 4, -4, -1, -2, -1], &[4, -4, 2, -3, 3, -1, 4], &[1, -2, 4, -1, -1, 3, 2]], &[-1, 4, 1, 1, -2, -4, 0], &[0, 0, 0]),
    (1, &[&[1, 0, -3, 3, 0, 0, 4], &[-4, 1, 3, 1, -4, -1, -1], &[0, 3, 4, 0, 2, -3, 1]], &[-1, -1, -1, 0, -3, 2, -2], &[0, 0, 0]),
    (1, &[&[-3, -1, 1, 1, -1, 1, -4], &[4, -1, -3, 3, 3, 4, -3], &[3, -3, -4, 1, 3, 4, 0]], &[-1, -4, -4, 0, -3, -2, -3], &[0, 0, 0]),
    (1, &[&[2, 3, 1, -2, 3, 2, -2], &[-1, 1, -3, 0, 3, 0, -3], &[-3, -2, 3, 0, 3, -2, 1]], &[2, -2, 2, 3, 1, -3, 3], &[0, 0, 0]),
    (1, &[&[4, 4, 1, 1, 3, 3, 1], &[-2, 3, 1, 3, 4, -4, 2], &[3, -2, 0, -3, 2, 2, -2]], &[3, 0, -4, 1, 0, 1, 4], &[0, 0, 0]),
    (1, &[&[2, 0, -2, 2, 0, 2, -2], &[0, 1, -2, 1, 0, 0, -2], &[0, 1, -2, -1, -2, 1, -1]], &[1, 2, 0, -2, 0, 1, -1], &[0, 0, 0]),
    (1, &[&[2, 2, 2, 0, -2, 1, 1], &[3, 2, 0, 2, -3, 3, -1], &[-3, 3, -1, 2, -3, -1, -2]], &[-1, 1, 0, 1, 3, -2, 0], &[0, 0, 0]),
    (1, &[&[3, 2, 1, 1, 1, 4, -4], &[4, 4, 3, 3, 0, 3, 0], &[3, -3, 2, -1, 0, -1, -4]], &[3, -1, 3, 1, -1, -4, -2], &[1, 0, 0]),
    (1, &[&[-3, 2, -3, -2, 2], &[3, 0, 2, 1, 2], &[1, 2, -2, -3, -2], &[1, -1, -2, 1, -1]], &[-2, 3, -2, -3, -1], &[0, 0, 0, 1]),
    (1, &[&[3, 1, 3, 4, 0], &[3, -4, -1, 0, 3], &[-4, -3, -3, 4, -1], &[2, -2, -2, 1, 1]], &[-2, 2, -2, 3, -1], &[0, 0, 0, 0]),
    (1, &[&[-4, 2, -1, -3, -1], &[-3, 1, 3, -3, -2], &[3, 4, -3, 2, 0], &[-1, 3, -1, 0, -1]], &[-1, 2, 4, -1, -4], &[0, 1, 0, 0]),
    (1, &[&[3, 3, 2, 0, 3], &[1, 4, -1, -1, 4], &[3, -2, -2, -3, 1], &[4, 1, -3, -2, 0]], &[3, -3, -4, 0, -2], &[0, 0, 0, 0]),
    (1, &[&[-4, 4, 4, -4, -1], &[4, 3, -1, 0, 4], &[0, 1, -1, -2, -3], &[-4, -2, -2, -2, 0]], &[-1, -3, -4, -3, 0], &[0, 0, 0, 0]),
    (1, &[&[1, -3, 1, -1, -2], &[1, -4, 1, -3, -2], &[2, -3, 3, 4, 3], &[1, -3, 3, 3, 1]], &[-1, 2, 2, 0, -3], &[0, 0, 0, 0]),
    (1, &[&[-3, 1, -1, -2, -2], &[3, 3, 0, -3, -3], &[4, 4, 3, 3, 2], &[0, -3, 3, 3, -4]], &[-2, -1, -2, -1, -3], &[0, 0, 0, 0]),
    (1, &[&[3, 3, 0, 3, 0], &[1, 3, 2, 0, 0], &[-3, -1, -2, -3, -2], &[1, 3, -1, 0, -1]], &[-2, 1, 1, -2, -1], &[0, 0, 0, 0]),
    (1, &[&[-2, -3, -1, -3, -3, -2], &[3, 3, -2, -3, 2, 4], &[3, 2, 2, 1, -1, 0], &[1, -4, 0, -1, -2, 2]], &[-1, 0, -3, -2, -3, -3], &[0, 1, 0, 0]),
    (1, &[&[-1, 3, 1, -1, -1, 1], &[4, 4, 1, -3, -4, 3], &[-3, -4, 2, -1, -3, -1], &[3, 4, 3, -2, 3, 2]], &[0, -4, 3, 2, -3, -4], &[1, 0, 0, 0]),
    (1, &[&[3, 0, -2, -2, 4, -2], &[-4, 0, -2, -3, -3, -3], &[-1, -3, 3, 1, -2, -4], &[1, 4, 3, 2, 0, -3]], &[-2, 1, 1, -2, -3, 1], &[0, 0, 0, 0]),
    (1, &[&[-3, 0, 0, 3, -1, -2], &[-2, 1, -2, 0, -2, 1], &[3, 1, 2, -2, 2, 2], &[1, 3, -2, -3, 3, 1]], &[-2, 1, -1, -1, 0, 0], &[0, 0, 0, 0]),
    (1, &[&[3, 0, 1, 4, -1, 2], &[1, -4, -1, -4, 3, 3], &[4, -2, 0, 3, 4, 1], &[-2, 2, -4, 2, -3, -2]], &[-4, 1, -2, -1, 4, -2], &[0, 0, 0, 0]),
    (1, &[&[1, -2, -2, -4, 4, -3], &[2, 0, -3, -4, 2, -4], &[0, 2, -3, 4, 4, -3], &[3, 0, 2, -3, 2, -4]], &[-3, -1, 3, -3, 4, -2], &[0, 0, 0, 0]),
    (1, &[&[3, 3, -3, -2, 2, -3], &[3, 3, 3, 2, -2, 2], &[2, 3, -1, -3, -3, 2], &[-3, 0, 1, -1, -1, 1]], &[-2, 3, -1, -2, -3, 0], &[0, 0, 0, 0]),
    (1, &[&[-3, 3, -2, -3, 0, -3], &[3, 3, 1, 0, -1, 4], &[2, -4, -4, 1, 4, 0], &[3, -3, -1, -1, -2, 3]], &[-1, 0, 3, -3, -1, -3], &[0, 0, 0, 0]),
    (1, &[&[4, 2, 3, 4, -4, 0, 3], &[-4, 3, 3, -4, -3, -3, -2], &[0, 0, 2, 1, 0, 4, 4], &[-2, -4, -3, 0, 0, 1, -1]], &[1, -1, 4, -1, -4, 0, 2], &[0, 0, 0, 0]),
    (1, &[&[3, -2, -3, -3, 3, 2, 0], &[-4, -1, 1, 3, -1, -1, -4], &[1, 3, -3, -4, 2, -4, -2], &[-2, -3, -1, 0, -4, -3, 3]], &[-1, 4, 2, 1, 1, -2, -2], &[0, 0, 0, 0]),
    (1, &[&[2, 3, 3, 2, -1, 3, -1], &[-3, -3, 0, 0, -4, 3, 3], &[3, 4, -2, -1, -2, -4, -4], &[1, -2, 0, 2, -4, 3, -1]], &[-2, 3, 0, 1, -3, 1, -1], &[0, 0, 0, 0]),
    (1, &[&[3, -1, -2, 2, 2, -3, 0], &[-2, 2, 0, 0, 3, 2, 1], &[1, 3, 2, -3, -3, -2, 2], &[2, -3, -2, 1, -1, -2, -2]], &[-2, 1, -3, 3, -1, 0, -3], &[0, 0, 0, 0]),
    (1, &[&[3, -3, -4, 2, -1, 0, -4], &[1, -4, 1, 4, 1, 2, -4], &[1, -1, -2, 3, 4, -4, 2], &[-1, 3, 4, 2, -3, 1, 3]], &[3, 4, -2, -1, 4, -3, -3], &[0, 0, 0, 0]),
    (1, &[&[2, -3, 0, -2, -1, 1, -1], &[3, 1, -1, -1, 3, 3, -2], &[2, 2, 3, 1, 0, 3, -1], &[-1, 1, -2, -2, 2, -2, -2]], &[1, -3, -2, -2, 2, -2, 2], &[0, 0, 0, 0]),
    (1, &[&[-4, -3, -1, 4, 4, -4, -4], &[3, 1, -3, 3, 2, 2, -2], &[-3, -4, 0, -4, -1, -2, -2], &[-2, 1, -2, -3, -3, -1, -4]], &[1, 4, 4, -1, -4, -4, -4], &[1, 0, 0, 0]),
    (1, &[&[-1, 3, 2, 1, 1, 0, -1], &[1, -1, -2, -2, 1, -1, 0], &[-2, 3, 1, 2, 3, -3, -1], &[-3, 0, -3, 2, -3, -1, -1]], &[1, 1, 0, -1, -2, -1, -2], &[0, 0, 0, 0]),
    (2, &[&[-3, -1, -3, 0, 3], &[3, -1, -2, 1, 1]], &[-2, 3, 3, -3, 1], &[0, 0]),
    (2, &[&[-4, -4, -1, 4, -4], &[2, 4, -3, 2, -3]], &[-1, -3, 1, 3, -3], &[0, 0]),
    (2, &[&[-2, 3, -1, -1, -3], &[3, 1, -1, 2, -2]], &[-2, 1, 3, -2, 3], &[0, 0]),
    (2, &[&[-2, -1, 3, -2, -3], &[3, 2, 3, -3, -4]], &[-1, -4, 3, 4, -1], &[0, 0]),
    (2, &[&[-1, 3, -3, -1, -3], &[-3, 2, 1, 2, -3]], &[3, 1, -1, -3, 0], &[0, 0]),
    (2, &[&[3, -2, -2, -1, -3], &[1, 2, -3, 3, -4]], &[3, -1, 3, -4, 0], &[0, 0]),
    (2, &[&[-4, 0, 4, -3, 0, -4], &[1, 4, 1, 1, -1, -4]], &[-1, 1, 3, -2, 3, -3], &[0, 0]),
    (2, &[&[2, -4, -3, -4, -1, 1], &[1, -3, -2, -1, 4, 4]], &[1, 3, 0, 1, 3, -2], &[0, 0]),
    (2, &[&[4, -1, -3, -1, 4, -1], &[2, -1, -2, 1, -1, 2]], &[3, 4, 2, -1, 1, -4], &[0, 0]),
    (2, &[&[2, -3, 3, 3, -4, 1], &[4, -2, 4, 1, -2, 3]], &[-2, 3, -4, 2, -1, 2], &[0, 0]),
    (2, &[&[-2, 1, 0, -2, -3, 3], &[3, 3, 1, -3, -4, 3]], &[-2, 2, -2, 4, 0, 3], &[0, 0]),
    (2, &[&[-3, -4, 0, 0, 4, -1], &[2, 3, -2, 4, 1, -3]], &[-2, -4, 4, 0, 4, 3], &[0, 0]),
    (2, &[&[-2, -3, 0, 3, -3, 1], &[2, -3, -2, 1, -2, 3]], &[1, 2, 3, 1, 0, -2], &[0, 0]),
    (2, &[&[0, -3, 1, 4, -4, 0], &[3, -2, 3, 1, -2, 0]], &[3, 2, -2, 2, -1, 3], &[0, 0]),
    (2, &[&[0, 2, -1, -3, 1], &[3, -1, 2, -3, 1], &[-1, 0, 2, -1, 2]], &[3, 1, 1, 1, -2], &[0, 0, 0]),
    (2, &[&[2, 0, -2, 2, 1], &[0, -2, 1, 3, -3], &[2, -2, 2, -1, -3]], &[1, 1, -1, 3, 1], &[0, 0, 0]),
    (2, &[&[-2, -2, 3, -2, -2], &[2, 3, 1, -3, -2], &[-2, 2, -2, 3, 0]], &[-1, -3, 2, 3, 1], &[0, 0, 0]),
    (2, &[&[-3, 0, -1, -2, 3], &[3, 1, -2, -3, 2], &[0, -3, -2, 2, 3]], &[-2, -2, 3, 2, 2], &[0, 0, 0]),
    (2, &[&[-3, 0, -2, -1, 3], &[2, -1, -2, 1, 1], &[0, -3, 3, 0, -2]], &[-1, 3, 1, -3, 2], &[0, 0, 0]),
    (2, &[&[-2, 2, -2, -2, 1], &[-3, 0, 0, 2, -1], &[-2, 1, -3, 2, 3]], &[3, 1, 1, 3, -2], &[0, 0, 0]),
    (2, &[&[1, 3, 3, 2, 1, -4], &[-3, 1, -4, 2, -3, -3], &[3, 3, -2, 4, -1, 0]], &[3, 3, 1, -1, 0, 1], &[0, 0, 0]),
    (2, &[&[-2, 2, -1, 0, -3, -4], &[3, 1, -1, 1, 2, -3], &[0, -3, 4, 4, 0, 0]], &[-1, 2, 4, -3, -4, 0], &[0, 0, 0]),
    (2, &[&[2, -2, -4, -2, -4, -2], &[1, -4, 3, 3, -4, -1], &[3, -4, -4, -3, -3, 2]], &[4, 4, -3, -4, -3, 3], &[0, 0, 1]),
    (2, &[&[2, 0, 1, -2, 3, -4], &[1, 2, 4, -2, 1, -3], &[4, 3, 3, 3, -3, -3]], &[3, 1, -2, 3, -4, -3], &[0, 0, 0]),
    (2, &[&[-3, 1, -3, 2, 1, 3], &[4, 2, -1, -2, -3, 4], &[3, 2, -3, 4, 4, -3]], &[-3, -3, 1, 2, 1, 0], &[0, 0, 0]),
    (2, &[&[1, 0, -2, 2, 2, -1], &[-3, 0, 3, -1, 0, -1], &[0, 2, 3, 3, 1, -1]], &[1, 2, 0, -3, 2, -2], &[0, 0, 0]),
    (2, &[&[4, -1, 1, 3, -2, -1], &[-2, 0, 1, 4, -1, -4], &[-2, 4, 0, -4, 1, 2]], &[3, 0, -4, -1, 4, -2], &[0, 0, 0]),
    (2, &[&[-3, -2, -2, 1, -3, 2], &[1, -3, 0, 2, -2, -1], &[0, 2, -1, 1, 1, 2]], &[2, -1, 2, -2, -3, -2], &[0, 0, 0]),
    (2, &[&[1, 2, 2, -2, 1, 0, 1], &[-2, 2, -1, -1, -2, 0, -2], &[2, 2, -2, 0, 0, 1, -2]], &[1, -2, 2, 0, 2, 2, 0], &[0, 0, 0]),
    (2, &[&[2, -2, -2, -2, -2, -2, 1], &[2, 2, 1, -1, 1, 1, -2], &[1, -1, -2, 1, 0, 0, 1]], &[2, 2, 2, 1, -2, 0, -2], &[0, 0, 0]),
    (2, &[&[-3, 2, -1, -3, -3, -3, 2], &[0, -2, 3, -2, -3, -1, -1], &[-2, 2, 1, -3, 3, -2, 0]], &[3, -2, -1, 3, 2, 1, 2], &[0, 0, 0]),
    (2, &[&[-4, -1, -2, -1, 0, -1, 1], &[3, -3, -1, 2, -4, -4, 1], &[4, 4, 3, 4, 1, 4, -4]], &[-1, 3, 4, -2, 2, -2, 2], &[0, 0, 0]),
    (2, &[&[-1, 3, -1, -2, 4, 4, 3], &[4, 4, 0, -1, -4, -1, 4], &[4, 3, -4, -4, 3, 2, 3]], &[-1, -1, 3, 2, 0, -1, -4], &[1, 0, 0]),
    (2, &[&[-3, 0, -3, -4, 3, -1, 3], &[4, -1, 2, -1, -1, 2, -3], &[-1, 0, 1, 1, 3, 3, -4]], &[-4, 3, -2, 1, 3, -4, 3], &[0, 0, 0]),
    (2, &[&[-1, -3, -2, -3, 2, 3, -1], &[-3, 3, 3, 0, -2, 1, -2], &[-1, 2, 3, 1, -2, 3, -1]], &[0, -2, -1, -3, 3, 1, -3], &[0, 0, 0]),
    (2, &[&[2, 1, -2, -3, -3, -2, -3], &[-1, -3, -3, 0, -2, -2, 3], &[1, 2, -2, -2, -3, 3, 1]], &[3, -1, 1, -3, -1, 3, -3], &[0, 0, 0]),
    (2, &[&[4, -3, 3, 0, -3], &[-2, -1, 0, 3, -2], &[2, -4, 2, -1, -2], &[0, 4, 4, 0, -1]], &[1, -2, -4, 0, 1], &[0, 0, 0, 0]),
    (2, &[&[-1, -2, 2, -2, 0], &[-1, 0, -1, 0, -2], &[-1, -1, 1, -1, -2], &[-1, -2, 1, 2, 1]], &[2, 1, 0, -1, -2], &[0, 0, 0, 0]),
    (2, &[&[-2, 1, -1, -4, -2], &[1, -1, -1, -1, -4], &[1, -3, 1, -4, 3], &[-3, -3, -2, 4, 3]], &[-1, 3, 0, 3, -1], &[0, 0, 0, 0]),
    (2, &[&[-1, 4, -2, 1, -3], &[3, -2, -4, -3, -1], &[3, -3, 0, 3, 1], &[2, 4, 2, -1, 0]], &[4, 1, 3, -4, -3], &[0, 0, 0, 0]),
    (2, &[&[3, 0, -1, -3, 1], &[0, 0, 3, 3, -1], &[-1, 0, -4, 2, -2], &[2, 1, 2, -4, 3]], &[0, 1, 0, 1, -2], &[0, 1, 0, 0]),
    (2, &[&[1, -1, 1, -2, 1], &[0, -3, -3, 1, 1], &[1, -3, -3, -1, -1], &[-1, 2, 1, 1, -3]], &[3, 1, 0, -3, 3], &[0, 0, 0, 0]),
    (2, &[&[-4, 4, -2, -1, 1], &[-3, 2, -3, 0, 1], &[-2, 1, 2, -1, 2], &[2, -2, 4, 4, 0]], &[2, 1, -1, 4, -4], &[0, 0, 0, 0]),
    (2, &[&[0, -2, -4, 3, -4], &[-3, -2, -1, 3, -4], &[1, 1, -1, 2, -3], &[4, 2, -2, 3, 3]], &[-1, -2, 4, 0, 2], &[1, 0, 0, 0]),
    (2, &[&[2, -4, 3, 1, -1, 0], &[1, -2, -3, 1, 0, -3], &[1, 3, 2, 3, 1, -4], &[-1, 2, 1, -2, -4, 3]], &[2, 4, 2, -3, -2, 1], &[0, 0, 0, 0]),
    (2, &[&[-2, 2, 0, -3, 0, -3], &[1, 2, -3, 2, 1, -3], &[-1, 1, -1, 3, 2, -2], &[-2, -2, 1, 0, 1, -2]], &[-1, 3, 3, 1, -3, 0], &[0, 0, 0, 0]),
    (2, &[&[0, 1, -3, 1, 1, -3], &[4, 3, -1, -4, 1, -2], &[1, -3, 3, -3, 2, -2], &[2, 2, -3, 4, 4, 1]], &[0, -2, 4, -3, 2, -2], &[0, 0, 0, 0]),
    (2, &[&[-2, 3, 0, -2, -3, 1], &[1, -3, 2, 3, -2, -3], &[-2, -1, -2, -1, 1, 0], &[1, -1, 2, 1, -1, 3]], &[-3, 1, -2, 1, 0, -1], &[0, 0, 0, 0]),
    (2, &[&[-4, -1, -1, -1, 1, -4], &[-3, -4, 1, 3, 4, 4], &[-2, -4, 2, -2, 4, -2], &[-4, -2, 0, 4, 3, -4]], &[4, 1, -4, 4, 0, -3], &[0, 0, 0, 0]),
    (2, &[&[2, 1, -2, 0, -3, -2], &[-1, -1, -2, -1, 0, -1], &[2, 1, -1, -1, -1, 3], &[-1, 2, 2, -2, -1, -2]], &[0, -2, 3, 3, -1, 1], &[0, 0, 0, 1]),
    (2, &[&[-1, 3, -1, 1, -1, -1], &[-4, -1, -2, -1, 1, -1], &[-4, 2, -1, 0, 3, -2], &[0, 3, 3, 2, 0, -1]], &[2, -3, 0, -4, 4, -3], &[0, 0, 0, 0]),
    (2, &[&[0, 1, 1, -1, -2, -1], &[3, -1, 2, -3, 4, -2], &[-1, 4, 0, 1, -4, 2], &[2, -1, 4, 0, -4, 0]], &[0, 3, -3, 1, -3, -1], &[0, 0, 1, 0]),
    (2, &[&[-3, -2, 2, 1, 3, -1, -2], &[-1, -3, 2, 1, 1, -3, 2], &[3, 0, 1, 2, -3, 1, -2], &[3, 3, 2, 3, 1, 3, -2]], &[3, 1, 3, -2, 1, -1, -3], &[0, 0, 0, 0]),
    (2, &[&[2, -1, 1, -4, 1, -1, -2], &[4, 1, -2, -4, -2, 3, 0], &[-3, 2, 4, -1, -2, -1, 0], &[3, 3, 1, 2, 0, -1, 1]], &[1, 4, -3, 4, 1, 3, -1], &[0, 0, 0, 0]),
    (2, &[&[-2, 3, -3, 1, -4, -3, 4], &[-4, 3, 3, 0, -4, -4, 3], &[-1, 4, 3, -3, 1, -1, 3], &[3, 1, 0, 3, 3, -2, -4]], &[1, 0, -2, 3, -4, 2, 4], &[0, 0, 0, 0]),
    (2, &[&[2, -4, -3, -4, 2, -2, 2], &[-3, 0, 1, -3, -2, 2, -3], &[0, -1, 2, -4, 2, -3, -3], &[-1, 4, 4, -2, -2, -4, 3]], &[2, 1, -1, -3, 2, 3, -1], &[1, 0, 0, 0]),
    (2, &[&[4, -1, -3, 0, -3, 4, 3], &[-3, 0, 4, -4, -2, -3, 0], &[-2, -4, -1, -2, 2, 3, -4], &[3, -3, 3, 3, -1, 0, -2]], &[-4, 3, 0, 0, 2, 1, -3], &[0, 0, 0, 0]),
    (2, &[&[1, 2, -1, 2, -2, 4, -4], &[3, 2, 0, 4, -2, -2, -3], &[0, 2, -2, 2, 3, 2, 3], &[-2, -3, -4, -4, 2, -1, -3]], &[2, -4, 2, -4, 0, 0, -1], &[0, 0, 0, 0]),
    (2, &[&[2, -2, 0, 1, -2, -2, -3], &[-1, 1, -2, 3, 1, 1, 3], &[3, 2, -2, 0, -1, 2, -1], &[3, 0, 1, -1, 3, -3, 0]], &[2, -2, 1, 0, -2, 3, -2], &[0, 0, 0, 0]),
    (2, &[&[0, 4, 1, 2, -2, -1, -3], &[-2, 2, 0, -2, -3, 0, -2], &[4, 2, 2, 0, 1, 4, -3], &[-1, -2, -1, 2, 1, 1, 4]], &[0, 2, -3, -3, 4, 0, 1], &[0, 0, 0, 0]),
    (3, &[&[2, 3, 3, -2, -3], &[-2, 3, -2, 0, -1]], &[-1, 2, -3, 2, 0], &[0, 0]),
    (3, &[&[-2, 3, 1, -2, 3], &[-1, -3, 3, -3, -1]], &[4, -2, 0, 2, -4], &[0, 0]),
    (3, &[&[2, -2, 1, -3, 2], &[-3, -1, -1, -2, 2]], &[-2, 3, -3, -1, 2], &[0, 0]),
    (3, &[&[-3, 1, 2, 2, -4], &[0, -2, 3, -2, -2]], &[3, -1, 3, -3, 0], &[0, 0]),
    (3, &[&[-2, 3, 2, 2, 1, -2], &[-2, -2, -3, -1, 3, -3]], &[2, 3, -1, -2, 3, -2], &[0, 0]),
    (3, &[&[4, -3, 3, 2, -4, -4], &[-2, -1, -1, 2, -3, -2]], &[-1, 4, -3, 4, 1, -1], &[0, 0]),
    (3, &[&[2, 4, 2, 3, -3, -4], &[0, -3, 4, -2, -2, -3]], &[4, -3, 3, -3, 3, 3], &[0, 0]),
    (3, &[&[3, 1, 2, -2, 2, -3], &[-2, 2, 0, 0, -1, -3]], &[-1, 2, 0, 2, -2, -2], &[0, 0]),
    (3, &[&[-2, 2, 1, 1, -2, -1], &[-1, -3, -1, 2, -2, -2]], &[2, -1, -2, 2, -1, 2], &[0, 0]),
    (3, &[&[-1, 3, -4, 3, -1, 4], &[0, -2, -1, 3, 4, -2]], &[1, -1, 2, 2, 1, -4], &[0, 0]),
    (3, &[&[2, 1, 2, 2, -2, -3], &[0, -4, 4, -4, 2, 2]], &[2, 3, -4, -2, 4, -3], &[0, 0]),
    (3, &[&[2, 1, 1, 2, -2, -1], &[-3, 3, -1, -2, -1, -1]], &[-3, 3, -2, -3, 2, 0], &[0, 0]),
    (3, &[&[-2, 3, -3, 3], &[-2, 3, -3, 1], &[-1, -1, -1, -2]], &[3, 2, 2, -3], &[0, 0, 0]),
    (3, &[&[1, 4, 0, 2, -1], &[-3, -2, -2, -3, 0], &[-3, 2, 1, -4, 0]], &[4, 0, -3, -3, 3], &[0, 0, 0]),
    (3, &[&[4, 4, -3, -2, -4], &[3, 1, -4, -2, -3], &[-1, -4, -1, -4, -3]], &[4, -4, 4, -1, -1], &[0, 0, 0]),
    (3, &[&[2, -2, 2, 0, -4], &[-2, 3, -4, -2, 4], &[1, 3, -1, -3, 3]], &[-4, 2, -1, 2, 2], &[0, 0, 0]),
    (3, &[&[1, -3, 3, 4, -2], &[2, -4, -2, 3, -3], &[-1, 1, -4, -4, -2]], &[2, 1, 4, -2, -2], &[0, 0, 1]),
    (3, &[&[-1, -3, -2, -3, 4], &[1, 2, -3, 1, -3], &[-3, -4, 2, -4, 1]], &[-1, -3, 3, 0, 1], &[0, 0, 0]),
    (3, &[&[4, -2, 4, -4, 0], &[2, -3, -3, -2, 3], &[-4, -2, -3, -1, 1]], &[-2, 3, -2, 3, -1], &[0, 0, 0]),
    (3, &[&[2, -3, 4, 1, -3], &[0, 3, -1, -3, -4], &[-3, 1, -3, 0, 2]], &[-1, -2, -2, 4, 4], &[0, 0, 0]),
    (3, &[&[3, -4, -1, 2, -4], &[-3, 1, 2, 0, -3], &[-2, 4, -4, -4, -4]], &[3, 3, -3, -4, -1], &[0, 0, 0]),
    (3, &[&[2, -1, 1, 2, -2, 1], &[2, 2, -1, 1, -2, -1], &[2, -2, 0, 0, -1, 2]], &[-1, -1, 1, -2, 2, 0], &[0, 0, 0]),
    (3, &[&[2, -1, 1, 0, 1, -1], &[-2, 0, -1, -2, 0, -1], &[2, 0, -2, 1, -1, -1]], &[1, 1, -1, 0, -2, 0], &[0, 0, 0]),
    (3, &[&[1, -3, 0, 4, -4, -1], &[-1, 0, 4, -3, -1, -1], &[0, -2, 1, 1, -3, 1]], &[0, 3, 4, -3, -2, 1], &[0, 0, 0]),
    (3, &[&[1, 3, 2, -1, 0, 2], &[1, 2, -2, 2, -3, -3], &[-2, 1, 2, -3, -1, 1]], &[0, -3, 1, -1, 0, -2], &[0, 0, 0]),
    (3, &[&[3, -1, 3, 3, -1, -2], &[-2, 0, 1, -2, 1, -1], &[2, -2, -1, 1, -3, 2]], &[2, 0, 1, -1, -2, 2], &[0, 0, 0]),
    (3, &[&[-1, 1, 3, -2, -2, -2], &[-3, 0, -4, 0, 0, -1], &[-2, 4, 2, 1, -3, -1]], &[3, 4, -4, 0, 0, 3], &[0, 0, 0]),
    (3, &[&[0, -4, -1, 4, -3, 4], &[4, -2, -3, 0, 3, -1], &[-1, -2, -4, 3, 1, 2]], &[2, 2, 1, 3, -2, 0], &[0, 0, 0]),
    (3, &[&[3, 2, 3, -2, 3, 1], &[-1, 0, 2, -1, -4, 4], &[-2, -1, 2, 0, -1, -1]], &[-1, -1, 3, 0, 0, 3], &[0, 0, 0]),
    (3, &[&[1, 3, -4, 1, 2, 2, 2], &[-2, 1, -3, 3, 1, 2, -1], &[-1, -2, -2, -1, 1, 3, -1]], &[1, -1, 3, 3, 2, 1, -4], &[0, 0, 0]),
    (3, &[&[3, 4, -2, 1, -3, 0, 0], &[0, 1, -2, 2, 1, -4, -4], &[1, -1, 0, 1, -4, 3, -4]], &[-4, -3, 4, 2, 0, 2, 4], &[0, 0, 0]),
    (3, &[&[2, 2, 3, 2, 1, 4, -1], &[-4, -3, -4, 2, -4, -3, -3], &[-2, 2, 1, -2, 4, -3, -1]], &[3, 3, -2, 4, 2, -2, 3], &[0, 0, 0]),
    (3, &[&[1, 0, 1, -3, -2, 1, -2], &[-2, -1, 2, 3, 3, -3, 2], &[-3, 1, -1, 0, -2, -1, -3]], &[2, 2, -3, 1, -2, 0, 0], &[0, 0, 0]),
    (3, &[&[2, 3, 3, -1, -2, -2, 3], &[-1, -2, 3, -3, 2, 3, 0], &[-2, 3, -1, 3, -1, 0, -3]], &[3, 3, -1, 0, 0, -3, -2], &[1, 0, 0]),
    (3, &[&[3, 2, -3, 2, 3, 0, 0], &[-3, -2, 0, 0, 3, -3, 3], &[-1, 1, -2, 1, 0, -1, 2]], &[1, 3, 1, -2, 0, 1, -1], &[0, 0, 0]),
    (3, &[&[1, 3, 1, 4, 4, -1, 0], &[1, 2, 2, 4, -3, 3, -2], &[2, -3, -4, 0, -2, 4, -3]], &[1, -1, 0, -4, 2, 1, -1], &[0, 0, 0]),
    (3, &[&[-4, -1, 3, -3, -4, -3, 2], &[4, 4, -2, 0, -4, -3, -3], &[-2, -1, -1, 1, -3, -3, 4]], &[-2, -4, 4, 3, 2, -1, 1], &[0, 0, 0]),
    (3, &[&[0, 3, 4, 2, 2], &[1, 0, 2, -3, -4], &[-3, -2, 0, -1, -2], &[-4, 4, -2, 4, 3]], &[-3, -4, 1, 0, -1], &[0, 0, 0, 0]),
    (3, &[&[3, -3, 0, -1, -1], &[3, 3, -1, -2, -2], &[3, -3, 3, -1, -4], &[-1, 2, -4, 0, -3]], &[-2, 4, 3, 4, -2], &[0, 0, 0, 0]),
    (3, &[&[4, 2, 3, -3, 2], &[-1, 2, 1, 1, -2], &[-4, 1, -2, -4, -3], &[-1, 3, -4, 0, -4]], &[3, 3, -1, -3, 4], &[0, 0, 0, 0]),
    (3, &[&[-2, 2, 2, -2, -2], &[2, -1, 1, -1, 0], &[0, -1, 1, -2, -1], &[-1, 2, 1, 1, -2]], &[2, 2, -2, -1, -2], &[0, 0, 0, 0]),
    (3, &[&[2, -3, 4, -1, -4], &[-1, 3, -4, 2, -2], &[-3, -3, -2, -4, -3], &[-3, -2, -3, -4, 3]], &[0, -1, 4, -2, 2], &[0, 0, 0, 0]),
    (3, &[&[2, -2, 0, 4, -3], &[-2, 4, -3, -3, 2], &[0, -1, 2, 1, -4], &[-3, 0, 2, -4, -4]], &[4, -1, 4, -4, 2], &[0, 0, 0, 0]),
    (3, &[&[4, 1, -3, 2, -2], &[3, 4, -1, 0, -4], &[-1, 2, -3, 2, 4], &[-3, 4, -4, -4, 2]], &[-1, 4, 1, -1, -4], &[0, 0, 0, 0]),
    (3, &[&[-2, 2, 4, -2, -1], &[3, -2, -3, 0, 2], &[-4, -2, -1, -1, -1], &[-4, -4, -3, -2, 1]], &[-1, 0, -3, 1, 1], &[0, 0, 0, 0]),
    (3, &[&[-4, -1, 2, 4, 1, -1], &[0, -2, -1, 2, -4, -1], &[0, -3, -4, 2, -3, -1], &[2, -1, -2, 0, 4, 4]], &[2, 4, 0, -3, 3, 3], &[1, 0, 0, 0]),
    (3, &[&[-4, -4, 4, 2, -3, 1], &[1, 1, 4, -4, -4, 4], &[-3, 4, 4, 3, 0, -3], &[-4, -1, -3, 2, -1, -2]], &[-1, -2, -3, 2, 2, -4], &[0, 0, 0, 0]),
    (3, &[&[3, 3, 0, 3, 3, -1], &[3, -2, -1, 2, 3, 3], &[2, -2, -1, 3, 0, 0], &[1, 2, -3, -3, -1, 0]], &[-2, -3, -3, 1, 2, 3], &[0, 0, 0, 0]),
    (3, &[&[-2, 1, -3, 3, -2, 3], &[-3, -1, -3, -2, 0, 1], &[-3, -2, -3, -1, 1, -1], &[0, -3, -1, 1, -1, 0]], &[3, 1, 3, -2, 1, 0], &[0, 0, 0, 0]),
    (3, &[&[-4, -1, -1, -2, 1, -3], &[4, -1, -3, 1, 1, -2], &[4, 3, -3, 0, 3, -2], &[3, 4, 2, -4, -1, 0]], &[4, 3, 3, -1, -2, -1], &[0, 0, 0, 0]),
    (3, &[&[-4, 2, -1, 4, -2, 4], &[3, 1, 4, 4, 2, -3], &[-2, -4, -4, -3, -3, -2], &[4, -1, 0, 2, -3, -4]], &[4, 0, 3, -3, -2, 0], &[1, 0, 0, 0]),
    (3, &[&[0, 0, -1, 0, -1, -3], &[3, 4, 3, 4, -3, 1], &[2, -3, 0, 2, -4, -3], &[-1, -4, 4, 1, -4, -3]], &[-1, 1, 3, -4, 0, -4], &[0, 0, 0, 0]),
    (3, &[&[-2, 4, 2, 1, 4, -4], &[-3, 1, -2, -3, 4, 1], &[-3, 2, 1, 4, -4, -1], &[-2, -3, 2, 1, -3, 0]], &[2, 4, 3, -3, 1, 4], &[0, 0, 0, 0]),
    (3, &[&[2, -2, 2, 2, -2, 2, -1], &[1, 2, -1, 3, -1, 0, -3], &[3, 1, 3, -1, -1, -2, 2], &[-1, -2, 0, 0, 0, -1, 1]], &[1, -3, 1, 0, 2, 0, 1], &[0, 0, 0, 0]),
    (3, &[&[-1, 3, 2, 3, 1, 3, 1], &[1, 3, 0, 1, -3, 2, 0], &[0, 2, -3, -3, -3, -2, -1], &[-3, 2, 2, -3, -1, -3, -2]], &[2, -1, -1, 1, 2, -1, 0], &[1, 0, 0, 0]),
    (3, &[&[1, 4, -4, 4, 0, -1, -3], &[-3, -4, -2, 1, 4, -3, -3], &[3, -4, 2, 1, -4, -4, 1], &[4, -2, -1, -3, -1, 4, -3]], &[2, 4, 2, -4, 2, 3, -2], &[0, 0, 0, 0]),
    (3, &[&[-1, 0, 2, -2, -1, 2, 1], &[-2, -3, 1, 1, 3, 2, -2], &[3, 1, 3, 3, -1, -1, -3], &[-1, 1, 3, 2, -2, -3, 3]], &[1, -2, 0, -3, 1, -3, 0], &[0, 0, 0, 0]),
    (3, &[&[-3, 2, 0, 0, 2, 0, -4], &[4, 3, 0, 1, 4, -2, 0], &[4, -2, 0, 0, -1, 2, -2], &[-3, -1, -4, 3, -1, 0, -2]], &[-2, 2, 4, 4, -3, -4, 3], &[1, 0, 0, 0]),
    (3, &[&[0, 3, 3, 0, -3, -1, -3], &[2, 0, -1, 1, -1, 3, -3], &[-1, -1, 0, -1, -3, 1, 1], &[0, -3, 1, 1, 0, -3, -2]], &[1, 1, 1, 0, 1, -3, 1], &[0, 0, 0, 0]),
    (3, &[&[-1, 2, -1, 1, 0, -1, 1], &[-2, 0, -1, -2, 0, 1, 2], &[-2, 2, -1, -1, 2, -2, -2], &[-2, 1, -1, 2, -1, 1, -1]], &[2, -2, 1, -2, 2, 0, -1], &[0, 0, 0, 0]),
    (3, &[&[-1, -3, 3, -2, -3, -2, -2], &[-4, 4, 4, -4, 0, -2, 1], &[2, 0, 3, -4, -2, 1, -2], &[-1, -3, -2, 0, 1, 0, 1]], &[1, -2, -4, 0, 3, 2, 1], &[0, 0, 0, 0]),
    (5, &[&[1, 3, -2, 1, 2, 1, -1], &[0, 0, 2, -1, -3, 2, -2], &[-1, -2, -1, 2, 1, 1, -3], &[3, 1, -1, 0, 3, -1, -1]], &[2, -1, 3, -2, 0, -2, 1], &[1, 0, 0, 0]),
    (5, &[&[-2, 1, -4, 0, 0, 3, 1], &[-1, 3, 0, 0, -4, -3, -4], &[2, -1, 2, 0, 2, -2, 2], &[-4, -2, 2, 3, 1, -3, 4]], &[-3, -3, -3, -3, -3, -1, 1], &[1, 0, 0, 0]),
];
