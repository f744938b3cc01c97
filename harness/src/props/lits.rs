// Generated by tools/mklits.py. Do not edit.
use la::Matrix;
pub const SHAPES: &[(usize, usize)] = &[(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 9), (1, 10), (1, 11), (1, 12), (1, 13), (1, 14), (1, 15), (1, 16), (1, 17), (1, 18), (1, 19), (1, 20), (1, 21), (1, 22), (1, 23), (1, 24), (1, 255), (1, 256), (1, 300), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 12), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (3, 11), (3, 86), (4, 1), (4, 2), (4, 3), (4, 4), (4, 5), (4, 6), (4, 7), (4, 8), (5, 1), (5, 2), (5, 3), (5, 4), (5, 5), (5, 6), (5, 7), (5, 8), (5, 13), (6, 1), (6, 2), (6, 3), (6, 4), (6, 5), (6, 6), (6, 7), (6, 8), (7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (7, 6), (7, 7), (7, 8), (8, 1), (8, 2), (8, 3), (8, 4), (8, 5), (8, 6), (8, 7), (8, 8), (9, 1), (10, 1), (10, 10), (11, 1), (11, 3), (12, 1), (12, 2), (13, 1), (13, 5), (14, 1), (15, 1), (16, 1), (16, 16), (17, 1), (18, 1), (19, 1), (20, 1), (21, 1), (22, 1), (23, 1), (24, 1), (86, 3), (255, 1), (256, 1), (300, 1)];
pub const RAGGED: &[&[usize]] = &[&[1, 2], &[1, 3], &[1, 4], &[2, 1], &[2, 3], &[2, 4], &[3, 1], &[3, 2], &[3, 4], &[4, 1], &[4, 2], &[4, 3], &[1, 1, 2], &[1, 1, 3], &[1, 1, 4], &[1, 2, 1], &[1, 2, 2], &[1, 2, 3], &[1, 2, 4], &[1, 3, 1], &[1, 3, 2], &[1, 3, 3], &[1, 3, 4], &[1, 4, 1], &[1, 4, 2], &[1, 4, 3], &[1, 4, 4], &[2, 1, 1], &[2, 1, 2], &[2, 1, 3], &[2, 1, 4], &[2, 2, 1], &[2, 2, 3], &[2, 2, 4], &[2, 3, 1], &[2, 3, 2], &[2, 3, 3], &[2, 3, 4], &[2, 4, 1], &[2, 4, 2], &[2, 4, 3], &[2, 4, 4], &[3, 1, 1], &[3, 1, 2], &[3, 1, 3], &[3, 1, 4], &[3, 2, 1], &[3, 2, 2], &[3, 2, 3], &[3, 2, 4], &[3, 3, 1], &[3, 3, 2], &[3, 3, 4], &[3, 4, 1], &[3, 4, 2], &[3, 4, 3], &[3, 4, 4], &[4, 1, 1], &[4, 1, 2], &[4, 1, 3], &[4, 1, 4], &[4, 2, 1], &[4, 2, 2], &[4, 2, 3], &[4, 2, 4], &[4, 3, 1], &[4, 3, 2], &[4, 3, 3], &[4, 3, 4], &[4, 4, 1], &[4, 4, 2], &[4, 4, 3], &[1, 1, 1, 2], &[1, 1, 1, 3], &[1, 1, 2, 1], &[1, 1, 2, 2], &[1, 1, 2, 3], &[1, 1, 3, 1], &[1, 1, 3, 2], &[1, 1, 3, 3], &[1, 2, 1, 1], &[1, 2, 1, 2], &[1, 2, 1, 3], &[1, 2, 2, 1], &[1, 2, 2, 2], &[1, 2, 2, 3], &[1, 2, 3, 1], &[1, 2, 3, 2], &[1, 2, 3, 3], &[1, 3, 1, 1], &[1, 3, 1, 2], &[1, 3, 1, 3], &[1, 3, 2, 1], &[1, 3, 2, 2], &[1, 3, 2, 3], &[1, 3, 3, 1], &[1, 3, 3, 2], &[1, 3, 3, 3], &[2, 1, 1, 1], &[2, 1, 1, 2], &[2, 1, 1, 3], &[2, 1, 2, 1], &[2, 1, 2, 2], &[2, 1, 2, 3], &[2, 1, 3, 1], &[2, 1, 3, 2], &[2, 1, 3, 3], &[2, 2, 1, 1], &[2, 2, 1, 2], &[2, 2, 1, 3], &[2, 2, 2, 1], &[2, 2, 2, 3], &[2, 2, 3, 1], &[2, 2, 3, 2], &[2, 2, 3, 3], &[2, 3, 1, 1], &[2, 3, 1, 2], &[2, 3, 1, 3], &[2, 3, 2, 1], &[2, 3, 2, 2], &[2, 3, 2, 3], &[2, 3, 3, 1], &[2, 3, 3, 2], &[2, 3, 3, 3], &[3, 1, 1, 1], &[3, 1, 1, 2], &[3, 1, 1, 3], &[3, 1, 2, 1], &[3, 1, 2, 2], &[3, 1, 2, 3], &[3, 1, 3, 1], &[3, 1, 3, 2], &[3, 1, 3, 3], &[3, 2, 1, 1], &[3, 2, 1, 2], &[3, 2, 1, 3], &[3, 2, 2, 1], &[3, 2, 2, 2], &[3, 2, 2, 3], &[3, 2, 3, 1], &[3, 2, 3, 2], &[3, 2, 3, 3], &[3, 3, 1, 1], &[3, 3, 1, 2], &[3, 3, 1, 3], &[3, 3, 2, 1], &[3, 3, 2, 2], &[3, 3, 2, 3], &[3, 3, 3, 1], &[3, 3, 3, 2], &[5, 7], &[7, 5], &[1, 9], &[9, 1], &[6, 4, 5], &[4, 5, 6], &[5, 5, 5, 5, 4], &[5, 5, 5, 5, 6], &[2, 2, 2, 2, 2, 3, 1], &[1, 3, 2, 2, 2, 2, 2], &[8, 8, 8, 8, 8, 8, 8, 7], &[8, 8, 8, 8, 8, 8, 8, 9], &[7, 8, 8, 8, 8, 8, 8, 8], &[9, 7, 8, 8, 8, 8, 8, 8], &[1, 1, 1, 1, 1, 2, 1, 1, 1, 1], &[2, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[2, 2, 2, 2, 1], &[2, 2, 2, 2, 2, 1], &[2, 2, 2, 2, 3], &[2, 2, 2, 2, 2, 3], &[2, 2, 2, 2, 4], &[2, 2, 2, 2, 2, 4], &[2, 2, 2, 2, 6], &[2, 2, 2, 2, 2, 6], &[2, 2, 2, 2, 7], &[2, 2, 2, 2, 2, 7], &[3, 3, 3, 3, 1], &[3, 3, 3, 3, 3, 1], &[3, 3, 3, 3, 2], &[3, 3, 3, 3, 3, 2], &[3, 3, 3, 3, 4], &[3, 3, 3, 3, 3, 4], &[3, 3, 3, 3, 6], &[3, 3, 3, 3, 3, 6], &[3, 3, 3, 3, 7], &[3, 3, 3, 3, 3, 7], &[5, 5, 5, 5, 1], &[5, 5, 5, 5, 5, 1], &[5, 5, 5, 5, 2], &[5, 5, 5, 5, 5, 2], &[5, 5, 5, 5, 3], &[5, 5, 5, 5, 5, 3], &[5, 5, 5, 5, 5, 4], &[5, 5, 5, 5, 5, 6], &[5, 5, 5, 5, 7], &[5, 5, 5, 5, 5, 7], &[1, 2, 2, 2, 2], &[1, 2, 2, 2, 2, 2], &[3, 2, 2, 2, 2], &[3, 2, 2, 2, 2, 2], &[4, 2, 2, 2, 2], &[4, 2, 2, 2, 2, 2], &[6, 2, 2, 2, 2], &[6, 2, 2, 2, 2, 2], &[7, 2, 2, 2, 2], &[7, 2, 2, 2, 2, 2], &[1, 3, 3, 3, 3], &[1, 3, 3, 3, 3, 3], &[2, 3, 3, 3, 3], &[2, 3, 3, 3, 3, 3], &[4, 3, 3, 3, 3], &[4, 3, 3, 3, 3, 3], &[6, 3, 3, 3, 3], &[6, 3, 3, 3, 3, 3], &[7, 3, 3, 3, 3], &[7, 3, 3, 3, 3, 3], &[1, 5, 5, 5, 5], &[1, 5, 5, 5, 5, 5], &[2, 5, 5, 5, 5], &[2, 5, 5, 5, 5, 5], &[3, 5, 5, 5, 5], &[3, 5, 5, 5, 5, 5], &[4, 5, 5, 5, 5], &[4, 5, 5, 5, 5, 5], &[6, 5, 5, 5, 5], &[6, 5, 5, 5, 5, 5], &[7, 5, 5, 5, 5], &[7, 5, 5, 5, 5, 5], &[20, 20, 20, 20, 20, 20, 20, 20, 20, 19], &[16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 17], &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2], &[2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[300, 299], &[256, 512], &[1, 257], &[2, 258]];
/// The literal of shape number `k`, every element written as `f()`.
pub fn rect<T: Copy, F: FnMut() -> T>(k: usize, mut f: F) -> Matrix<T> {
    match k {
        0 => m!(f()),
        1 => m!(f(), f()),
        2 => m!(f(), f(), f()),
        3 => m!(f(), f(), f(), f()),
        4 => m!(f(), f(), f(), f(), f()),
        5 => m!(f(), f(), f(), f(), f(), f()),
        6 => m!(f(), f(), f(), f(), f(), f(), f()),
        7 => m!(f(), f(), f(), f(), f(), f(), f(), f()),
        8 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f()),
        9 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        10 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        11 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        12 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        13 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        14 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        15 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        16 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        17 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        18 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        19 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        20 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        21 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        22 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        23 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        24 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        25 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        26 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        27 => m!(f(); f()),
        28 => m!(f(), f(); f(), f()),
        29 => m!(f(), f(), f(); f(), f(), f()),
        30 => m!(f(), f(), f(), f(); f(), f(), f(), f()),
        31 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        32 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        33 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        34 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        35 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        36 => m!(f(); f(); f()),
        37 => m!(f(), f(); f(), f(); f(), f()),
        38 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f()),
        39 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        40 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        41 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        42 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        43 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        44 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        45 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        46 => m!(f(); f(); f(); f()),
        47 => m!(f(), f(); f(), f(); f(), f(); f(), f()),
        48 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        49 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        50 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        51 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        52 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        53 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        54 => m!(f(); f(); f(); f(); f()),
        55 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        56 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        57 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        58 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        59 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        60 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        61 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        62 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        63 => m!(f(); f(); f(); f(); f(); f()),
        64 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        65 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        66 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        67 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        68 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        69 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        70 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        71 => m!(f(); f(); f(); f(); f(); f(); f()),
        72 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        73 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        74 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        75 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        76 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        77 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        78 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        79 => m!(f(); f(); f(); f(); f(); f(); f(); f()),
        80 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        81 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        82 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        83 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        84 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        85 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        86 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        87 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f()),
        88 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        89 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        90 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        91 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        92 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        93 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        94 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        95 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        96 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        97 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        98 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        99 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        100 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        101 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        102 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        103 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        104 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        105 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        106 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        107 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        108 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        109 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        110 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        111 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        _ => unreachable!(),
    }
}
pub fn ragged(k: usize) -> Matrix<u32> {
    let mut n = 0u32;
    let mut f = || { n += 1; n };
    match k {
        0 => m!(f(); f(), f()),
        1 => m!(f(); f(), f(), f()),
        2 => m!(f(); f(), f(), f(), f()),
        3 => m!(f(), f(); f()),
        4 => m!(f(), f(); f(), f(), f()),
        5 => m!(f(), f(); f(), f(), f(), f()),
        6 => m!(f(), f(), f(); f()),
        7 => m!(f(), f(), f(); f(), f()),
        8 => m!(f(), f(), f(); f(), f(), f(), f()),
        9 => m!(f(), f(), f(), f(); f()),
        10 => m!(f(), f(), f(), f(); f(), f()),
        11 => m!(f(), f(), f(), f(); f(), f(), f()),
        12 => m!(f(); f(); f(), f()),
        13 => m!(f(); f(); f(), f(), f()),
        14 => m!(f(); f(); f(), f(), f(), f()),
        15 => m!(f(); f(), f(); f()),
        16 => m!(f(); f(), f(); f(), f()),
        17 => m!(f(); f(), f(); f(), f(), f()),
        18 => m!(f(); f(), f(); f(), f(), f(), f()),
        19 => m!(f(); f(), f(), f(); f()),
        20 => m!(f(); f(), f(), f(); f(), f()),
        21 => m!(f(); f(), f(), f(); f(), f(), f()),
        22 => m!(f(); f(), f(), f(); f(), f(), f(), f()),
        23 => m!(f(); f(), f(), f(), f(); f()),
        24 => m!(f(); f(), f(), f(), f(); f(), f()),
        25 => m!(f(); f(), f(), f(), f(); f(), f(), f()),
        26 => m!(f(); f(), f(), f(), f(); f(), f(), f(), f()),
        27 => m!(f(), f(); f(); f()),
        28 => m!(f(), f(); f(); f(), f()),
        29 => m!(f(), f(); f(); f(), f(), f()),
        30 => m!(f(), f(); f(); f(), f(), f(), f()),
        31 => m!(f(), f(); f(), f(); f()),
        32 => m!(f(), f(); f(), f(); f(), f(), f()),
        33 => m!(f(), f(); f(), f(); f(), f(), f(), f()),
        34 => m!(f(), f(); f(), f(), f(); f()),
        35 => m!(f(), f(); f(), f(), f(); f(), f()),
        36 => m!(f(), f(); f(), f(), f(); f(), f(), f()),
        37 => m!(f(), f(); f(), f(), f(); f(), f(), f(), f()),
        38 => m!(f(), f(); f(), f(), f(), f(); f()),
        39 => m!(f(), f(); f(), f(), f(), f(); f(), f()),
        40 => m!(f(), f(); f(), f(), f(), f(); f(), f(), f()),
        41 => m!(f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        42 => m!(f(), f(), f(); f(); f()),
        43 => m!(f(), f(), f(); f(); f(), f()),
        44 => m!(f(), f(), f(); f(); f(), f(), f()),
        45 => m!(f(), f(), f(); f(); f(), f(), f(), f()),
        46 => m!(f(), f(), f(); f(), f(); f()),
        47 => m!(f(), f(), f(); f(), f(); f(), f()),
        48 => m!(f(), f(), f(); f(), f(); f(), f(), f()),
        49 => m!(f(), f(), f(); f(), f(); f(), f(), f(), f()),
        50 => m!(f(), f(), f(); f(), f(), f(); f()),
        51 => m!(f(), f(), f(); f(), f(), f(); f(), f()),
        52 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(), f()),
        53 => m!(f(), f(), f(); f(), f(), f(), f(); f()),
        54 => m!(f(), f(), f(); f(), f(), f(), f(); f(), f()),
        55 => m!(f(), f(), f(); f(), f(), f(), f(); f(), f(), f()),
        56 => m!(f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f()),
        57 => m!(f(), f(), f(), f(); f(); f()),
        58 => m!(f(), f(), f(), f(); f(); f(), f()),
        59 => m!(f(), f(), f(), f(); f(); f(), f(), f()),
        60 => m!(f(), f(), f(), f(); f(); f(), f(), f(), f()),
        61 => m!(f(), f(), f(), f(); f(), f(); f()),
        62 => m!(f(), f(), f(), f(); f(), f(); f(), f()),
        63 => m!(f(), f(), f(), f(); f(), f(); f(), f(), f()),
        64 => m!(f(), f(), f(), f(); f(), f(); f(), f(), f(), f()),
        65 => m!(f(), f(), f(), f(); f(), f(), f(); f()),
        66 => m!(f(), f(), f(), f(); f(), f(), f(); f(), f()),
        67 => m!(f(), f(), f(), f(); f(), f(), f(); f(), f(), f()),
        68 => m!(f(), f(), f(), f(); f(), f(), f(); f(), f(), f(), f()),
        69 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f()),
        70 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f()),
        71 => m!(f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f()),
        72 => m!(f(); f(); f(); f(), f()),
        73 => m!(f(); f(); f(); f(), f(), f()),
        74 => m!(f(); f(); f(), f(); f()),
        75 => m!(f(); f(); f(), f(); f(), f()),
        76 => m!(f(); f(); f(), f(); f(), f(), f()),
        77 => m!(f(); f(); f(), f(), f(); f()),
        78 => m!(f(); f(); f(), f(), f(); f(), f()),
        79 => m!(f(); f(); f(), f(), f(); f(), f(), f()),
        80 => m!(f(); f(), f(); f(); f()),
        81 => m!(f(); f(), f(); f(); f(), f()),
        82 => m!(f(); f(), f(); f(); f(), f(), f()),
        83 => m!(f(); f(), f(); f(), f(); f()),
        84 => m!(f(); f(), f(); f(), f(); f(), f()),
        85 => m!(f(); f(), f(); f(), f(); f(), f(), f()),
        86 => m!(f(); f(), f(); f(), f(), f(); f()),
        87 => m!(f(); f(), f(); f(), f(), f(); f(), f()),
        88 => m!(f(); f(), f(); f(), f(), f(); f(), f(), f()),
        89 => m!(f(); f(), f(), f(); f(); f()),
        90 => m!(f(); f(), f(), f(); f(); f(), f()),
        91 => m!(f(); f(), f(), f(); f(); f(), f(), f()),
        92 => m!(f(); f(), f(), f(); f(), f(); f()),
        93 => m!(f(); f(), f(), f(); f(), f(); f(), f()),
        94 => m!(f(); f(), f(), f(); f(), f(); f(), f(), f()),
        95 => m!(f(); f(), f(), f(); f(), f(), f(); f()),
        96 => m!(f(); f(), f(), f(); f(), f(), f(); f(), f()),
        97 => m!(f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        98 => m!(f(), f(); f(); f(); f()),
        99 => m!(f(), f(); f(); f(); f(), f()),
        100 => m!(f(), f(); f(); f(); f(), f(), f()),
        101 => m!(f(), f(); f(); f(), f(); f()),
        102 => m!(f(), f(); f(); f(), f(); f(), f()),
        103 => m!(f(), f(); f(); f(), f(); f(), f(), f()),
        104 => m!(f(), f(); f(); f(), f(), f(); f()),
        105 => m!(f(), f(); f(); f(), f(), f(); f(), f()),
        106 => m!(f(), f(); f(); f(), f(), f(); f(), f(), f()),
        107 => m!(f(), f(); f(), f(); f(); f()),
        108 => m!(f(), f(); f(), f(); f(); f(), f()),
        109 => m!(f(), f(); f(), f(); f(); f(), f(), f()),
        110 => m!(f(), f(); f(), f(); f(), f(); f()),
        111 => m!(f(), f(); f(), f(); f(), f(); f(), f(), f()),
        112 => m!(f(), f(); f(), f(); f(), f(), f(); f()),
        113 => m!(f(), f(); f(), f(); f(), f(), f(); f(), f()),
        114 => m!(f(), f(); f(), f(); f(), f(), f(); f(), f(), f()),
        115 => m!(f(), f(); f(), f(), f(); f(); f()),
        116 => m!(f(), f(); f(), f(), f(); f(); f(), f()),
        117 => m!(f(), f(); f(), f(), f(); f(); f(), f(), f()),
        118 => m!(f(), f(); f(), f(), f(); f(), f(); f()),
        119 => m!(f(), f(); f(), f(), f(); f(), f(); f(), f()),
        120 => m!(f(), f(); f(), f(), f(); f(), f(); f(), f(), f()),
        121 => m!(f(), f(); f(), f(), f(); f(), f(), f(); f()),
        122 => m!(f(), f(); f(), f(), f(); f(), f(), f(); f(), f()),
        123 => m!(f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        124 => m!(f(), f(), f(); f(); f(); f()),
        125 => m!(f(), f(), f(); f(); f(); f(), f()),
        126 => m!(f(), f(), f(); f(); f(); f(), f(), f()),
        127 => m!(f(), f(), f(); f(); f(), f(); f()),
        128 => m!(f(), f(), f(); f(); f(), f(); f(), f()),
        129 => m!(f(), f(), f(); f(); f(), f(); f(), f(), f()),
        130 => m!(f(), f(), f(); f(); f(), f(), f(); f()),
        131 => m!(f(), f(), f(); f(); f(), f(), f(); f(), f()),
        132 => m!(f(), f(), f(); f(); f(), f(), f(); f(), f(), f()),
        133 => m!(f(), f(), f(); f(), f(); f(); f()),
        134 => m!(f(), f(), f(); f(), f(); f(); f(), f()),
        135 => m!(f(), f(), f(); f(), f(); f(); f(), f(), f()),
        136 => m!(f(), f(), f(); f(), f(); f(), f(); f()),
        137 => m!(f(), f(), f(); f(), f(); f(), f(); f(), f()),
        138 => m!(f(), f(), f(); f(), f(); f(), f(); f(), f(), f()),
        139 => m!(f(), f(), f(); f(), f(); f(), f(), f(); f()),
        140 => m!(f(), f(), f(); f(), f(); f(), f(), f(); f(), f()),
        141 => m!(f(), f(), f(); f(), f(); f(), f(), f(); f(), f(), f()),
        142 => m!(f(), f(), f(); f(), f(), f(); f(); f()),
        143 => m!(f(), f(), f(); f(), f(), f(); f(); f(), f()),
        144 => m!(f(), f(), f(); f(), f(), f(); f(); f(), f(), f()),
        145 => m!(f(), f(), f(); f(), f(), f(); f(), f(); f()),
        146 => m!(f(), f(), f(); f(), f(), f(); f(), f(); f(), f()),
        147 => m!(f(), f(), f(); f(), f(), f(); f(), f(); f(), f(), f()),
        148 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f()),
        149 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f()),
        150 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        151 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        152 => m!(f(); f(), f(), f(), f(), f(), f(), f(), f(), f()),
        153 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(); f()),
        154 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(); f(), f(), f(), f(), f()),
        155 => m!(f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        156 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f()),
        157 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        158 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f(); f()),
        159 => m!(f(); f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        160 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        161 => m!(f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f()),
        162 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        163 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f()),
        164 => m!(f(); f(); f(); f(); f(); f(), f(); f(); f(); f(); f()),
        165 => m!(f(), f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        166 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f()),
        167 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f()),
        168 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f()),
        169 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f()),
        170 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f(), f()),
        171 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f(), f()),
        172 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f(), f(), f(), f()),
        173 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f(), f(), f(), f()),
        174 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f(), f(), f(), f(), f()),
        175 => m!(f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f(), f(), f(), f(), f(), f()),
        176 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f()),
        177 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f()),
        178 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f()),
        179 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f()),
        180 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(), f()),
        181 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(), f()),
        182 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(), f(), f(), f()),
        183 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(), f(), f(), f()),
        184 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        185 => m!(f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        186 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f()),
        187 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f()),
        188 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f()),
        189 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f()),
        190 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f()),
        191 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f()),
        192 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f()),
        193 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f()),
        194 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        195 => m!(f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f()),
        196 => m!(f(); f(), f(); f(), f(); f(), f(); f(), f()),
        197 => m!(f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        198 => m!(f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        199 => m!(f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        200 => m!(f(), f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        201 => m!(f(), f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        202 => m!(f(), f(), f(), f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        203 => m!(f(), f(), f(), f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        204 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        205 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(); f(), f(); f(), f(); f(), f(); f(), f()),
        206 => m!(f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        207 => m!(f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        208 => m!(f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        209 => m!(f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        210 => m!(f(), f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        211 => m!(f(), f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        212 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        213 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        214 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        215 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f(); f(), f(), f()),
        216 => m!(f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        217 => m!(f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        218 => m!(f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        219 => m!(f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        220 => m!(f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        221 => m!(f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        222 => m!(f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        223 => m!(f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        224 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        225 => m!(f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        226 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        227 => m!(f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f(); f(), f(), f(), f(), f()),
        228 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        229 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        230 => m!(f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(), f()),
        231 => m!(f(), f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f(); f()),
        232 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        233 => m!(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        234 => m!(f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        235 => m!(f(), f(); f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
        _ => unreachable!(),
    }
}
