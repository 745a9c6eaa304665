//! The model of f64 in contracts/std.unit (stub::F64) against f64 itself, for every bit pattern: complete, no loops.
fn nan(b: u64) -> bool { (b & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000 }
fn rank(b: u64) -> i128 {
    if b < 0x8000_0000_0000_0000 { b as i128 } else { 0x8000_0000_0000_0000i128 - b as i128 }
}
#[cfg(kani)]
#[kani::proof]
fn order() {
    let (a, b): (u64, u64) = (kani::any(), kani::any());
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    assert!(x.is_nan() == nan(a));
    assert!((x == y) == (!nan(a) && !nan(b) && rank(a) == rank(b)));
    let want = if nan(a) || nan(b) { None } else { Some(rank(a).cmp(&rank(b))) };
    assert!(x.partial_cmp(&y) == want);
    assert!((x < y) == (want == Some(std::cmp::Ordering::Less)));
    assert!((x <= y) == matches!(want, Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal)));
    assert!((x > y) == (want == Some(std::cmp::Ordering::Greater)));
    assert!((x >= y) == matches!(want, Some(std::cmp::Ordering::Greater | std::cmp::Ordering::Equal)));
}
#[cfg(kani)]
#[kani::proof]
fn next_up() {
    let a: u64 = kani::any();
    let x = f64::from_bits(a);
    let inf = rank(f64::INFINITY.to_bits());
    assert!(f64::INFINITY.to_bits() == 0x7ff0_0000_0000_0000);
    if !nan(a) && rank(a) < inf {
        let u = x.next_up().to_bits();
        assert!(!nan(u) && rank(u) == rank(a) + 1);
    }
}
