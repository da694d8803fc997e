use frozen_collections_core::facades::*;
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::*;
use frozen_collections_core::traits::slice_hash::SliceHash;
use std::hash::RandomState;
use std::panic::catch_unwind;

#[test]
fn f1_set_iter_count() {
    let s: ScanningSet<i32> = [1, 2, 3].into();
    let mut i = s.iter();
    i.next();
    assert_eq!(i.count(), 2);
}

fn svec(v: &[&str]) -> Vec<(String, usize)> {
    v.iter().enumerate().map(|(i, s)| (s.to_string(), i)).collect()
}

#[test]
fn f2_right_slice_map() {
    let v = svec(&["alpha", "beta", "gamma", "deltaepsilon"]);
    let m: RightSliceMap<String, usize, u8> = RightSliceMap::from_vec(v.clone(), 0..2);
    for (k, x) in &v {
        assert_eq!(m.get(k), Some(x));
    }
}

#[test]
fn f2_right_analysis() {
    // many keys with equal prefixes, uniqueness only in two-byte suffixes of keys of different lengths
    let mut keys = vec![];
    for a in 0..30u8 {
        for b in 0..30u8 {
            let pre = "x".repeat(1 + (a as usize * 7 + b as usize) % 23);
            keys.push(format!("{}{}{}", pre, (b'A' + a) as char, (b'A' + b) as char));
        }
    }
    let m: FrozenMap<String, usize> = keys.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
    for (i, k) in keys.iter().enumerate() {
        assert_eq!(m.get(k), Some(&i));
    }
}

#[test]
fn f3_left_slice_map_short_key() {
    let v = svec(&["a", "beta", "gamma"]);
    let m: LeftSliceMap<String, usize, u8> = LeftSliceMap::from_vec(v.clone(), 1..3);
    for (k, x) in &v {
        assert_eq!(m.get(k), Some(x));
    }
}

#[test]
fn f4_slice_hash_out_of_range() {
    let s = String::from("ab");
    assert!(catch_unwind(|| SliceHash::hash(&s, &RandomState::new(), 1..20)).is_err());
    let b: &[u8] = b"ab";
    assert!(catch_unwind(|| SliceHash::hash(b, &RandomState::new(), 1..20)).is_err());
}

#[test]
fn f5_range_with_duplicate() {
    let m: FrozenMap<u32, u32> = [(1, 10), (1, 11), (3, 30), (4, 40)].into();
    assert_eq!(m.get(&2), None);
    assert!(catch_unwind(|| IntegerRangeMap::<u32, u32>::from_vec(vec![(1, 1), (1, 1), (3, 3)])).is_err());
}

#[test]
fn f7_union_size_hint() {
    let a: ScanningSet<i32> = [1, 2, 3].into();
    let b: ScanningSet<i32> = [3].into();
    let mut u = a.union(&b);
    loop {
        let (lo, hi) = u.size_hint();
        let n = u.clone().count();
        assert!(lo <= n && n <= hi.unwrap());
        if u.next().is_none() {
            break;
        }
    }
}

#[derive(Hash, Debug, Clone, Copy)]
struct Flip(u32);
static FLIP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl PartialEq for Flip {
    fn eq(&self, _: &Self) -> bool {
        // unequal while the queries are compared, equal afterwards
        FLIP.fetch_add(1, std::sync::atomic::Ordering::Relaxed) != 0
    }
}
impl Eq for Flip {}

#[test]
fn f8_get_many_mut_aliases() {
    let mut m: ScanningMap<Flip, u32> = ScanningMap::from_vec(vec![(Flip(1), 1), (Flip(2), 2)]);
    FLIP.store(0, std::sync::atomic::Ordering::Relaxed);
    if let Some([a, b]) = m.get_many_mut([&Flip(1), &Flip(2)]) {
        assert!(!std::ptr::eq(a, b));
    }
}

#[test]
fn f8_get_many_mut_write() {
    // fails under miri only: a mutable reference made from a shared one
    let mut m: FrozenMap<u32, u32> = [(1, 10), (2, 11), (3, 30), (9, 40)].into();
    let [a, b] = m.get_many_mut([&1, &9]).unwrap();
    std::mem::swap(a, b);
    assert_eq!(m[1], 40);
}

#[test]
fn f9_type_name() {
    use alloc::string::String as S;
    let m: FrozenMap<S, u32> = (0..8).map(|i| (S([i, 1, 2]), i as u32)).collect();
    assert_eq!(m.get(&S([3, 1, 2])), Some(&3));
}

#[test]
fn f11_empty_range_map() {
    let m: IntegerRangeMap<u32, u32> = IntegerRangeMap::from_vec(vec![]);
    assert_eq!(m.get(&0), None);
}
