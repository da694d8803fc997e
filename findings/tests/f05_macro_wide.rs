#[test]
fn f5_macro_wide() {
    let m = frozen_collections::frozen_map!(i8, -128: 1, 0: 2, 127: 3);
    assert_eq!(m.get(&127), Some(&3));
}
