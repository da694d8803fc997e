#[test]
fn f10_macro_small() {
    // the declared key type is u8
    let m = frozen_collections::frozen_map!(u8, 1: "a", 2: "b");
    assert_eq!(std::mem::size_of_val(m.keys().next().unwrap()), 1);
}
