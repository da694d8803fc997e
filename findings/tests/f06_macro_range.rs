#[test]
fn f6_macro_range() {
    let m = frozen_collections::frozen_map!(u32, 1: "a", 2: "b", 3: "c", 4: "d");
    assert_eq!(m.get(&3), Some(&"c"));
}

