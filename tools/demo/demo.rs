#[test]
fn planted_demo() {}
