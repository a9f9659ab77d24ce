pub fn demo() {}
