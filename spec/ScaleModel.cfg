SPECIFICATION Spec
CONSTANTS
  Types = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"}
  Factors = {1, 10, 256, 65535}
  Bases = {1, 1000, 65535}
  Offs = {0, 1, 32767, 32768}
  Precs = {0, 1, 3}
  Show = FALSE
  Every = 1
INVARIANTS Inverts Monotone Plain Tolerance
CHECK_DEADLOCK FALSE
