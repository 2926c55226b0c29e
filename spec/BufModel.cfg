SPECIFICATION Spec
CONSTANTS
  Inits = {0, 1, 2, 3}
  Types = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bytes", "u16v", "rev", "ss", "cs", "ep"}
  Steps = 2
  Show = FALSE
  Every = 1
INVARIANTS Fifo RoundTrip Encoded Bounds Taken
CHECK_DEADLOCK FALSE
