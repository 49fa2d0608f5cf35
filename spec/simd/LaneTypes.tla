----------------------------- MODULE LaneTypes -----------------------------
EXTENDS Words
Size(t) == CASE t \in {"u8", "i8"} -> 1 [] t \in {"u16", "i16", "f16", "bf16"} -> 2
             [] t \in {"u32", "i32", "f32"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
IsFloatT(t) == t \in {"f16", "bf16", "f32", "f64"}
Wide(t) == CASE t = "u8" -> "u16" [] t = "i8" -> "i16" [] t = "u16" -> "u32" [] t = "i16" -> "i32"
             [] t = "u32" -> "u64" [] t = "i32" -> "i64" [] t = "f16" -> "f32" [] t = "bf16" -> "f32" [] t = "f32" -> "f64"
=============================================================================
