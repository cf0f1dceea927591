// integer entry points: (unary name, binary names) per type; arguments and result by reference
macro_rules! int_types { ($cb:ident) => { $cb! {
    u8 f_u8 f2_u8 fk_u8 comb_u8 combrep_u8 perm_u8 stirling_u8,
    u16 f_u16 f2_u16 fk_u16 comb_u16 combrep_u16 perm_u16 stirling_u16,
    u32 f_u32 f2_u32 fk_u32 comb_u32 combrep_u32 perm_u32 stirling_u32,
    u64 f_u64 f2_u64 fk_u64 comb_u64 combrep_u64 perm_u64 stirling_u64,
    u128 f_u128 f2_u128 fk_u128 comb_u128 combrep_u128 perm_u128 stirling_u128,
    usize f_usize f2_usize fk_usize comb_usize combrep_usize perm_usize stirling_usize,
    i8 f_i8 f2_i8 fk_i8 comb_i8 combrep_i8 perm_i8 stirling_i8,
    i16 f_i16 f2_i16 fk_i16 comb_i16 combrep_i16 perm_i16 stirling_i16,
    i32 f_i32 f2_i32 fk_i32 comb_i32 combrep_i32 perm_i32 stirling_i32,
    i64 f_i64 f2_i64 fk_i64 comb_i64 combrep_i64 perm_i64 stirling_i64,
    i128 f_i128 f2_i128 fk_i128 comb_i128 combrep_i128 perm_i128 stirling_i128,
    isize f_isize f2_isize fk_isize comb_isize combrep_isize perm_isize stirling_isize
} } }
