macro_rules! props {
    ($($c:literal $m:ident),* $(,)?) => {
        $(#[cfg(prop = $c)] mod $m;)*
        pub const TABLES: &[&[(&str, extern "C" fn())]] = &[$(#[cfg(prop = $c)] $m::TABLE,)*];
    };
}
props! { "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09,
    "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27,
    "c28" c28, "c29" c29, "c30" c30, "c31" c31, "c32" c32, "c33" c33, "c34" c34, "c35" c35, }
