// one module per property, behind the feature of the same name
macro_rules! props {
    ($($p:ident $f:literal),* $(,)?) => {
        $(
            #[cfg(feature = $f)]
            mod $p;
        )*
        #[allow(dead_code)]
        pub const TABLE: &[&[(&str, extern "C" fn())]] = &[
            $(
                #[cfg(feature = $f)]
                $p::TABLE,
            )*
        ];
    };
}
props! {
    p01 "p01",
    p02 "p02",
    p03 "p03",
    p04 "p04",
    p05 "p05",
    p06 "p06",
    p07 "p07",
    p08 "p08",
    p09 "p09",
    p10 "p10",
    p11 "p11",
    p12 "p12",
    p13 "p13",
    p14 "p14",
    p15 "p15",
    p16 "p16",
    p17 "p17",
    p18 "p18",
    p19 "p19",
    p20 "p20",
    p21 "p21",
    p22 "p22",
    p23 "p23",
    p24 "p24",
    p25 "p25",
    p26 "p26",
}
