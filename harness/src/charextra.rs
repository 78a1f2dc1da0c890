// Generated by tools/gen_charextra.py from CodeParser/Data/LongNames.wl; frozen.
/// Letters outside ASCII that are in common use.
pub const USUAL: [u32; 296] = [
    0x00b0, 0x0391, 0x0392, 0x0393, 0x0394, 0x0395, 0x0396, 0x0397, 0x0398, 0x0399,
    0x039a, 0x039b, 0x039c, 0x039d, 0x039e, 0x039f, 0x03a0, 0x03a1, 0x03a3, 0x03a4,
    0x03a5, 0x03a6, 0x03a7, 0x03a8, 0x03a9, 0x03b1, 0x03b2, 0x03b3, 0x03b4, 0x03b5,
    0x03b6, 0x03b7, 0x03b8, 0x03b9, 0x03ba, 0x03bb, 0x03bc, 0x03bd, 0x03be, 0x03bf,
    0x03c0, 0x03c1, 0x03c2, 0x03c3, 0x03c4, 0x03c5, 0x03c6, 0x03c7, 0x03c8, 0x03c9,
    0x03d1, 0x03d2, 0x03d5, 0x03d6, 0x03da, 0x03db, 0x03dc, 0x03dd, 0x03de, 0x03df,
    0x03e0, 0x03e1, 0x03f0, 0x03f1, 0x03f5, 0x2020, 0x2032, 0x2033, 0x210a, 0x210b,
    0x210c, 0x210f, 0x2110, 0x2111, 0x2112, 0x2113, 0x211b, 0x212c, 0x212f, 0x2130,
    0x2131, 0x2133, 0x2134, 0x221e, 0xf3af, 0xf6b2, 0xf6b3, 0xf6b4, 0xf6b5, 0xf6b7,
    0xf6b9, 0xf6ba, 0xf6bb, 0xf6bc, 0xf6be, 0xf6bf, 0xf6c1, 0xf6c2, 0xf6c3, 0xf6c4,
    0xf6c5, 0xf6c6, 0xf6c7, 0xf6c8, 0xf6c9, 0xf6ca, 0xf6cb, 0xf74d, 0xf74e, 0xf74f,
    0xf770, 0xf772, 0xf773, 0xf776, 0xf779, 0xf77a, 0xf77d, 0xf77e, 0xf77f, 0xf780,
    0xf782, 0xf783, 0xf784, 0xf785, 0xf786, 0xf787, 0xf788, 0xf789, 0xf800, 0xf801,
    0xf802, 0xf803, 0xf804, 0xf805, 0xf806, 0xf807, 0xf808, 0xf809, 0xf80a, 0xf80b,
    0xf80c, 0xf80d, 0xf80e, 0xf80f, 0xf810, 0xf811, 0xf812, 0xf813, 0xf814, 0xf815,
    0xf816, 0xf817, 0xf818, 0xf819, 0xf81a, 0xf81b, 0xf81c, 0xf81d, 0xf81e, 0xf81f,
    0xf820, 0xf821, 0xf822, 0xf823, 0xf824, 0xf825, 0xf826, 0xf827, 0xf828, 0xf829,
    0xf82a, 0xf82b, 0xf82c, 0xf82d, 0xf82e, 0xf82f, 0xf830, 0xf831, 0xf832, 0xf833,
    0xf834, 0xf835, 0xf836, 0xf837, 0xf838, 0xf839, 0xf83a, 0xf83b, 0xf83c, 0xf83d,
    0xf83e, 0xf83f, 0xf840, 0xf841, 0xf842, 0xf843, 0xf844, 0xf846, 0xf847, 0xf848,
    0xf849, 0xf84a, 0xf84b, 0xf84c, 0xf854, 0xf855, 0xf856, 0xf857, 0xf858, 0xf859,
    0xf85a, 0xf85b, 0xf85c, 0xf85d, 0xf85e, 0xf85f, 0xf860, 0xf861, 0xf862, 0xf863,
    0xf864, 0xf865, 0xf866, 0xf867, 0xf868, 0xf869, 0xf86a, 0xf86b, 0xf86c, 0xf874,
    0xf875, 0xf878, 0xf879, 0xf87d, 0xf87e, 0xf87f, 0xf880, 0xf881, 0xf882, 0xf883,
    0xf884, 0xf885, 0xf886, 0xf88a, 0xfa000, 0xfa001, 0xfa002, 0xfa003, 0xfa004, 0xfa005,
    0xfa006, 0xfa007, 0xfa008, 0xfa009, 0xfa00a, 0xfa00b, 0xfa00c, 0xfa00d, 0xfa00e, 0xfa00f,
    0xfa010, 0xfa011, 0xfa012, 0xfa013, 0xfa014, 0xfa015, 0xfa016, 0xfa017, 0xfa018, 0xfa019,
    0xfa01a, 0xfa01b, 0xfa01c, 0xfa01d, 0xfa01e, 0xfa01f, 0xfa020, 0xfa021, 0xfa022, 0xfa023,
    0xfa024, 0xfa025, 0xfa026, 0xfa027, 0xfa028, 0xfa029, 0xfa02a, 0xfa02b, 0xfa02c, 0xfa02d,
    0xfa02e, 0xfa02f, 0xfa030, 0xfa031, 0xfa032, 0xfa033,
];
/// What may stand for a character in ASCII.
pub const ASCII: [(u32, &[&str]); 618] = [
    (0x00a0, &[" "]),
    (0x00a2, &["c"]),
    (0x00a8, &[".."]),
    (0x00a9, &["(c)"]),
    (0x00ab, &["<<", "\""]),
    (0x00ac, &["!"]),
    (0x00ad, &["-"]),
    (0x00ae, &["(R)"]),
    (0x00b0, &["Degree"]),
    (0x00b1, &["+-"]),
    (0x00b5, &["u"]),
    (0x00b7, &["."]),
    (0x00b8, &[","]),
    (0x00bb, &[">>", "\""]),
    (0x00c0, &["A`", "A"]),
    (0x00c1, &["A'", "A"]),
    (0x00c2, &["A^", "A"]),
    (0x00c3, &["A~", "A"]),
    (0x00c4, &["A\"", "AE", "A"]),
    (0x00c5, &["Ao", "A"]),
    (0x00c6, &["AE"]),
    (0x00c7, &["C,", "C"]),
    (0x00c8, &["E`", "E"]),
    (0x00c9, &["E'", "E"]),
    (0x00ca, &["E^", "E"]),
    (0x00cb, &["E\"", "E"]),
    (0x00cc, &["I`", "I"]),
    (0x00cd, &["I'", "I"]),
    (0x00ce, &["I^", "I"]),
    (0x00cf, &["I\"", "I"]),
    (0x00d0, &["Eth"]),
    (0x00d1, &["N~", "N"]),
    (0x00d2, &["O`", "O"]),
    (0x00d3, &["O'", "O"]),
    (0x00d4, &["O^", "O"]),
    (0x00d5, &["O~", "O"]),
    (0x00d6, &["O\"", "OE", "O"]),
    (0x00d7, &["*", "x"]),
    (0x00d8, &["O/", "O"]),
    (0x00d9, &["U`", "U"]),
    (0x00da, &["U'", "U"]),
    (0x00db, &["U^", "U"]),
    (0x00dc, &["U\"", "UE", "U"]),
    (0x00dd, &["Y'", "Y"]),
    (0x00de, &["Th"]),
    (0x00df, &["sz"]),
    (0x00e0, &["a`", "a"]),
    (0x00e1, &["a'", "a"]),
    (0x00e2, &["a^", "a"]),
    (0x00e3, &["a~", "a"]),
    (0x00e4, &["a\"", "ae", "a"]),
    (0x00e5, &["ao", "a"]),
    (0x00e6, &["ae", "a"]),
    (0x00e7, &["c,", "c"]),
    (0x00e8, &["e`", "e"]),
    (0x00e9, &["e'", "e"]),
    (0x00ea, &["e^", "e"]),
    (0x00eb, &["e\"", "e"]),
    (0x00ec, &["i`", "i"]),
    (0x00ed, &["i'", "i"]),
    (0x00ee, &["i^", "i"]),
    (0x00ef, &["i\"", "i"]),
    (0x00f0, &["eth"]),
    (0x00f1, &["n~", "n"]),
    (0x00f2, &["o`", "o"]),
    (0x00f3, &["o'", "o"]),
    (0x00f4, &["o^", "o"]),
    (0x00f5, &["o~", "o"]),
    (0x00f6, &["o\"", "oe", "o"]),
    (0x00f7, &["/"]),
    (0x00f8, &["o/", "o"]),
    (0x00f9, &["u`", "u"]),
    (0x00fa, &["u'", "u"]),
    (0x00fb, &["u^", "u"]),
    (0x00fc, &["u\"", "ue", "u"]),
    (0x00fd, &["y'", "y"]),
    (0x00fe, &["th"]),
    (0x00ff, &["y\"", "y"]),
    (0x0100, &["A-", "A"]),
    (0x0101, &["a-", "a"]),
    (0x0102, &["Au", "A"]),
    (0x0103, &["au", "a"]),
    (0x0106, &["C'", "C"]),
    (0x0107, &["c'", "c"]),
    (0x010c, &["Cv", "C"]),
    (0x010d, &["cv", "c"]),
    (0x010e, &["Dv", "D"]),
    (0x010f, &["dv", "d"]),
    (0x0112, &["E-", "E"]),
    (0x0113, &["e-", "e"]),
    (0x0114, &["Eu", "E"]),
    (0x0115, &["eu", "e"]),
    (0x011a, &["Ev", "E"]),
    (0x011b, &["ev", "e"]),
    (0x012c, &["Iu", "I"]),
    (0x012d, &["iu", "i"]),
    (0x0131, &["i"]),
    (0x0141, &["L/", "L"]),
    (0x0142, &["l/", "l"]),
    (0x0147, &["Nv", "N"]),
    (0x0148, &["nv", "n"]),
    (0x0150, &["O''", "O"]),
    (0x0151, &["o''", "o"]),
    (0x0152, &["OE"]),
    (0x0153, &["oe"]),
    (0x0158, &["Rv", "R"]),
    (0x0159, &["rv", "r"]),
    (0x0160, &["Sv", "S"]),
    (0x0161, &["sv", "s"]),
    (0x0164, &["Tv", "T"]),
    (0x0165, &["tv", "t"]),
    (0x016e, &["Uo", "U"]),
    (0x016f, &["uo", "u"]),
    (0x0170, &["U''", "U"]),
    (0x0171, &["u''", "u"]),
    (0x017d, &["Zv", "Z"]),
    (0x017e, &["zv", "z"]),
    (0x0192, &["f"]),
    (0x02c7, &["v"]),
    (0x03bc, &["u"]),
    (0x2005, &[" "]),
    (0x2009, &[" "]),
    (0x200a, &[" "]),
    (0x2010, &["-"]),
    (0x2013, &["-"]),
    (0x2014, &["--", "-"]),
    (0x2018, &["'"]),
    (0x2019, &["'"]),
    (0x201c, &["\""]),
    (0x201d, &["\""]),
    (0x2026, &["..."]),
    (0x2028, &["\n"]),
    (0x2029, &["\n\n"]),
    (0x2032, &["'"]),
    (0x2033, &["''", "\""]),
    (0x2035, &["`"]),
    (0x2036, &["``", "\""]),
    (0x2043, &["-"]),
    (0x205f, &[" "]),
    (0x2062, &["*", "x", ""]),
    (0x210a, &["g"]),
    (0x210b, &["H"]),
    (0x210c, &["H"]),
    (0x210f, &["h"]),
    (0x2110, &["I"]),
    (0x2111, &["I"]),
    (0x2112, &["L"]),
    (0x2113, &["l"]),
    (0x2118, &["p"]),
    (0x211b, &["R"]),
    (0x211c, &["R"]),
    (0x2122, &["(TM)"]),
    (0x2128, &["Z"]),
    (0x212b, &["A"]),
    (0x212c, &["B"]),
    (0x212d, &["C"]),
    (0x212f, &["e"]),
    (0x2130, &["E"]),
    (0x2131, &["F"]),
    (0x2133, &["M"]),
    (0x2134, &["o"]),
    (0x2190, &["<-"]),
    (0x2192, &["->"]),
    (0x2194, &["<->"]),
    (0x21a4, &["<-|"]),
    (0x21a6, &["|->"]),
    (0x21d0, &["<="]),
    (0x21d2, &["=>"]),
    (0x21d4, &["<=>"]),
    (0x21e4, &["|<-"]),
    (0x21e5, &["->|"]),
    (0x2212, &["-"]),
    (0x2213, &["-+"]),
    (0x2215, &["/"]),
    (0x2216, &["\\"]),
    (0x2218, &["()"]),
    (0x221e, &["Infinity"]),
    (0x2223, &["|"]),
    (0x2225, &["||"]),
    (0x2226, &["!||"]),
    (0x2227, &["&&"]),
    (0x2228, &["||"]),
    (0x2236, &[":"]),
    (0x223c, &["~"]),
    (0x2241, &["!~"]),
    (0x2242, &["=~"]),
    (0x2243, &["~="]),
    (0x2244, &["!~="]),
    (0x2245, &["~=="]),
    (0x2247, &["!~=="]),
    (0x2248, &["~~"]),
    (0x2249, &["!~~"]),
    (0x2260, &["!="]),
    (0x2264, &["<="]),
    (0x2265, &[">="]),
    (0x2266, &["<="]),
    (0x2267, &[">="]),
    (0x2268, &["!<=="]),
    (0x2269, &["!>=="]),
    (0x226a, &["<<"]),
    (0x226b, &[">>"]),
    (0x226e, &["!<"]),
    (0x226f, &["!>"]),
    (0x2270, &["!<="]),
    (0x2271, &["!>="]),
    (0x2272, &["<~"]),
    (0x2273, &[">~"]),
    (0x2274, &["!<~"]),
    (0x2275, &["!>~"]),
    (0x2276, &["<>"]),
    (0x2277, &["><"]),
    (0x2278, &["!<>"]),
    (0x2279, &["!><"]),
    (0x2295, &["(+)"]),
    (0x2296, &["(-)"]),
    (0x2297, &["(x)"]),
    (0x2299, &["(.)"]),
    (0x22a2, &["|-"]),
    (0x22a3, &["-|"]),
    (0x22a8, &["|="]),
    (0x22b2, &["<|"]),
    (0x22b3, &["|>"]),
    (0x22b4, &["<|="]),
    (0x22b5, &["|>="]),
    (0x22c0, &["^"]),
    (0x22c4, &["<>"]),
    (0x22c6, &["*"]),
    (0x22da, &["<=>"]),
    (0x22db, &[">=<"]),
    (0x22ea, &["!<|"]),
    (0x22eb, &["!|>"]),
    (0x22ec, &["!<|="]),
    (0x22ed, &["!|>="]),
    (0x22ef, &["..."]),
    (0x2329, &["<"]),
    (0x232a, &[">"]),
    (0x2423, &[" ", "_"]),
    (0x2639, &[":-("]),
    (0x263a, &[":-)"]),
    (0x266f, &["#"]),
    (0x27f5, &["<--"]),
    (0x27f6, &["-->"]),
    (0x27f7, &["<-->"]),
    (0x27f8, &["<=="]),
    (0x27f9, &["==>"]),
    (0x27fa, &["<==>"]),
    (0x29cf, &["<||"]),
    (0x29d0, &["||>"]),
    (0x29e6, &["<=>"]),
    (0x2a7d, &["<="]),
    (0x2a7e, &[">="]),
    (0x2aa1, &["<<"]),
    (0x2aa2, &[">>"]),
    (0x2ae4, &["=|"]),
    (0x301a, &["[["]),
    (0x301b, &["]]"]),
    (0xf113, &["<|"]),
    (0xf114, &["|>"]),
    (0xf120, &["<->"]),
    (0xf360, &[" ", ""]),
    (0xf380, &[" "]),
    (0xf382, &[" "]),
    (0xf383, &[" "]),
    (0xf384, &[" "]),
    (0xf39e, &["+"]),
    (0xf3a0, &[""]),
    (0xf3a3, &["\n"]),
    (0xf3b1, &["\\"]),
    (0xf3b2, &["_"]),
    (0xf3b3, &[""]),
    (0xf3b4, &[""]),
    (0xf3bd, &["\n"]),
    (0xf3be, &["\n"]),
    (0xf3bf, &["\n"]),
    (0xf3c6, &["\n"]),
    (0xf3c7, &["T"]),
    (0xf3c8, &["*"]),
    (0xf3c9, &["t"]),
    (0xf3ce, &["H"]),
    (0xf3d0, &["|"]),
    (0xf3d1, &["!|"]),
    (0xf3d5, &["->"]),
    (0xf3d9, &["K"]),
    (0xf400, &["!=~"]),
    (0xf412, &["!<||"]),
    (0xf413, &["!||>"]),
    (0xf422, &["!<<"]),
    (0xf423, &["!<<"]),
    (0xf424, &["!<="]),
    (0xf427, &["!>>"]),
    (0xf428, &["!>>"]),
    (0xf429, &["!>="]),
    (0xf431, &["=="]),
    (0xf432, &["|"]),
    (0xf4a0, &["x"]),
    (0xf4a1, &["|->"]),
    (0xf51f, &[":>"]),
    (0xf520, &["[]"]),
    (0xf522, &["->"]),
    (0xf523, &["=>"]),
    (0xf525, &["->"]),
    (0xf526, &["<-"]),
    (0xf527, &["[*]"]),
    (0xf528, &["[ ]"]),
    (0xf603, &["|"]),
    (0xf604, &["|"]),
    (0xf605, &["||"]),
    (0xf606, &["||"]),
    (0xf6b2, &["a"]),
    (0xf6b3, &["b"]),
    (0xf6b4, &["c"]),
    (0xf6b5, &["d"]),
    (0xf6b7, &["f"]),
    (0xf6b9, &["h"]),
    (0xf6ba, &["i"]),
    (0xf6bb, &["j"]),
    (0xf6bc, &["k"]),
    (0xf6be, &["m"]),
    (0xf6bf, &["n"]),
    (0xf6c1, &["p"]),
    (0xf6c2, &["q"]),
    (0xf6c3, &["r"]),
    (0xf6c4, &["s"]),
    (0xf6c5, &["t"]),
    (0xf6c6, &["u"]),
    (0xf6c7, &["v"]),
    (0xf6c8, &["w"]),
    (0xf6c9, &["x"]),
    (0xf6ca, &["y"]),
    (0xf6cb, &["z"]),
    (0xf6cc, &["a"]),
    (0xf6cd, &["b"]),
    (0xf6ce, &["c"]),
    (0xf6cf, &["d"]),
    (0xf6d0, &["e"]),
    (0xf6d1, &["f"]),
    (0xf6d2, &["g"]),
    (0xf6d3, &["h"]),
    (0xf6d4, &["i"]),
    (0xf6d5, &["j"]),
    (0xf6d6, &["k"]),
    (0xf6d7, &["l"]),
    (0xf6d8, &["m"]),
    (0xf6d9, &["n"]),
    (0xf6da, &["o"]),
    (0xf6db, &["p"]),
    (0xf6dc, &["q"]),
    (0xf6dd, &["R"]),
    (0xf6de, &["s"]),
    (0xf6df, &["t"]),
    (0xf6e0, &["u"]),
    (0xf6e1, &["v"]),
    (0xf6e2, &["w"]),
    (0xf6e3, &["x"]),
    (0xf6e4, &["y"]),
    (0xf6e5, &["z"]),
    (0xf6e6, &["a"]),
    (0xf6e7, &["b"]),
    (0xf6e8, &["c"]),
    (0xf6e9, &["d"]),
    (0xf6ea, &["e"]),
    (0xf6eb, &["f"]),
    (0xf6ec, &["g"]),
    (0xf6ed, &["h"]),
    (0xf6ee, &["i"]),
    (0xf6ef, &["j"]),
    (0xf6f0, &["k"]),
    (0xf6f1, &["l"]),
    (0xf6f2, &["m"]),
    (0xf6f3, &["n"]),
    (0xf6f4, &["o"]),
    (0xf6f5, &["p"]),
    (0xf6f6, &["q"]),
    (0xf6f7, &["r"]),
    (0xf6f8, &["s"]),
    (0xf6f9, &["t"]),
    (0xf6fa, &["u"]),
    (0xf6fb, &["v"]),
    (0xf6fc, &["w"]),
    (0xf6fd, &["x"]),
    (0xf6fe, &["y"]),
    (0xf6ff, &["z"]),
    (0xf700, &["j"]),
    (0xf721, &[":-@"]),
    (0xf722, &[":-|"]),
    (0xf724, &["#"]),
    (0xf730, &["i"]),
    (0xf731, &["j"]),
    (0xf74b, &["D"]),
    (0xf74c, &["d"]),
    (0xf74d, &["e"]),
    (0xf74e, &["i"]),
    (0xf74f, &["j"]),
    (0xf754, &["_"]),
    (0xf758, &["..."]),
    (0xf761, &["<<"]),
    (0xf762, &[">>"]),
    (0xf763, &["CTRL"]),
    (0xf765, &[",", ""]),
    (0xf766, &["RET"]),
    (0xf767, &["^^^"]),
    (0xf769, &["ESC"]),
    (0xf76a, &["CMD"]),
    (0xf76b, &["-["]),
    (0xf76c, &["]"]),
    (0xf76d, &["@", ""]),
    (0xf76e, &["\n"]),
    (0xf76f, &["\n\n"]),
    (0xf770, &["A"]),
    (0xf772, &["C"]),
    (0xf773, &["D"]),
    (0xf776, &["G"]),
    (0xf779, &["J"]),
    (0xf77a, &["K"]),
    (0xf77d, &["N"]),
    (0xf77e, &["O"]),
    (0xf77f, &["P"]),
    (0xf780, &["Q"]),
    (0xf782, &["S"]),
    (0xf783, &["T"]),
    (0xf784, &["U"]),
    (0xf785, &["V"]),
    (0xf786, &["W"]),
    (0xf787, &["X"]),
    (0xf788, &["Y"]),
    (0xf789, &["Z"]),
    (0xf78a, &["A"]),
    (0xf78b, &["B"]),
    (0xf78d, &["D"]),
    (0xf78e, &["E"]),
    (0xf78f, &["F"]),
    (0xf790, &["G"]),
    (0xf793, &["J"]),
    (0xf794, &["K"]),
    (0xf795, &["L"]),
    (0xf796, &["M"]),
    (0xf797, &["N"]),
    (0xf798, &["O"]),
    (0xf799, &["P"]),
    (0xf79a, &["Q"]),
    (0xf79c, &["S"]),
    (0xf79d, &["T"]),
    (0xf79e, &["U"]),
    (0xf79f, &["V"]),
    (0xf7a0, &["W"]),
    (0xf7a1, &["X"]),
    (0xf7a2, &["Y"]),
    (0xf7a4, &["A"]),
    (0xf7a5, &["B"]),
    (0xf7a6, &["C"]),
    (0xf7a7, &["D"]),
    (0xf7a8, &["E"]),
    (0xf7a9, &["F"]),
    (0xf7aa, &["G"]),
    (0xf7ab, &["H"]),
    (0xf7ac, &["I"]),
    (0xf7ad, &["J"]),
    (0xf7ae, &["K"]),
    (0xf7af, &["L"]),
    (0xf7b0, &["M"]),
    (0xf7b1, &["N"]),
    (0xf7b2, &["O"]),
    (0xf7b3, &["P"]),
    (0xf7b4, &["Q"]),
    (0xf7b5, &["R"]),
    (0xf7b6, &["S"]),
    (0xf7b7, &["T"]),
    (0xf7b8, &["U"]),
    (0xf7b9, &["V"]),
    (0xf7ba, &["W"]),
    (0xf7bb, &["X"]),
    (0xf7bc, &["Y"]),
    (0xf7bd, &["Z"]),
    (0xf7be, &["TAB"]),
    (0xf7bf, &["SPC"]),
    (0xf7d0, &["DEL"]),
    (0xf7d1, &["ALT"]),
    (0xf7d2, &["OPT"]),
    (0xf7d9, &["=="]),
    (0xf7da, &["c"]),
    (0xf7db, &["0"]),
    (0xf7dc, &["1"]),
    (0xf7dd, &["2"]),
    (0xf7de, &["3"]),
    (0xf7df, &["4"]),
    (0xf7e0, &["5"]),
    (0xf7e1, &["6"]),
    (0xf7e2, &["7"]),
    (0xf7e3, &["8"]),
    (0xf7e4, &["9"]),
    (0xf7e5, &["0"]),
    (0xf7e6, &["1"]),
    (0xf7e7, &["2"]),
    (0xf7e8, &["3"]),
    (0xf7e9, &["4"]),
    (0xf7ea, &["5"]),
    (0xf7eb, &["6"]),
    (0xf7ec, &["7"]),
    (0xf7ed, &["8"]),
    (0xf7ef, &["9"]),
    (0xf7f0, &["0"]),
    (0xf7f1, &["1"]),
    (0xf7f2, &["2"]),
    (0xf7f3, &["3"]),
    (0xf7f4, &["4"]),
    (0xf7f5, &["5"]),
    (0xf7f6, &["6"]),
    (0xf7f7, &["7"]),
    (0xf7f8, &["8"]),
    (0xf7f9, &["9"]),
    (0xf7fc, &[","]),
    (0xf800, &["a"]),
    (0xf801, &["b"]),
    (0xf802, &["c"]),
    (0xf803, &["d"]),
    (0xf804, &["e"]),
    (0xf805, &["f"]),
    (0xf806, &["g"]),
    (0xf807, &["h"]),
    (0xf808, &["i"]),
    (0xf809, &["j"]),
    (0xf80a, &["k"]),
    (0xf80b, &["l"]),
    (0xf80c, &["m"]),
    (0xf80d, &["n"]),
    (0xf80e, &["o"]),
    (0xf80f, &["p"]),
    (0xf810, &["q"]),
    (0xf811, &["r"]),
    (0xf812, &["s"]),
    (0xf813, &["t"]),
    (0xf814, &["u"]),
    (0xf815, &["v"]),
    (0xf816, &["w"]),
    (0xf817, &["x"]),
    (0xf818, &["y"]),
    (0xf819, &["z"]),
    (0xf81a, &["A"]),
    (0xf81b, &["B"]),
    (0xf81c, &["C"]),
    (0xf81d, &["D"]),
    (0xf81e, &["E"]),
    (0xf81f, &["F"]),
    (0xf820, &["G"]),
    (0xf821, &["H"]),
    (0xf822, &["I"]),
    (0xf823, &["J"]),
    (0xf824, &["K"]),
    (0xf825, &["L"]),
    (0xf826, &["M"]),
    (0xf827, &["N"]),
    (0xf828, &["O"]),
    (0xf829, &["P"]),
    (0xf82a, &["Q"]),
    (0xf82b, &["R"]),
    (0xf82c, &["S"]),
    (0xf82d, &["T"]),
    (0xf82e, &["U"]),
    (0xf82f, &["V"]),
    (0xf830, &["W"]),
    (0xf831, &["X"]),
    (0xf832, &["Y"]),
    (0xf833, &["Z"]),
    (0xfb01, &["fi"]),
    (0xfb02, &["fl"]),
    (0xfffd, &["?"]),
    (0xfa000, &["a"]),
    (0xfa001, &["b"]),
    (0xfa002, &["c"]),
    (0xfa003, &["d"]),
    (0xfa004, &["e"]),
    (0xfa005, &["f"]),
    (0xfa006, &["g"]),
    (0xfa007, &["h"]),
    (0xfa008, &["i"]),
    (0xfa009, &["j"]),
    (0xfa00a, &["k"]),
    (0xfa00b, &["l"]),
    (0xfa00c, &["m"]),
    (0xfa00d, &["n"]),
    (0xfa00e, &["o"]),
    (0xfa00f, &["p"]),
    (0xfa010, &["q"]),
    (0xfa011, &["r"]),
    (0xfa012, &["s"]),
    (0xfa013, &["t"]),
    (0xfa014, &["u"]),
    (0xfa015, &["v"]),
    (0xfa016, &["w"]),
    (0xfa017, &["x"]),
    (0xfa018, &["y"]),
    (0xfa019, &["z"]),
    (0xfa01a, &["A"]),
    (0xfa01b, &["B"]),
    (0xfa01c, &["C"]),
    (0xfa01d, &["D"]),
    (0xfa01e, &["E"]),
    (0xfa01f, &["F"]),
    (0xfa020, &["G"]),
    (0xfa021, &["H"]),
    (0xfa022, &["I"]),
    (0xfa023, &["J"]),
    (0xfa024, &["K"]),
    (0xfa025, &["L"]),
    (0xfa026, &["M"]),
    (0xfa027, &["N"]),
    (0xfa028, &["O"]),
    (0xfa029, &["P"]),
    (0xfa02a, &["Q"]),
    (0xfa02b, &["R"]),
    (0xfa02c, &["S"]),
    (0xfa02d, &["T"]),
    (0xfa02e, &["U"]),
    (0xfa02f, &["V"]),
    (0xfa030, &["W"]),
    (0xfa031, &["X"]),
    (0xfa032, &["Y"]),
    (0xfa033, &["Z"]),
];
