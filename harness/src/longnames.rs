// Generated by tools/gen_longnames.py from CodeParser/Data/LongNames.wl; frozen.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class { Letter, Newline, Punct, Raw, Uninterpretable, Unsupported, Space }
use Class::*;
pub const NAMES: [(&str, Class, u32); 1102] = [
    ("RawTab", Raw, 0x0009),
    ("NewLine", Raw, 0x000a),
    ("RawReturn", Raw, 0x000d),
    ("RawEscape", Raw, 0x001b),
    ("RawSpace", Raw, 0x0020),
    ("RawExclamation", Raw, 0x0021),
    ("RawDoubleQuote", Raw, 0x0022),
    ("RawNumberSign", Raw, 0x0023),
    ("RawDollar", Raw, 0x0024),
    ("RawPercent", Raw, 0x0025),
    ("RawAmpersand", Raw, 0x0026),
    ("RawQuote", Raw, 0x0027),
    ("RawLeftParenthesis", Raw, 0x0028),
    ("RawRightParenthesis", Raw, 0x0029),
    ("RawStar", Raw, 0x002a),
    ("RawPlus", Raw, 0x002b),
    ("RawComma", Raw, 0x002c),
    ("RawDash", Raw, 0x002d),
    ("RawDot", Raw, 0x002e),
    ("RawSlash", Raw, 0x002f),
    ("RawColon", Raw, 0x003a),
    ("RawSemicolon", Raw, 0x003b),
    ("RawLess", Raw, 0x003c),
    ("RawEqual", Raw, 0x003d),
    ("RawGreater", Raw, 0x003e),
    ("RawQuestion", Raw, 0x003f),
    ("RawAt", Raw, 0x0040),
    ("RawLeftBracket", Raw, 0x005b),
    ("RawBackslash", Raw, 0x005c),
    ("RawRightBracket", Raw, 0x005d),
    ("RawWedge", Raw, 0x005e),
    ("RawUnderscore", Raw, 0x005f),
    ("RawBackquote", Raw, 0x0060),
    ("RawLeftBrace", Raw, 0x007b),
    ("RawVerticalBar", Raw, 0x007c),
    ("RawRightBrace", Raw, 0x007d),
    ("RawTilde", Raw, 0x007e),
    ("NonBreakingSpace", Space, 0x00a0),
    ("DownExclamation", Letter, 0x00a1),
    ("Cent", Letter, 0x00a2),
    ("Sterling", Letter, 0x00a3),
    ("Currency", Letter, 0x00a4),
    ("Yen", Letter, 0x00a5),
    ("Section", Letter, 0x00a7),
    ("DoubleDot", Letter, 0x00a8),
    ("Copyright", Letter, 0x00a9),
    ("LeftGuillemet", Letter, 0x00ab),
    ("Not", Punct, 0x00ac),
    ("DiscretionaryHyphen", Letter, 0x00ad),
    ("RegisteredTrademark", Letter, 0x00ae),
    ("Degree", Letter, 0x00b0),
    ("PlusMinus", Punct, 0x00b1),
    ("Micro", Letter, 0x00b5),
    ("Paragraph", Letter, 0x00b6),
    ("CenterDot", Punct, 0x00b7),
    ("Cedilla", Letter, 0x00b8),
    ("RightGuillemet", Letter, 0x00bb),
    ("DownQuestion", Letter, 0x00bf),
    ("CapitalAGrave", Letter, 0x00c0),
    ("CapitalAAcute", Letter, 0x00c1),
    ("CapitalAHat", Letter, 0x00c2),
    ("CapitalATilde", Letter, 0x00c3),
    ("CapitalADoubleDot", Letter, 0x00c4),
    ("CapitalARing", Letter, 0x00c5),
    ("CapitalAE", Letter, 0x00c6),
    ("CapitalCCedilla", Letter, 0x00c7),
    ("CapitalEGrave", Letter, 0x00c8),
    ("CapitalEAcute", Letter, 0x00c9),
    ("CapitalEHat", Letter, 0x00ca),
    ("CapitalEDoubleDot", Letter, 0x00cb),
    ("CapitalIGrave", Letter, 0x00cc),
    ("CapitalIAcute", Letter, 0x00cd),
    ("CapitalIHat", Letter, 0x00ce),
    ("CapitalIDoubleDot", Letter, 0x00cf),
    ("CapitalEth", Letter, 0x00d0),
    ("CapitalNTilde", Letter, 0x00d1),
    ("CapitalOGrave", Letter, 0x00d2),
    ("CapitalOAcute", Letter, 0x00d3),
    ("CapitalOHat", Letter, 0x00d4),
    ("CapitalOTilde", Letter, 0x00d5),
    ("CapitalODoubleDot", Letter, 0x00d6),
    ("Times", Punct, 0x00d7),
    ("CapitalOSlash", Letter, 0x00d8),
    ("CapitalUGrave", Letter, 0x00d9),
    ("CapitalUAcute", Letter, 0x00da),
    ("CapitalUHat", Letter, 0x00db),
    ("CapitalUDoubleDot", Letter, 0x00dc),
    ("CapitalYAcute", Letter, 0x00dd),
    ("CapitalThorn", Letter, 0x00de),
    ("SZ", Letter, 0x00df),
    ("AGrave", Letter, 0x00e0),
    ("AAcute", Letter, 0x00e1),
    ("AHat", Letter, 0x00e2),
    ("ATilde", Letter, 0x00e3),
    ("ADoubleDot", Letter, 0x00e4),
    ("ARing", Letter, 0x00e5),
    ("AE", Letter, 0x00e6),
    ("CCedilla", Letter, 0x00e7),
    ("EGrave", Letter, 0x00e8),
    ("EAcute", Letter, 0x00e9),
    ("EHat", Letter, 0x00ea),
    ("EDoubleDot", Letter, 0x00eb),
    ("IGrave", Letter, 0x00ec),
    ("IAcute", Letter, 0x00ed),
    ("IHat", Letter, 0x00ee),
    ("IDoubleDot", Letter, 0x00ef),
    ("Eth", Letter, 0x00f0),
    ("NTilde", Letter, 0x00f1),
    ("OGrave", Letter, 0x00f2),
    ("OAcute", Letter, 0x00f3),
    ("OHat", Letter, 0x00f4),
    ("OTilde", Letter, 0x00f5),
    ("ODoubleDot", Letter, 0x00f6),
    ("Divide", Punct, 0x00f7),
    ("OSlash", Letter, 0x00f8),
    ("UGrave", Letter, 0x00f9),
    ("UAcute", Letter, 0x00fa),
    ("UHat", Letter, 0x00fb),
    ("UDoubleDot", Letter, 0x00fc),
    ("YAcute", Letter, 0x00fd),
    ("Thorn", Letter, 0x00fe),
    ("YDoubleDot", Letter, 0x00ff),
    ("CapitalABar", Letter, 0x0100),
    ("ABar", Letter, 0x0101),
    ("CapitalACup", Letter, 0x0102),
    ("ACup", Letter, 0x0103),
    ("CapitalCAcute", Letter, 0x0106),
    ("CAcute", Letter, 0x0107),
    ("CapitalCHacek", Letter, 0x010c),
    ("CHacek", Letter, 0x010d),
    ("CapitalDHacek", Letter, 0x010e),
    ("DHacek", Letter, 0x010f),
    ("CapitalEBar", Letter, 0x0112),
    ("EBar", Letter, 0x0113),
    ("CapitalECup", Letter, 0x0114),
    ("ECup", Letter, 0x0115),
    ("CapitalEHacek", Letter, 0x011a),
    ("EHacek", Letter, 0x011b),
    ("CapitalICup", Letter, 0x012c),
    ("ICup", Letter, 0x012d),
    ("DotlessI", Letter, 0x0131),
    ("CapitalLSlash", Letter, 0x0141),
    ("LSlash", Letter, 0x0142),
    ("CapitalNHacek", Letter, 0x0147),
    ("NHacek", Letter, 0x0148),
    ("CapitalODoubleAcute", Letter, 0x0150),
    ("ODoubleAcute", Letter, 0x0151),
    ("CapitalOE", Letter, 0x0152),
    ("OE", Letter, 0x0153),
    ("CapitalRHacek", Letter, 0x0158),
    ("RHacek", Letter, 0x0159),
    ("CapitalSHacek", Letter, 0x0160),
    ("SHacek", Letter, 0x0161),
    ("CapitalTHacek", Letter, 0x0164),
    ("THacek", Letter, 0x0165),
    ("CapitalURing", Letter, 0x016e),
    ("URing", Letter, 0x016f),
    ("CapitalUDoubleAcute", Letter, 0x0170),
    ("UDoubleAcute", Letter, 0x0171),
    ("CapitalZHacek", Letter, 0x017d),
    ("ZHacek", Letter, 0x017e),
    ("Florin", Letter, 0x0192),
    ("Hacek", Letter, 0x02c7),
    ("Breve", Letter, 0x02d8),
    ("CapitalAlpha", Letter, 0x0391),
    ("CapitalBeta", Letter, 0x0392),
    ("CapitalGamma", Letter, 0x0393),
    ("CapitalDelta", Letter, 0x0394),
    ("CapitalEpsilon", Letter, 0x0395),
    ("CapitalZeta", Letter, 0x0396),
    ("CapitalEta", Letter, 0x0397),
    ("CapitalTheta", Letter, 0x0398),
    ("CapitalIota", Letter, 0x0399),
    ("CapitalKappa", Letter, 0x039a),
    ("CapitalLambda", Letter, 0x039b),
    ("CapitalMu", Letter, 0x039c),
    ("CapitalNu", Letter, 0x039d),
    ("CapitalXi", Letter, 0x039e),
    ("CapitalOmicron", Letter, 0x039f),
    ("CapitalPi", Letter, 0x03a0),
    ("CapitalRho", Letter, 0x03a1),
    ("CapitalSigma", Letter, 0x03a3),
    ("CapitalTau", Letter, 0x03a4),
    ("CapitalUpsilon", Letter, 0x03a5),
    ("CapitalPhi", Letter, 0x03a6),
    ("CapitalChi", Letter, 0x03a7),
    ("CapitalPsi", Letter, 0x03a8),
    ("CapitalOmega", Letter, 0x03a9),
    ("Alpha", Letter, 0x03b1),
    ("Beta", Letter, 0x03b2),
    ("Gamma", Letter, 0x03b3),
    ("Delta", Letter, 0x03b4),
    ("CurlyEpsilon", Letter, 0x03b5),
    ("Zeta", Letter, 0x03b6),
    ("Eta", Letter, 0x03b7),
    ("Theta", Letter, 0x03b8),
    ("Iota", Letter, 0x03b9),
    ("Kappa", Letter, 0x03ba),
    ("Lambda", Letter, 0x03bb),
    ("Mu", Letter, 0x03bc),
    ("Nu", Letter, 0x03bd),
    ("Xi", Letter, 0x03be),
    ("Omicron", Letter, 0x03bf),
    ("Pi", Letter, 0x03c0),
    ("Rho", Letter, 0x03c1),
    ("FinalSigma", Letter, 0x03c2),
    ("Sigma", Letter, 0x03c3),
    ("Tau", Letter, 0x03c4),
    ("Upsilon", Letter, 0x03c5),
    ("CurlyPhi", Letter, 0x03c6),
    ("Chi", Letter, 0x03c7),
    ("Psi", Letter, 0x03c8),
    ("Omega", Letter, 0x03c9),
    ("CurlyTheta", Letter, 0x03d1),
    ("CurlyCapitalUpsilon", Letter, 0x03d2),
    ("Phi", Letter, 0x03d5),
    ("CurlyPi", Letter, 0x03d6),
    ("CapitalStigma", Letter, 0x03da),
    ("Stigma", Letter, 0x03db),
    ("CapitalDigamma", Letter, 0x03dc),
    ("Digamma", Letter, 0x03dd),
    ("CapitalKoppa", Letter, 0x03de),
    ("Koppa", Letter, 0x03df),
    ("CapitalSampi", Letter, 0x03e0),
    ("Sampi", Letter, 0x03e1),
    ("CurlyKappa", Letter, 0x03f0),
    ("CurlyRho", Letter, 0x03f1),
    ("Epsilon", Letter, 0x03f5),
    ("ThickSpace", Space, 0x2005),
    ("ThinSpace", Space, 0x2009),
    ("VeryThinSpace", Space, 0x200a),
    ("Hyphen", Letter, 0x2010),
    ("Dash", Letter, 0x2013),
    ("LongDash", Letter, 0x2014),
    ("OpenCurlyQuote", Punct, 0x2018),
    ("CloseCurlyQuote", Punct, 0x2019),
    ("OpenCurlyDoubleQuote", Punct, 0x201c),
    ("CloseCurlyDoubleQuote", Punct, 0x201d),
    ("Dagger", Letter, 0x2020),
    ("DoubleDagger", Letter, 0x2021),
    ("Bullet", Letter, 0x2022),
    ("Ellipsis", Letter, 0x2026),
    ("LineSeparator", Newline, 0x2028),
    ("ParagraphSeparator", Newline, 0x2029),
    ("Prime", Letter, 0x2032),
    ("DoublePrime", Letter, 0x2033),
    ("ReversePrime", Letter, 0x2035),
    ("ReverseDoublePrime", Letter, 0x2036),
    ("SkeletonIndicator", Uninterpretable, 0x2043),
    ("MediumSpace", Space, 0x205f),
    ("NoBreak", Space, 0x2060),
    ("InvisibleTimes", Punct, 0x2062),
    ("Euro", Letter, 0x20ac),
    ("Rupee", Letter, 0x20b9),
    ("ScriptG", Letter, 0x210a),
    ("ScriptCapitalH", Letter, 0x210b),
    ("GothicCapitalH", Letter, 0x210c),
    ("HBar", Letter, 0x210f),
    ("ScriptCapitalI", Letter, 0x2110),
    ("GothicCapitalI", Letter, 0x2111),
    ("ScriptCapitalL", Letter, 0x2112),
    ("ScriptL", Letter, 0x2113),
    ("WeierstrassP", Letter, 0x2118),
    ("ScriptCapitalR", Letter, 0x211b),
    ("GothicCapitalR", Letter, 0x211c),
    ("Trademark", Letter, 0x2122),
    ("Mho", Letter, 0x2127),
    ("GothicCapitalZ", Letter, 0x2128),
    ("Angstrom", Letter, 0x212b),
    ("ScriptCapitalB", Letter, 0x212c),
    ("GothicCapitalC", Letter, 0x212d),
    ("ScriptE", Letter, 0x212f),
    ("ScriptCapitalE", Letter, 0x2130),
    ("ScriptCapitalF", Letter, 0x2131),
    ("ScriptCapitalM", Letter, 0x2133),
    ("ScriptO", Letter, 0x2134),
    ("Aleph", Letter, 0x2135),
    ("Bet", Letter, 0x2136),
    ("Gimel", Letter, 0x2137),
    ("Dalet", Letter, 0x2138),
    ("LeftArrow", Punct, 0x2190),
    ("UpArrow", Punct, 0x2191),
    ("RightArrow", Punct, 0x2192),
    ("DownArrow", Punct, 0x2193),
    ("LeftRightArrow", Punct, 0x2194),
    ("UpDownArrow", Punct, 0x2195),
    ("UpperLeftArrow", Punct, 0x2196),
    ("UpperRightArrow", Punct, 0x2197),
    ("LowerRightArrow", Punct, 0x2198),
    ("LowerLeftArrow", Punct, 0x2199),
    ("LeftTeeArrow", Punct, 0x21a4),
    ("UpTeeArrow", Punct, 0x21a5),
    ("RightTeeArrow", Punct, 0x21a6),
    ("DownTeeArrow", Punct, 0x21a7),
    ("ReturnIndicator", Letter, 0x21b5),
    ("LeftVector", Punct, 0x21bc),
    ("DownLeftVector", Punct, 0x21bd),
    ("RightUpVector", Punct, 0x21be),
    ("LeftUpVector", Punct, 0x21bf),
    ("RightVector", Punct, 0x21c0),
    ("DownRightVector", Punct, 0x21c1),
    ("RightDownVector", Punct, 0x21c2),
    ("LeftDownVector", Punct, 0x21c3),
    ("RightArrowLeftArrow", Punct, 0x21c4),
    ("UpArrowDownArrow", Punct, 0x21c5),
    ("LeftArrowRightArrow", Punct, 0x21c6),
    ("ReverseEquilibrium", Punct, 0x21cb),
    ("Equilibrium", Punct, 0x21cc),
    ("DoubleLeftArrow", Punct, 0x21d0),
    ("DoubleUpArrow", Punct, 0x21d1),
    ("DoubleRightArrow", Punct, 0x21d2),
    ("DoubleDownArrow", Punct, 0x21d3),
    ("DoubleLeftRightArrow", Punct, 0x21d4),
    ("DoubleUpDownArrow", Punct, 0x21d5),
    ("LeftArrowBar", Punct, 0x21e4),
    ("RightArrowBar", Punct, 0x21e5),
    ("DownArrowUpArrow", Punct, 0x21f5),
    ("ForAll", Punct, 0x2200),
    ("PartialD", Punct, 0x2202),
    ("Exists", Punct, 0x2203),
    ("NotExists", Punct, 0x2204),
    ("EmptySet", Letter, 0x2205),
    ("Del", Punct, 0x2207),
    ("Element", Punct, 0x2208),
    ("NotElement", Punct, 0x2209),
    ("ReverseElement", Punct, 0x220b),
    ("NotReverseElement", Punct, 0x220c),
    ("SuchThat", Punct, 0x220d),
    ("Product", Punct, 0x220f),
    ("Coproduct", Punct, 0x2210),
    ("Sum", Punct, 0x2211),
    ("Minus", Punct, 0x2212),
    ("MinusPlus", Punct, 0x2213),
    ("DivisionSlash", Punct, 0x2215),
    ("Backslash", Punct, 0x2216),
    ("SmallCircle", Punct, 0x2218),
    ("Sqrt", Punct, 0x221a),
    ("CubeRoot", Punct, 0x221b),
    ("Proportional", Punct, 0x221d),
    ("Infinity", Letter, 0x221e),
    ("RightAngle", Letter, 0x221f),
    ("Angle", Letter, 0x2220),
    ("MeasuredAngle", Letter, 0x2221),
    ("SphericalAngle", Letter, 0x2222),
    ("Divides", Punct, 0x2223),
    ("DoubleVerticalBar", Punct, 0x2225),
    ("NotDoubleVerticalBar", Punct, 0x2226),
    ("And", Punct, 0x2227),
    ("Or", Punct, 0x2228),
    ("Integral", Punct, 0x222b),
    ("ContourIntegral", Punct, 0x222e),
    ("DoubleContourIntegral", Punct, 0x222f),
    ("ClockwiseContourIntegral", Punct, 0x2232),
    ("CounterClockwiseContourIntegral", Punct, 0x2233),
    ("Therefore", Punct, 0x2234),
    ("Because", Punct, 0x2235),
    ("Colon", Punct, 0x2236),
    ("Proportion", Punct, 0x2237),
    ("Tilde", Punct, 0x223c),
    ("VerticalTilde", Punct, 0x2240),
    ("NotTilde", Punct, 0x2241),
    ("EqualTilde", Punct, 0x2242),
    ("TildeEqual", Punct, 0x2243),
    ("NotTildeEqual", Punct, 0x2244),
    ("TildeFullEqual", Punct, 0x2245),
    ("NotTildeFullEqual", Punct, 0x2247),
    ("TildeTilde", Punct, 0x2248),
    ("NotTildeTilde", Punct, 0x2249),
    ("CupCap", Punct, 0x224d),
    ("HumpDownHump", Punct, 0x224e),
    ("HumpEqual", Punct, 0x224f),
    ("DotEqual", Punct, 0x2250),
    ("NotEqual", Punct, 0x2260),
    ("Congruent", Punct, 0x2261),
    ("NotCongruent", Punct, 0x2262),
    ("LessEqual", Punct, 0x2264),
    ("GreaterEqual", Punct, 0x2265),
    ("LessFullEqual", Punct, 0x2266),
    ("GreaterFullEqual", Punct, 0x2267),
    ("NotLessFullEqual", Punct, 0x2268),
    ("NotGreaterFullEqual", Punct, 0x2269),
    ("LessLess", Punct, 0x226a),
    ("GreaterGreater", Punct, 0x226b),
    ("NotCupCap", Punct, 0x226d),
    ("NotLess", Punct, 0x226e),
    ("NotGreater", Punct, 0x226f),
    ("NotLessEqual", Punct, 0x2270),
    ("NotGreaterEqual", Punct, 0x2271),
    ("LessTilde", Punct, 0x2272),
    ("GreaterTilde", Punct, 0x2273),
    ("NotLessTilde", Punct, 0x2274),
    ("NotGreaterTilde", Punct, 0x2275),
    ("LessGreater", Punct, 0x2276),
    ("GreaterLess", Punct, 0x2277),
    ("NotLessGreater", Punct, 0x2278),
    ("NotGreaterLess", Punct, 0x2279),
    ("Precedes", Punct, 0x227a),
    ("Succeeds", Punct, 0x227b),
    ("PrecedesSlantEqual", Punct, 0x227c),
    ("SucceedsSlantEqual", Punct, 0x227d),
    ("PrecedesTilde", Punct, 0x227e),
    ("SucceedsTilde", Punct, 0x227f),
    ("NotPrecedes", Punct, 0x2280),
    ("NotSucceeds", Punct, 0x2281),
    ("Subset", Punct, 0x2282),
    ("Superset", Punct, 0x2283),
    ("NotSubset", Punct, 0x2284),
    ("NotSuperset", Punct, 0x2285),
    ("SubsetEqual", Punct, 0x2286),
    ("SupersetEqual", Punct, 0x2287),
    ("NotSubsetEqual", Punct, 0x2288),
    ("NotSupersetEqual", Punct, 0x2289),
    ("UnionPlus", Punct, 0x228e),
    ("SquareSubset", Punct, 0x228f),
    ("SquareSuperset", Punct, 0x2290),
    ("SquareSubsetEqual", Punct, 0x2291),
    ("SquareSupersetEqual", Punct, 0x2292),
    ("SquareIntersection", Punct, 0x2293),
    ("SquareUnion", Punct, 0x2294),
    ("CirclePlus", Punct, 0x2295),
    ("CircleMinus", Punct, 0x2296),
    ("CircleTimes", Punct, 0x2297),
    ("CircleDot", Punct, 0x2299),
    ("RightTee", Punct, 0x22a2),
    ("LeftTee", Punct, 0x22a3),
    ("DownTee", Punct, 0x22a4),
    ("UpTee", Punct, 0x22a5),
    ("DoubleRightTee", Punct, 0x22a8),
    ("LeftTriangle", Punct, 0x22b2),
    ("RightTriangle", Punct, 0x22b3),
    ("LeftTriangleEqual", Punct, 0x22b4),
    ("RightTriangleEqual", Punct, 0x22b5),
    ("Xor", Punct, 0x22bb),
    ("Nand", Punct, 0x22bc),
    ("Nor", Punct, 0x22bd),
    ("Wedge", Punct, 0x22c0),
    ("Vee", Punct, 0x22c1),
    ("Intersection", Punct, 0x22c2),
    ("Union", Punct, 0x22c3),
    ("Diamond", Punct, 0x22c4),
    ("Star", Punct, 0x22c6),
    ("LessEqualGreater", Punct, 0x22da),
    ("GreaterEqualLess", Punct, 0x22db),
    ("NotPrecedesSlantEqual", Punct, 0x22e0),
    ("NotSucceedsSlantEqual", Punct, 0x22e1),
    ("NotSquareSubsetEqual", Punct, 0x22e2),
    ("NotSquareSupersetEqual", Punct, 0x22e3),
    ("NotPrecedesTilde", Punct, 0x22e8),
    ("NotSucceedsTilde", Punct, 0x22e9),
    ("NotLeftTriangle", Punct, 0x22ea),
    ("NotRightTriangle", Punct, 0x22eb),
    ("NotLeftTriangleEqual", Punct, 0x22ec),
    ("NotRightTriangleEqual", Punct, 0x22ed),
    ("VerticalEllipsis", Letter, 0x22ee),
    ("CenterEllipsis", Letter, 0x22ef),
    ("AscendingEllipsis", Letter, 0x22f0),
    ("DescendingEllipsis", Letter, 0x22f1),
    ("Diameter", Letter, 0x2300),
    ("LeftCeiling", Punct, 0x2308),
    ("RightCeiling", Punct, 0x2309),
    ("LeftFloor", Punct, 0x230a),
    ("RightFloor", Punct, 0x230b),
    ("CloverLeaf", Letter, 0x2318),
    ("WatchIcon", Letter, 0x231a),
    ("Cap", Punct, 0x2322),
    ("Cup", Punct, 0x2323),
    ("LeftAngleBracket", Punct, 0x2329),
    ("RightAngleBracket", Punct, 0x232a),
    ("OverBracket", Letter, 0x23b4),
    ("UnderBracket", Letter, 0x23b5),
    ("SpaceIndicator", Space, 0x2423),
    ("HorizontalLine", Letter, 0x2500),
    ("VerticalLine", Letter, 0x2502),
    ("FilledSquare", Letter, 0x25a0),
    ("EmptySquare", Letter, 0x25a1),
    ("FilledVerySmallSquare", Letter, 0x25aa),
    ("EmptyVerySmallSquare", Letter, 0x25ab),
    ("FilledRectangle", Letter, 0x25ae),
    ("EmptyRectangle", Letter, 0x25af),
    ("FilledUpTriangle", Letter, 0x25b2),
    ("EmptyUpTriangle", Letter, 0x25b3),
    ("UpPointer", Letter, 0x25b4),
    ("FilledRightTriangle", Letter, 0x25b6),
    ("RightPointer", Letter, 0x25b8),
    ("FilledDownTriangle", Letter, 0x25bc),
    ("EmptyDownTriangle", Letter, 0x25bd),
    ("DownPointer", Letter, 0x25be),
    ("FilledLeftTriangle", Letter, 0x25c0),
    ("LeftPointer", Letter, 0x25c2),
    ("FilledDiamond", Letter, 0x25c6),
    ("EmptyDiamond", Letter, 0x25c7),
    ("EmptyCircle", Letter, 0x25cb),
    ("FilledCircle", Letter, 0x25cf),
    ("EmptySmallCircle", Letter, 0x25e6),
    ("EmptySmallSquare", Letter, 0x25fb),
    ("FilledSmallSquare", Letter, 0x25fc),
    ("FivePointedStar", Letter, 0x2605),
    ("Sun", Letter, 0x2609),
    ("CheckmarkedBox", Letter, 0x2611),
    ("CheckedBox", Letter, 0x2612),
    ("SadSmiley", Letter, 0x2639),
    ("HappySmiley", Letter, 0x263a),
    ("Moon", Letter, 0x263e),
    ("Mercury", Letter, 0x263f),
    ("Venus", Letter, 0x2640),
    ("Mars", Letter, 0x2642),
    ("Jupiter", Letter, 0x2643),
    ("Saturn", Letter, 0x2644),
    ("Neptune", Letter, 0x2646),
    ("Pluto", Letter, 0x2647),
    ("AriesSign", Letter, 0x2648),
    ("TaurusSign", Letter, 0x2649),
    ("GeminiSign", Letter, 0x264a),
    ("CancerSign", Letter, 0x264b),
    ("LeoSign", Letter, 0x264c),
    ("VirgoSign", Letter, 0x264d),
    ("LibraSign", Letter, 0x264e),
    ("ScorpioSign", Letter, 0x264f),
    ("SagittariusSign", Letter, 0x2650),
    ("CapricornSign", Letter, 0x2651),
    ("AquariusSign", Letter, 0x2652),
    ("PiscesSign", Letter, 0x2653),
    ("WhiteKing", Letter, 0x2654),
    ("WhiteQueen", Letter, 0x2655),
    ("WhiteRook", Letter, 0x2656),
    ("WhiteBishop", Letter, 0x2657),
    ("WhiteKnight", Letter, 0x2658),
    ("WhitePawn", Letter, 0x2659),
    ("BlackKing", Letter, 0x265a),
    ("BlackQueen", Letter, 0x265b),
    ("BlackRook", Letter, 0x265c),
    ("BlackBishop", Letter, 0x265d),
    ("BlackKnight", Letter, 0x265e),
    ("BlackPawn", Letter, 0x265f),
    ("SpadeSuit", Letter, 0x2660),
    ("HeartSuit", Letter, 0x2661),
    ("DiamondSuit", Letter, 0x2662),
    ("ClubSuit", Letter, 0x2663),
    ("QuarterNote", Letter, 0x2669),
    ("EighthNote", Letter, 0x266a),
    ("BeamedEighthNote", Letter, 0x266b),
    ("BeamedSixteenthNote", Letter, 0x266c),
    ("Flat", Letter, 0x266d),
    ("Natural", Letter, 0x266e),
    ("Sharp", Letter, 0x266f),
    ("Uranus", Letter, 0x26e2),
    ("Checkmark", Letter, 0x2713),
    ("SixPointedStar", Letter, 0x2736),
    ("Perpendicular", Punct, 0x27c2),
    ("LongLeftArrow", Punct, 0x27f5),
    ("LongRightArrow", Punct, 0x27f6),
    ("LongLeftRightArrow", Punct, 0x27f7),
    ("DoubleLongLeftArrow", Punct, 0x27f8),
    ("DoubleLongRightArrow", Punct, 0x27f9),
    ("DoubleLongLeftRightArrow", Punct, 0x27fa),
    ("UpArrowBar", Punct, 0x2912),
    ("DownArrowBar", Punct, 0x2913),
    ("LeftRightVector", Punct, 0x294e),
    ("RightUpDownVector", Punct, 0x294f),
    ("DownLeftRightVector", Punct, 0x2950),
    ("LeftUpDownVector", Punct, 0x2951),
    ("LeftVectorBar", Punct, 0x2952),
    ("RightVectorBar", Punct, 0x2953),
    ("RightUpVectorBar", Punct, 0x2954),
    ("RightDownVectorBar", Punct, 0x2955),
    ("DownLeftVectorBar", Punct, 0x2956),
    ("DownRightVectorBar", Punct, 0x2957),
    ("LeftUpVectorBar", Punct, 0x2958),
    ("LeftDownVectorBar", Punct, 0x2959),
    ("LeftTeeVector", Punct, 0x295a),
    ("RightTeeVector", Punct, 0x295b),
    ("RightUpTeeVector", Punct, 0x295c),
    ("RightDownTeeVector", Punct, 0x295d),
    ("DownLeftTeeVector", Punct, 0x295e),
    ("DownRightTeeVector", Punct, 0x295f),
    ("LeftUpTeeVector", Punct, 0x2960),
    ("LeftDownTeeVector", Punct, 0x2961),
    ("UpEquilibrium", Punct, 0x296e),
    ("ReverseUpEquilibrium", Punct, 0x296f),
    ("RoundImplies", Punct, 0x2970),
    ("LeftTriangleBar", Punct, 0x29cf),
    ("RightTriangleBar", Punct, 0x29d0),
    ("Equivalent", Punct, 0x29e6),
    ("LessSlantEqual", Punct, 0x2a7d),
    ("GreaterSlantEqual", Punct, 0x2a7e),
    ("NestedLessLess", Punct, 0x2aa1),
    ("NestedGreaterGreater", Punct, 0x2aa2),
    ("PrecedesEqual", Punct, 0x2aaf),
    ("SucceedsEqual", Punct, 0x2ab0),
    ("DoubleLeftTee", Punct, 0x2ae4),
    ("COMPATIBILITYKanjiSpace", Unsupported, 0x3000),
    ("LeftDoubleBracket", Punct, 0x301a),
    ("RightDoubleBracket", Punct, 0x301b),
    ("LeftAssociation", Punct, 0xf113),
    ("RightAssociation", Punct, 0xf114),
    ("Shah", Letter, 0xf11d),
    ("WolframLanguageLogo", Letter, 0xf11e),
    ("WolframLanguageLogoCircle", Letter, 0xf11f),
    ("TwoWayRule", Punct, 0xf120),
    ("FreeformPrompt", Letter, 0xf351),
    ("WolframAlphaPrompt", Letter, 0xf352),
    ("InvisibleSpace", Space, 0xf360),
    ("Piecewise", Punct, 0xf361),
    ("NegativeVeryThinSpace", Space, 0xf380),
    ("NegativeThinSpace", Space, 0xf382),
    ("NegativeMediumSpace", Space, 0xf383),
    ("NegativeThickSpace", Space, 0xf384),
    ("ImplicitPlus", Punct, 0xf39e),
    ("Null", Letter, 0xf3a0),
    ("COMPATIBILITYNoBreak", Unsupported, 0xf3a2),
    ("IndentingNewLine", Newline, 0xf3a3),
    ("AutoPlaceholder", Letter, 0xf3a4),
    ("AutoLeftMatch", Punct, 0xf3a8),
    ("AutoRightMatch", Punct, 0xf3a9),
    ("AutoSpace", Space, 0xf3ad),
    ("AutoOperand", Letter, 0xf3ae),
    ("SystemsModelDelay", Letter, 0xf3af),
    ("Continuation", Space, 0xf3b1),
    ("RoundSpaceIndicator", Space, 0xf3b2),
    ("InvisiblePrefixScriptBase", Punct, 0xf3b3),
    ("InvisiblePostfixScriptBase", Punct, 0xf3b4),
    ("EntityStart", Letter, 0xf3b8),
    ("EntityEnd", Letter, 0xf3b9),
    ("SpanFromLeft", Letter, 0xf3ba),
    ("SpanFromAbove", Letter, 0xf3bb),
    ("SpanFromBoth", Letter, 0xf3bc),
    ("PageBreakAbove", Space, 0xf3bd),
    ("PageBreakBelow", Space, 0xf3be),
    ("DiscretionaryPageBreakAbove", Space, 0xf3bf),
    ("DiscretionaryPageBreakBelow", Space, 0xf3c6),
    ("Transpose", Punct, 0xf3c7),
    ("Conjugate", Punct, 0xf3c8),
    ("ConjugateTranspose", Punct, 0xf3c9),
    ("StepperRight", Letter, 0xf3ca),
    ("StepperLeft", Letter, 0xf3cb),
    ("StepperUp", Letter, 0xf3cc),
    ("StepperDown", Letter, 0xf3cd),
    ("HermitianConjugate", Punct, 0xf3ce),
    ("VerticalBar", Punct, 0xf3d0),
    ("NotVerticalBar", Punct, 0xf3d1),
    ("Distributed", Punct, 0xf3d2),
    ("Conditioned", Punct, 0xf3d3),
    ("UndirectedEdge", Punct, 0xf3d4),
    ("DirectedEdge", Punct, 0xf3d5),
    ("ContinuedFractionK", Punct, 0xf3d9),
    ("TensorProduct", Punct, 0xf3da),
    ("TensorWedge", Punct, 0xf3db),
    ("ProbabilityPr", Punct, 0xf3dc),
    ("ExpectationE", Punct, 0xf3dd),
    ("PermutationProduct", Punct, 0xf3de),
    ("Earth", Letter, 0xf3df),
    ("NotEqualTilde", Punct, 0xf400),
    ("NotHumpEqual", Punct, 0xf401),
    ("NotHumpDownHump", Punct, 0xf402),
    ("NotLeftTriangleBar", Punct, 0xf412),
    ("NotRightTriangleBar", Punct, 0xf413),
    ("NotLessLess", Punct, 0xf422),
    ("NotNestedLessLess", Punct, 0xf423),
    ("NotLessSlantEqual", Punct, 0xf424),
    ("NotGreaterGreater", Punct, 0xf427),
    ("NotNestedGreaterGreater", Punct, 0xf428),
    ("NotGreaterSlantEqual", Punct, 0xf429),
    ("NotPrecedesEqual", Punct, 0xf42b),
    ("NotSucceedsEqual", Punct, 0xf42d),
    ("NotSquareSubset", Punct, 0xf42e),
    ("NotSquareSuperset", Punct, 0xf42f),
    ("Equal", Punct, 0xf431),
    ("VerticalSeparator", Punct, 0xf432),
    ("VectorGreater", Punct, 0xf434),
    ("VectorGreaterEqual", Punct, 0xf435),
    ("VectorLess", Punct, 0xf436),
    ("VectorLessEqual", Punct, 0xf437),
    ("Limit", Punct, 0xf438),
    ("MaxLimit", Punct, 0xf439),
    ("MinLimit", Punct, 0xf43a),
    ("Cross", Punct, 0xf4a0),
    ("Function", Punct, 0xf4a1),
    ("Xnor", Punct, 0xf4a2),
    ("DiscreteShift", Punct, 0xf4a3),
    ("DifferenceDelta", Punct, 0xf4a4),
    ("DiscreteRatio", Punct, 0xf4a5),
    ("InlinePart", Unsupported, 0xf51e),
    ("RuleDelayed", Punct, 0xf51f),
    ("Square", Punct, 0xf520),
    ("Rule", Punct, 0xf522),
    ("Implies", Punct, 0xf523),
    ("ShortRightArrow", Punct, 0xf525),
    ("ShortLeftArrow", Punct, 0xf526),
    ("SelectionPlaceholder", Letter, 0xf527),
    ("Placeholder", Letter, 0xf528),
    ("ShortUpArrow", Punct, 0xf52a),
    ("ShortDownArrow", Punct, 0xf52b),
    ("Application", Punct, 0xf530),
    ("LeftBracketingBar", Punct, 0xf603),
    ("RightBracketingBar", Punct, 0xf604),
    ("LeftDoubleBracketingBar", Punct, 0xf605),
    ("RightDoubleBracketingBar", Punct, 0xf606),
    ("ScriptA", Letter, 0xf6b2),
    ("ScriptB", Letter, 0xf6b3),
    ("ScriptC", Letter, 0xf6b4),
    ("ScriptD", Letter, 0xf6b5),
    ("ScriptF", Letter, 0xf6b7),
    ("ScriptH", Letter, 0xf6b9),
    ("ScriptI", Letter, 0xf6ba),
    ("ScriptJ", Letter, 0xf6bb),
    ("ScriptK", Letter, 0xf6bc),
    ("ScriptM", Letter, 0xf6be),
    ("ScriptN", Letter, 0xf6bf),
    ("ScriptP", Letter, 0xf6c1),
    ("ScriptQ", Letter, 0xf6c2),
    ("ScriptR", Letter, 0xf6c3),
    ("ScriptS", Letter, 0xf6c4),
    ("ScriptT", Letter, 0xf6c5),
    ("ScriptU", Letter, 0xf6c6),
    ("ScriptV", Letter, 0xf6c7),
    ("ScriptW", Letter, 0xf6c8),
    ("ScriptX", Letter, 0xf6c9),
    ("ScriptY", Letter, 0xf6ca),
    ("ScriptZ", Letter, 0xf6cb),
    ("GothicA", Letter, 0xf6cc),
    ("GothicB", Letter, 0xf6cd),
    ("GothicC", Letter, 0xf6ce),
    ("GothicD", Letter, 0xf6cf),
    ("GothicE", Letter, 0xf6d0),
    ("GothicF", Letter, 0xf6d1),
    ("GothicG", Letter, 0xf6d2),
    ("GothicH", Letter, 0xf6d3),
    ("GothicI", Letter, 0xf6d4),
    ("GothicJ", Letter, 0xf6d5),
    ("GothicK", Letter, 0xf6d6),
    ("GothicL", Letter, 0xf6d7),
    ("GothicM", Letter, 0xf6d8),
    ("GothicN", Letter, 0xf6d9),
    ("GothicO", Letter, 0xf6da),
    ("GothicP", Letter, 0xf6db),
    ("GothicQ", Letter, 0xf6dc),
    ("GothicR", Letter, 0xf6dd),
    ("GothicS", Letter, 0xf6de),
    ("GothicT", Letter, 0xf6df),
    ("GothicU", Letter, 0xf6e0),
    ("GothicV", Letter, 0xf6e1),
    ("GothicW", Letter, 0xf6e2),
    ("GothicX", Letter, 0xf6e3),
    ("GothicY", Letter, 0xf6e4),
    ("GothicZ", Letter, 0xf6e5),
    ("DoubleStruckA", Letter, 0xf6e6),
    ("DoubleStruckB", Letter, 0xf6e7),
    ("DoubleStruckC", Letter, 0xf6e8),
    ("DoubleStruckD", Letter, 0xf6e9),
    ("DoubleStruckE", Letter, 0xf6ea),
    ("DoubleStruckF", Letter, 0xf6eb),
    ("DoubleStruckG", Letter, 0xf6ec),
    ("DoubleStruckH", Letter, 0xf6ed),
    ("DoubleStruckI", Letter, 0xf6ee),
    ("DoubleStruckJ", Letter, 0xf6ef),
    ("DoubleStruckK", Letter, 0xf6f0),
    ("DoubleStruckL", Letter, 0xf6f1),
    ("DoubleStruckM", Letter, 0xf6f2),
    ("DoubleStruckN", Letter, 0xf6f3),
    ("DoubleStruckO", Letter, 0xf6f4),
    ("DoubleStruckP", Letter, 0xf6f5),
    ("DoubleStruckQ", Letter, 0xf6f6),
    ("DoubleStruckR", Letter, 0xf6f7),
    ("DoubleStruckS", Letter, 0xf6f8),
    ("DoubleStruckT", Letter, 0xf6f9),
    ("DoubleStruckU", Letter, 0xf6fa),
    ("DoubleStruckV", Letter, 0xf6fb),
    ("DoubleStruckW", Letter, 0xf6fc),
    ("DoubleStruckX", Letter, 0xf6fd),
    ("DoubleStruckY", Letter, 0xf6fe),
    ("DoubleStruckZ", Letter, 0xf6ff),
    ("DotlessJ", Letter, 0xf700),
    ("Wolf", Letter, 0xf720),
    ("FreakedSmiley", Letter, 0xf721),
    ("NeutralSmiley", Letter, 0xf722),
    ("LightBulb", Letter, 0xf723),
    ("NumberSign", Letter, 0xf724),
    ("WarningSign", Letter, 0xf725),
    ("Villa", Letter, 0xf727),
    ("Akuz", Letter, 0xf728),
    ("Andy", Letter, 0xf729),
    ("Spooky", Letter, 0xf72a),
    ("ScriptDotlessI", Letter, 0xf730),
    ("ScriptDotlessJ", Letter, 0xf731),
    ("DoubledPi", Letter, 0xf749),
    ("DoubledGamma", Letter, 0xf74a),
    ("CapitalDifferentialD", Punct, 0xf74b),
    ("DifferentialD", Punct, 0xf74c),
    ("ExponentialE", Letter, 0xf74d),
    ("ImaginaryI", Letter, 0xf74e),
    ("ImaginaryJ", Letter, 0xf74f),
    ("FilledSmallCircle", Letter, 0xf750),
    ("DottedSquare", Letter, 0xf751),
    ("GraySquare", Letter, 0xf752),
    ("GrayCircle", Letter, 0xf753),
    ("LetterSpace", Letter, 0xf754),
    ("DownBreve", Letter, 0xf755),
    ("KernelIcon", Letter, 0xf756),
    ("MathematicaIcon", Letter, 0xf757),
    ("TripleDot", Letter, 0xf758),
    ("SystemEnterKey", Letter, 0xf75f),
    ("AlignmentMarker", Space, 0xf760),
    ("LeftSkeleton", Uninterpretable, 0xf761),
    ("RightSkeleton", Uninterpretable, 0xf762),
    ("ControlKey", Letter, 0xf763),
    ("AliasDelimiter", Letter, 0xf764),
    ("InvisibleComma", Punct, 0xf765),
    ("ReturnKey", Letter, 0xf766),
    ("ErrorIndicator", Uninterpretable, 0xf767),
    ("AliasIndicator", Letter, 0xf768),
    ("EscapeKey", Letter, 0xf769),
    ("CommandKey", Letter, 0xf76a),
    ("LeftModified", Letter, 0xf76b),
    ("RightModified", Letter, 0xf76c),
    ("InvisibleApplication", Punct, 0xf76d),
    ("DiscretionaryLineSeparator", Newline, 0xf76e),
    ("DiscretionaryParagraphSeparator", Newline, 0xf76f),
    ("ScriptCapitalA", Letter, 0xf770),
    ("ScriptCapitalC", Letter, 0xf772),
    ("ScriptCapitalD", Letter, 0xf773),
    ("ScriptCapitalG", Letter, 0xf776),
    ("ScriptCapitalJ", Letter, 0xf779),
    ("ScriptCapitalK", Letter, 0xf77a),
    ("ScriptCapitalN", Letter, 0xf77d),
    ("ScriptCapitalO", Letter, 0xf77e),
    ("ScriptCapitalP", Letter, 0xf77f),
    ("ScriptCapitalQ", Letter, 0xf780),
    ("ScriptCapitalS", Letter, 0xf782),
    ("ScriptCapitalT", Letter, 0xf783),
    ("ScriptCapitalU", Letter, 0xf784),
    ("ScriptCapitalV", Letter, 0xf785),
    ("ScriptCapitalW", Letter, 0xf786),
    ("ScriptCapitalX", Letter, 0xf787),
    ("ScriptCapitalY", Letter, 0xf788),
    ("ScriptCapitalZ", Letter, 0xf789),
    ("GothicCapitalA", Letter, 0xf78a),
    ("GothicCapitalB", Letter, 0xf78b),
    ("GothicCapitalD", Letter, 0xf78d),
    ("GothicCapitalE", Letter, 0xf78e),
    ("GothicCapitalF", Letter, 0xf78f),
    ("GothicCapitalG", Letter, 0xf790),
    ("GothicCapitalJ", Letter, 0xf793),
    ("GothicCapitalK", Letter, 0xf794),
    ("GothicCapitalL", Letter, 0xf795),
    ("GothicCapitalM", Letter, 0xf796),
    ("GothicCapitalN", Letter, 0xf797),
    ("GothicCapitalO", Letter, 0xf798),
    ("GothicCapitalP", Letter, 0xf799),
    ("GothicCapitalQ", Letter, 0xf79a),
    ("GothicCapitalS", Letter, 0xf79c),
    ("GothicCapitalT", Letter, 0xf79d),
    ("GothicCapitalU", Letter, 0xf79e),
    ("GothicCapitalV", Letter, 0xf79f),
    ("GothicCapitalW", Letter, 0xf7a0),
    ("GothicCapitalX", Letter, 0xf7a1),
    ("GothicCapitalY", Letter, 0xf7a2),
    ("DoubleStruckCapitalA", Letter, 0xf7a4),
    ("DoubleStruckCapitalB", Letter, 0xf7a5),
    ("DoubleStruckCapitalC", Letter, 0xf7a6),
    ("DoubleStruckCapitalD", Letter, 0xf7a7),
    ("DoubleStruckCapitalE", Letter, 0xf7a8),
    ("DoubleStruckCapitalF", Letter, 0xf7a9),
    ("DoubleStruckCapitalG", Letter, 0xf7aa),
    ("DoubleStruckCapitalH", Letter, 0xf7ab),
    ("DoubleStruckCapitalI", Letter, 0xf7ac),
    ("DoubleStruckCapitalJ", Letter, 0xf7ad),
    ("DoubleStruckCapitalK", Letter, 0xf7ae),
    ("DoubleStruckCapitalL", Letter, 0xf7af),
    ("DoubleStruckCapitalM", Letter, 0xf7b0),
    ("DoubleStruckCapitalN", Letter, 0xf7b1),
    ("DoubleStruckCapitalO", Letter, 0xf7b2),
    ("DoubleStruckCapitalP", Letter, 0xf7b3),
    ("DoubleStruckCapitalQ", Letter, 0xf7b4),
    ("DoubleStruckCapitalR", Letter, 0xf7b5),
    ("DoubleStruckCapitalS", Letter, 0xf7b6),
    ("DoubleStruckCapitalT", Letter, 0xf7b7),
    ("DoubleStruckCapitalU", Letter, 0xf7b8),
    ("DoubleStruckCapitalV", Letter, 0xf7b9),
    ("DoubleStruckCapitalW", Letter, 0xf7ba),
    ("DoubleStruckCapitalX", Letter, 0xf7bb),
    ("DoubleStruckCapitalY", Letter, 0xf7bc),
    ("DoubleStruckCapitalZ", Letter, 0xf7bd),
    ("TabKey", Letter, 0xf7be),
    ("SpaceKey", Letter, 0xf7bf),
    ("DeleteKey", Letter, 0xf7d0),
    ("AltKey", Letter, 0xf7d1),
    ("OptionKey", Letter, 0xf7d2),
    ("KeyBar", Letter, 0xf7d3),
    ("EnterKey", Letter, 0xf7d4),
    ("ShiftKey", Letter, 0xf7d5),
    ("Mod1Key", Letter, 0xf7d6),
    ("Mod2Key", Letter, 0xf7d7),
    ("LongEqual", Punct, 0xf7d9),
    ("ConstantC", Letter, 0xf7da),
    ("DoubleStruckZero", Letter, 0xf7db),
    ("DoubleStruckOne", Letter, 0xf7dc),
    ("DoubleStruckTwo", Letter, 0xf7dd),
    ("DoubleStruckThree", Letter, 0xf7de),
    ("DoubleStruckFour", Letter, 0xf7df),
    ("DoubleStruckFive", Letter, 0xf7e0),
    ("DoubleStruckSix", Letter, 0xf7e1),
    ("DoubleStruckSeven", Letter, 0xf7e2),
    ("DoubleStruckEight", Letter, 0xf7e3),
    ("DoubleStruckNine", Letter, 0xf7e4),
    ("GothicZero", Letter, 0xf7e5),
    ("GothicOne", Letter, 0xf7e6),
    ("GothicTwo", Letter, 0xf7e7),
    ("GothicThree", Letter, 0xf7e8),
    ("GothicFour", Letter, 0xf7e9),
    ("GothicFive", Letter, 0xf7ea),
    ("GothicSix", Letter, 0xf7eb),
    ("GothicSeven", Letter, 0xf7ec),
    ("GothicEight", Letter, 0xf7ed),
    ("GothicNine", Letter, 0xf7ef),
    ("ScriptZero", Letter, 0xf7f0),
    ("ScriptOne", Letter, 0xf7f1),
    ("ScriptTwo", Letter, 0xf7f2),
    ("ScriptThree", Letter, 0xf7f3),
    ("ScriptFour", Letter, 0xf7f4),
    ("ScriptFive", Letter, 0xf7f5),
    ("ScriptSix", Letter, 0xf7f6),
    ("ScriptSeven", Letter, 0xf7f7),
    ("ScriptEight", Letter, 0xf7f8),
    ("ScriptNine", Letter, 0xf7f9),
    ("FirstPage", Letter, 0xf7fa),
    ("LastPage", Letter, 0xf7fb),
    ("NumberComma", Letter, 0xf7fc),
    ("FormalA", Letter, 0xf800),
    ("FormalB", Letter, 0xf801),
    ("FormalC", Letter, 0xf802),
    ("FormalD", Letter, 0xf803),
    ("FormalE", Letter, 0xf804),
    ("FormalF", Letter, 0xf805),
    ("FormalG", Letter, 0xf806),
    ("FormalH", Letter, 0xf807),
    ("FormalI", Letter, 0xf808),
    ("FormalJ", Letter, 0xf809),
    ("FormalK", Letter, 0xf80a),
    ("FormalL", Letter, 0xf80b),
    ("FormalM", Letter, 0xf80c),
    ("FormalN", Letter, 0xf80d),
    ("FormalO", Letter, 0xf80e),
    ("FormalP", Letter, 0xf80f),
    ("FormalQ", Letter, 0xf810),
    ("FormalR", Letter, 0xf811),
    ("FormalS", Letter, 0xf812),
    ("FormalT", Letter, 0xf813),
    ("FormalU", Letter, 0xf814),
    ("FormalV", Letter, 0xf815),
    ("FormalW", Letter, 0xf816),
    ("FormalX", Letter, 0xf817),
    ("FormalY", Letter, 0xf818),
    ("FormalZ", Letter, 0xf819),
    ("FormalCapitalA", Letter, 0xf81a),
    ("FormalCapitalB", Letter, 0xf81b),
    ("FormalCapitalC", Letter, 0xf81c),
    ("FormalCapitalD", Letter, 0xf81d),
    ("FormalCapitalE", Letter, 0xf81e),
    ("FormalCapitalF", Letter, 0xf81f),
    ("FormalCapitalG", Letter, 0xf820),
    ("FormalCapitalH", Letter, 0xf821),
    ("FormalCapitalI", Letter, 0xf822),
    ("FormalCapitalJ", Letter, 0xf823),
    ("FormalCapitalK", Letter, 0xf824),
    ("FormalCapitalL", Letter, 0xf825),
    ("FormalCapitalM", Letter, 0xf826),
    ("FormalCapitalN", Letter, 0xf827),
    ("FormalCapitalO", Letter, 0xf828),
    ("FormalCapitalP", Letter, 0xf829),
    ("FormalCapitalQ", Letter, 0xf82a),
    ("FormalCapitalR", Letter, 0xf82b),
    ("FormalCapitalS", Letter, 0xf82c),
    ("FormalCapitalT", Letter, 0xf82d),
    ("FormalCapitalU", Letter, 0xf82e),
    ("FormalCapitalV", Letter, 0xf82f),
    ("FormalCapitalW", Letter, 0xf830),
    ("FormalCapitalX", Letter, 0xf831),
    ("FormalCapitalY", Letter, 0xf832),
    ("FormalCapitalZ", Letter, 0xf833),
    ("FormalCapitalAlpha", Letter, 0xf834),
    ("FormalCapitalBeta", Letter, 0xf835),
    ("FormalCapitalGamma", Letter, 0xf836),
    ("FormalCapitalDelta", Letter, 0xf837),
    ("FormalCapitalEpsilon", Letter, 0xf838),
    ("FormalCapitalZeta", Letter, 0xf839),
    ("FormalCapitalEta", Letter, 0xf83a),
    ("FormalCapitalTheta", Letter, 0xf83b),
    ("FormalCapitalIota", Letter, 0xf83c),
    ("FormalCapitalKappa", Letter, 0xf83d),
    ("FormalCapitalLambda", Letter, 0xf83e),
    ("FormalCapitalMu", Letter, 0xf83f),
    ("FormalCapitalNu", Letter, 0xf840),
    ("FormalCapitalXi", Letter, 0xf841),
    ("FormalCapitalOmicron", Letter, 0xf842),
    ("FormalCapitalPi", Letter, 0xf843),
    ("FormalCapitalRho", Letter, 0xf844),
    ("FormalCapitalSigma", Letter, 0xf846),
    ("FormalCapitalTau", Letter, 0xf847),
    ("FormalCapitalUpsilon", Letter, 0xf848),
    ("FormalCapitalPhi", Letter, 0xf849),
    ("FormalCapitalChi", Letter, 0xf84a),
    ("FormalCapitalPsi", Letter, 0xf84b),
    ("FormalCapitalOmega", Letter, 0xf84c),
    ("FormalAlpha", Letter, 0xf854),
    ("FormalBeta", Letter, 0xf855),
    ("FormalGamma", Letter, 0xf856),
    ("FormalDelta", Letter, 0xf857),
    ("FormalCurlyEpsilon", Letter, 0xf858),
    ("FormalZeta", Letter, 0xf859),
    ("FormalEta", Letter, 0xf85a),
    ("FormalTheta", Letter, 0xf85b),
    ("FormalIota", Letter, 0xf85c),
    ("FormalKappa", Letter, 0xf85d),
    ("FormalLambda", Letter, 0xf85e),
    ("FormalMu", Letter, 0xf85f),
    ("FormalNu", Letter, 0xf860),
    ("FormalXi", Letter, 0xf861),
    ("FormalOmicron", Letter, 0xf862),
    ("FormalPi", Letter, 0xf863),
    ("FormalRho", Letter, 0xf864),
    ("FormalFinalSigma", Letter, 0xf865),
    ("FormalSigma", Letter, 0xf866),
    ("FormalTau", Letter, 0xf867),
    ("FormalUpsilon", Letter, 0xf868),
    ("FormalCurlyPhi", Letter, 0xf869),
    ("FormalChi", Letter, 0xf86a),
    ("FormalPsi", Letter, 0xf86b),
    ("FormalOmega", Letter, 0xf86c),
    ("FormalCurlyTheta", Letter, 0xf874),
    ("FormalCurlyCapitalUpsilon", Letter, 0xf875),
    ("FormalPhi", Letter, 0xf878),
    ("FormalCurlyPi", Letter, 0xf879),
    ("FormalCapitalStigma", Letter, 0xf87d),
    ("FormalStigma", Letter, 0xf87e),
    ("FormalCapitalDigamma", Letter, 0xf87f),
    ("FormalDigamma", Letter, 0xf880),
    ("FormalCapitalKoppa", Letter, 0xf881),
    ("FormalKoppa", Letter, 0xf882),
    ("FormalCapitalSampi", Letter, 0xf883),
    ("FormalSampi", Letter, 0xf884),
    ("FormalCurlyKappa", Letter, 0xf885),
    ("FormalCurlyRho", Letter, 0xf886),
    ("FormalEpsilon", Letter, 0xf88a),
    ("FiLigature", Letter, 0xfb01),
    ("FlLigature", Letter, 0xfb02),
    ("OverParenthesis", Letter, 0xfe35),
    ("UnderParenthesis", Letter, 0xfe36),
    ("OverBrace", Letter, 0xfe37),
    ("UnderBrace", Letter, 0xfe38),
    ("UnknownGlyph", Letter, 0xfffd),
    ("FormalScriptA", Letter, 0xfa000),
    ("FormalScriptB", Letter, 0xfa001),
    ("FormalScriptC", Letter, 0xfa002),
    ("FormalScriptD", Letter, 0xfa003),
    ("FormalScriptE", Letter, 0xfa004),
    ("FormalScriptF", Letter, 0xfa005),
    ("FormalScriptG", Letter, 0xfa006),
    ("FormalScriptH", Letter, 0xfa007),
    ("FormalScriptI", Letter, 0xfa008),
    ("FormalScriptJ", Letter, 0xfa009),
    ("FormalScriptK", Letter, 0xfa00a),
    ("FormalScriptL", Letter, 0xfa00b),
    ("FormalScriptM", Letter, 0xfa00c),
    ("FormalScriptN", Letter, 0xfa00d),
    ("FormalScriptO", Letter, 0xfa00e),
    ("FormalScriptP", Letter, 0xfa00f),
    ("FormalScriptQ", Letter, 0xfa010),
    ("FormalScriptR", Letter, 0xfa011),
    ("FormalScriptS", Letter, 0xfa012),
    ("FormalScriptT", Letter, 0xfa013),
    ("FormalScriptU", Letter, 0xfa014),
    ("FormalScriptV", Letter, 0xfa015),
    ("FormalScriptW", Letter, 0xfa016),
    ("FormalScriptX", Letter, 0xfa017),
    ("FormalScriptY", Letter, 0xfa018),
    ("FormalScriptZ", Letter, 0xfa019),
    ("FormalScriptCapitalA", Letter, 0xfa01a),
    ("FormalScriptCapitalB", Letter, 0xfa01b),
    ("FormalScriptCapitalC", Letter, 0xfa01c),
    ("FormalScriptCapitalD", Letter, 0xfa01d),
    ("FormalScriptCapitalE", Letter, 0xfa01e),
    ("FormalScriptCapitalF", Letter, 0xfa01f),
    ("FormalScriptCapitalG", Letter, 0xfa020),
    ("FormalScriptCapitalH", Letter, 0xfa021),
    ("FormalScriptCapitalI", Letter, 0xfa022),
    ("FormalScriptCapitalJ", Letter, 0xfa023),
    ("FormalScriptCapitalK", Letter, 0xfa024),
    ("FormalScriptCapitalL", Letter, 0xfa025),
    ("FormalScriptCapitalM", Letter, 0xfa026),
    ("FormalScriptCapitalN", Letter, 0xfa027),
    ("FormalScriptCapitalO", Letter, 0xfa028),
    ("FormalScriptCapitalP", Letter, 0xfa029),
    ("FormalScriptCapitalQ", Letter, 0xfa02a),
    ("FormalScriptCapitalR", Letter, 0xfa02b),
    ("FormalScriptCapitalS", Letter, 0xfa02c),
    ("FormalScriptCapitalT", Letter, 0xfa02d),
    ("FormalScriptCapitalU", Letter, 0xfa02e),
    ("FormalScriptCapitalV", Letter, 0xfa02f),
    ("FormalScriptCapitalW", Letter, 0xfa030),
    ("FormalScriptCapitalX", Letter, 0xfa031),
    ("FormalScriptCapitalY", Letter, 0xfa032),
    ("FormalScriptCapitalZ", Letter, 0xfa033),
];
