// Generated by tools/gen_optable.py from CodeParser/Data/*.wl; frozen.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Binary, Infix, Prefix, Postfix }
#[derive(Clone, Copy, Debug)]
pub struct Op { pub kind: Kind, pub text: &'static str, pub prec: u32, pub right: bool, pub name: &'static str }
pub const OPS: [Op; 327] = [
    Op { kind: Kind::Binary, text: r"/", prec: 61, right: false, name: "Divide" },
    Op { kind: Kind::Binary, text: r"^", prec: 75, right: true, name: "Power" },
    Op { kind: Kind::Binary, text: r"^=", prec: 4, right: true, name: "UpSet" },
    Op { kind: Kind::Binary, text: r"^:=", prec: 4, right: true, name: "UpSetDelayed" },
    Op { kind: Kind::Binary, text: r"/@", prec: 80, right: true, name: "Map" },
    Op { kind: Kind::Binary, text: r"->", prec: 15, right: true, name: "Rule" },
    Op { kind: Kind::Binary, text: r"@@", prec: 80, right: true, name: "Apply" },
    Op { kind: Kind::Binary, text: r"/;", prec: 17, right: false, name: "Condition" },
    Op { kind: Kind::Binary, text: r"/.", prec: 14, right: false, name: "ReplaceAll" },
    Op { kind: Kind::Binary, text: r":>", prec: 15, right: true, name: "RuleDelayed" },
    Op { kind: Kind::Binary, text: r"//.", prec: 14, right: false, name: "ReplaceRepeated" },
    Op { kind: Kind::Binary, text: r"+=", prec: 13, right: true, name: "AddTo" },
    Op { kind: Kind::Binary, text: r"*=", prec: 13, right: true, name: "TimesBy" },
    Op { kind: Kind::Binary, text: r"-=", prec: 13, right: true, name: "SubtractFrom" },
    Op { kind: Kind::Binary, text: r"/=", prec: 13, right: true, name: "DivideBy" },
    Op { kind: Kind::Binary, text: r"<->", prec: 16, right: true, name: "TwoWayRule" },
    Op { kind: Kind::Binary, text: r"//@", prec: 80, right: true, name: "MapAll" },
    Op { kind: Kind::Binary, text: r"@", prec: 82, right: true, name: "BinaryAt" },
    Op { kind: Kind::Binary, text: r"@@@", prec: 80, right: true, name: "MapApply" },
    Op { kind: Kind::Binary, text: r"//", prec: 9, right: false, name: "BinarySlashSlash" },
    Op { kind: Kind::Binary, text: r"?", prec: 89, right: false, name: "PatternTest" },
    Op { kind: Kind::Binary, text: r"|->", prec: 4, right: true, name: "Function" },
    Op { kind: Kind::Binary, text: r"//=", prec: 10, right: true, name: "ApplyTo" },
    Op { kind: Kind::Binary, text: r"\[Divide]", prec: 61, right: false, name: "Divide" },
    Op { kind: Kind::Binary, text: r"\[DivisionSlash]", prec: 61, right: false, name: "Divide" },
    Op { kind: Kind::Binary, text: r"\[Implies]", prec: 27, right: true, name: "Implies" },
    Op { kind: Kind::Binary, text: r"\[RoundImplies]", prec: 27, right: true, name: "RoundImplies" },
    Op { kind: Kind::Binary, text: r"\[PlusMinus]", prec: 43, right: false, name: "PlusMinus" },
    Op { kind: Kind::Binary, text: r"\[DirectedEdge]", prec: 39, right: true, name: "DirectedEdge" },
    Op { kind: Kind::Binary, text: r"\[Rule]", prec: 15, right: true, name: "Rule" },
    Op { kind: Kind::Binary, text: r"\[RuleDelayed]", prec: 15, right: true, name: "RuleDelayed" },
    Op { kind: Kind::Binary, text: r"\[UndirectedEdge]", prec: 39, right: true, name: "UndirectedEdge" },
    Op { kind: Kind::Binary, text: r"\[Function]", prec: 4, right: true, name: "Function" },
    Op { kind: Kind::Binary, text: r"\[MinusPlus]", prec: 43, right: false, name: "MinusPlus" },
    Op { kind: Kind::Binary, text: r"\[TwoWayRule]", prec: 16, right: true, name: "TwoWayRule" },
    Op { kind: Kind::Binary, text: r"\[InvisibleApplication]", prec: 82, right: true, name: "BinaryAt" },
    Op { kind: Kind::Binary, text: r"\[CircleMinus]", prec: 47, right: false, name: "CircleMinus" },
    Op { kind: Kind::Binary, text: r"\[SuchThat]", prec: 23, right: true, name: "SuchThat" },
    Op { kind: Kind::Binary, text: r"\[Perpendicular]", prec: 24, right: false, name: "Perpendicular" },
    Op { kind: Kind::Binary, text: r"\[Because]", prec: 6, right: false, name: "Because" },
    Op { kind: Kind::Binary, text: r"\[Therefore]", prec: 7, right: true, name: "Therefore" },
    Op { kind: Kind::Binary, text: r"\[RightTee]", prec: 25, right: true, name: "RightTee" },
    Op { kind: Kind::Binary, text: r"\[LeftTee]", prec: 24, right: false, name: "LeftTee" },
    Op { kind: Kind::Binary, text: r"\[DoubleRightTee]", prec: 25, right: true, name: "DoubleRightTee" },
    Op { kind: Kind::Binary, text: r"\[DoubleLeftTee]", prec: 24, right: false, name: "DoubleLeftTee" },
    Op { kind: Kind::Binary, text: r"\[UpTee]", prec: 24, right: false, name: "UpTee" },
    Op { kind: Kind::Binary, text: r"\[DownTee]", prec: 24, right: false, name: "DownTee" },
    Op { kind: Kind::Binary, text: r"\[Application]", prec: 83, right: false, name: "Application" },
    Op { kind: Kind::Infix, text: r"-", prec: 43, right: false, name: "Plus" },
    Op { kind: Kind::Infix, text: r"===", prec: 35, right: false, name: "SameQ" },
    Op { kind: Kind::Infix, text: r"=!=", prec: 35, right: false, name: "UnsameQ" },
    Op { kind: Kind::Infix, text: r"+", prec: 43, right: false, name: "Plus" },
    Op { kind: Kind::Infix, text: r".", prec: 63, right: false, name: "Dot" },
    Op { kind: Kind::Infix, text: r"**", prec: 66, right: false, name: "NonCommutativeMultiply" },
    Op { kind: Kind::Infix, text: r"&&", prec: 31, right: false, name: "And" },
    Op { kind: Kind::Infix, text: r"||", prec: 29, right: false, name: "Or" },
    Op { kind: Kind::Infix, text: r"|", prec: 21, right: false, name: "Alternatives" },
    Op { kind: Kind::Infix, text: r"<>", prec: 76, right: false, name: "StringJoin" },
    Op { kind: Kind::Infix, text: r"~~", prec: 18, right: false, name: "StringExpression" },
    Op { kind: Kind::Infix, text: r"@*", prec: 85, right: false, name: "Composition" },
    Op { kind: Kind::Infix, text: r"/*", prec: 84, right: false, name: "RightComposition" },
    Op { kind: Kind::Infix, text: r"\[Element]", prec: 34, right: false, name: "Element" },
    Op { kind: Kind::Infix, text: r"\[Subset]", prec: 34, right: false, name: "Subset" },
    Op { kind: Kind::Infix, text: r"\[Superset]", prec: 34, right: false, name: "Superset" },
    Op { kind: Kind::Infix, text: r"\[SubsetEqual]", prec: 34, right: false, name: "SubsetEqual" },
    Op { kind: Kind::Infix, text: r"\[SupersetEqual]", prec: 34, right: false, name: "SupersetEqual" },
    Op { kind: Kind::Infix, text: r"\[NotElement]", prec: 34, right: false, name: "NotElement" },
    Op { kind: Kind::Infix, text: r"\[NotSubset]", prec: 34, right: false, name: "NotSubset" },
    Op { kind: Kind::Infix, text: r"\[NotSuperset]", prec: 34, right: false, name: "NotSuperset" },
    Op { kind: Kind::Infix, text: r"\[NotSubsetEqual]", prec: 34, right: false, name: "NotSubsetEqual" },
    Op { kind: Kind::Infix, text: r"\[NotSupersetEqual]", prec: 34, right: false, name: "NotSupersetEqual" },
    Op { kind: Kind::Infix, text: r"\[SquareSubset]", prec: 34, right: false, name: "SquareSubset" },
    Op { kind: Kind::Infix, text: r"\[SquareSuperset]", prec: 34, right: false, name: "SquareSuperset" },
    Op { kind: Kind::Infix, text: r"\[NotSquareSubset]", prec: 34, right: false, name: "NotSquareSubset" },
    Op { kind: Kind::Infix, text: r"\[NotSquareSuperset]", prec: 34, right: false, name: "NotSquareSuperset" },
    Op { kind: Kind::Infix, text: r"\[SquareSubsetEqual]", prec: 34, right: false, name: "SquareSubsetEqual" },
    Op { kind: Kind::Infix, text: r"\[SquareSupersetEqual]", prec: 34, right: false, name: "SquareSupersetEqual" },
    Op { kind: Kind::Infix, text: r"\[NotSquareSubsetEqual]", prec: 34, right: false, name: "NotSquareSubsetEqual" },
    Op { kind: Kind::Infix, text: r"\[NotSquareSupersetEqual]", prec: 34, right: false, name: "NotSquareSupersetEqual" },
    Op { kind: Kind::Infix, text: r"\[ReverseElement]", prec: 34, right: false, name: "ReverseElement" },
    Op { kind: Kind::Infix, text: r"\[NotReverseElement]", prec: 34, right: false, name: "NotReverseElement" },
    Op { kind: Kind::Infix, text: r"\[Distributed]", prec: 34, right: false, name: "Distributed" },
    Op { kind: Kind::Infix, text: r"\[ImplicitPlus]", prec: 44, right: false, name: "Plus" },
    Op { kind: Kind::Infix, text: r"\[And]", prec: 31, right: false, name: "And" },
    Op { kind: Kind::Infix, text: r"\[Or]", prec: 29, right: false, name: "Or" },
    Op { kind: Kind::Infix, text: r"\[Xor]", prec: 30, right: false, name: "Xor" },
    Op { kind: Kind::Infix, text: r"\[Nand]", prec: 31, right: false, name: "Nand" },
    Op { kind: Kind::Infix, text: r"\[Nor]", prec: 29, right: false, name: "Nor" },
    Op { kind: Kind::Infix, text: r"\[LeftArrow]", prec: 36, right: false, name: "LeftArrow" },
    Op { kind: Kind::Infix, text: r"\[RightArrow]", prec: 36, right: false, name: "RightArrow" },
    Op { kind: Kind::Infix, text: r"\[LeftRightArrow]", prec: 36, right: false, name: "LeftRightArrow" },
    Op { kind: Kind::Infix, text: r"\[LeftTeeArrow]", prec: 36, right: false, name: "LeftTeeArrow" },
    Op { kind: Kind::Infix, text: r"\[RightTeeArrow]", prec: 36, right: false, name: "RightTeeArrow" },
    Op { kind: Kind::Infix, text: r"\[RightArrowLeftArrow]", prec: 36, right: false, name: "RightArrowLeftArrow" },
    Op { kind: Kind::Infix, text: r"\[LeftArrowRightArrow]", prec: 36, right: false, name: "LeftArrowRightArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleLeftArrow]", prec: 36, right: false, name: "DoubleLeftArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleRightArrow]", prec: 36, right: false, name: "DoubleRightArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleLeftRightArrow]", prec: 36, right: false, name: "DoubleLeftRightArrow" },
    Op { kind: Kind::Infix, text: r"\[LeftArrowBar]", prec: 36, right: false, name: "LeftArrowBar" },
    Op { kind: Kind::Infix, text: r"\[RightArrowBar]", prec: 36, right: false, name: "RightArrowBar" },
    Op { kind: Kind::Infix, text: r"\[ShortRightArrow]", prec: 36, right: false, name: "ShortRightArrow" },
    Op { kind: Kind::Infix, text: r"\[ShortLeftArrow]", prec: 36, right: false, name: "ShortLeftArrow" },
    Op { kind: Kind::Infix, text: r"\[UpperLeftArrow]", prec: 36, right: false, name: "UpperLeftArrow" },
    Op { kind: Kind::Infix, text: r"\[UpperRightArrow]", prec: 36, right: false, name: "UpperRightArrow" },
    Op { kind: Kind::Infix, text: r"\[LowerRightArrow]", prec: 36, right: false, name: "LowerRightArrow" },
    Op { kind: Kind::Infix, text: r"\[LowerLeftArrow]", prec: 36, right: false, name: "LowerLeftArrow" },
    Op { kind: Kind::Infix, text: r"\[LeftVector]", prec: 36, right: false, name: "LeftVector" },
    Op { kind: Kind::Infix, text: r"\[RightVector]", prec: 36, right: false, name: "RightVector" },
    Op { kind: Kind::Infix, text: r"\[LeftRightVector]", prec: 36, right: false, name: "LeftRightVector" },
    Op { kind: Kind::Infix, text: r"\[LeftVectorBar]", prec: 36, right: false, name: "LeftVectorBar" },
    Op { kind: Kind::Infix, text: r"\[RightVectorBar]", prec: 36, right: false, name: "RightVectorBar" },
    Op { kind: Kind::Infix, text: r"\[LeftTeeVector]", prec: 36, right: false, name: "LeftTeeVector" },
    Op { kind: Kind::Infix, text: r"\[RightTeeVector]", prec: 36, right: false, name: "RightTeeVector" },
    Op { kind: Kind::Infix, text: r"\[DownLeftVector]", prec: 36, right: false, name: "DownLeftVector" },
    Op { kind: Kind::Infix, text: r"\[DownRightVector]", prec: 36, right: false, name: "DownRightVector" },
    Op { kind: Kind::Infix, text: r"\[DownLeftRightVector]", prec: 36, right: false, name: "DownLeftRightVector" },
    Op { kind: Kind::Infix, text: r"\[DownLeftVectorBar]", prec: 36, right: false, name: "DownLeftVectorBar" },
    Op { kind: Kind::Infix, text: r"\[DownRightVectorBar]", prec: 36, right: false, name: "DownRightVectorBar" },
    Op { kind: Kind::Infix, text: r"\[DownLeftTeeVector]", prec: 36, right: false, name: "DownLeftTeeVector" },
    Op { kind: Kind::Infix, text: r"\[DownRightTeeVector]", prec: 36, right: false, name: "DownRightTeeVector" },
    Op { kind: Kind::Infix, text: r"\[UpArrow]", prec: 74, right: false, name: "UpArrow" },
    Op { kind: Kind::Infix, text: r"\[DownArrow]", prec: 74, right: false, name: "DownArrow" },
    Op { kind: Kind::Infix, text: r"\[UpDownArrow]", prec: 74, right: false, name: "UpDownArrow" },
    Op { kind: Kind::Infix, text: r"\[UpTeeArrow]", prec: 74, right: false, name: "UpTeeArrow" },
    Op { kind: Kind::Infix, text: r"\[DownTeeArrow]", prec: 74, right: false, name: "DownTeeArrow" },
    Op { kind: Kind::Infix, text: r"\[UpArrowDownArrow]", prec: 74, right: false, name: "UpArrowDownArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleUpArrow]", prec: 74, right: false, name: "DoubleUpArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleDownArrow]", prec: 74, right: false, name: "DoubleDownArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleUpDownArrow]", prec: 74, right: false, name: "DoubleUpDownArrow" },
    Op { kind: Kind::Infix, text: r"\[DownArrowUpArrow]", prec: 74, right: false, name: "DownArrowUpArrow" },
    Op { kind: Kind::Infix, text: r"\[LongLeftArrow]", prec: 74, right: false, name: "LongLeftArrow" },
    Op { kind: Kind::Infix, text: r"\[LongRightArrow]", prec: 74, right: false, name: "LongRightArrow" },
    Op { kind: Kind::Infix, text: r"\[LongLeftRightArrow]", prec: 74, right: false, name: "LongLeftRightArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleLongLeftArrow]", prec: 74, right: false, name: "DoubleLongLeftArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleLongRightArrow]", prec: 74, right: false, name: "DoubleLongRightArrow" },
    Op { kind: Kind::Infix, text: r"\[DoubleLongLeftRightArrow]", prec: 74, right: false, name: "DoubleLongLeftRightArrow" },
    Op { kind: Kind::Infix, text: r"\[UpArrowBar]", prec: 74, right: false, name: "UpArrowBar" },
    Op { kind: Kind::Infix, text: r"\[DownArrowBar]", prec: 74, right: false, name: "DownArrowBar" },
    Op { kind: Kind::Infix, text: r"\[ShortUpArrow]", prec: 74, right: false, name: "ShortUpArrow" },
    Op { kind: Kind::Infix, text: r"\[ShortDownArrow]", prec: 74, right: false, name: "ShortDownArrow" },
    Op { kind: Kind::Infix, text: r"\[RightUpVector]", prec: 74, right: false, name: "RightUpVector" },
    Op { kind: Kind::Infix, text: r"\[LeftUpVector]", prec: 74, right: false, name: "LeftUpVector" },
    Op { kind: Kind::Infix, text: r"\[RightDownVector]", prec: 74, right: false, name: "RightDownVector" },
    Op { kind: Kind::Infix, text: r"\[LeftDownVector]", prec: 74, right: false, name: "LeftDownVector" },
    Op { kind: Kind::Infix, text: r"\[RightUpDownVector]", prec: 74, right: false, name: "RightUpDownVector" },
    Op { kind: Kind::Infix, text: r"\[LeftUpDownVector]", prec: 74, right: false, name: "LeftUpDownVector" },
    Op { kind: Kind::Infix, text: r"\[RightUpVectorBar]", prec: 74, right: false, name: "RightUpVectorBar" },
    Op { kind: Kind::Infix, text: r"\[RightDownVectorBar]", prec: 74, right: false, name: "RightDownVectorBar" },
    Op { kind: Kind::Infix, text: r"\[LeftUpVectorBar]", prec: 74, right: false, name: "LeftUpVectorBar" },
    Op { kind: Kind::Infix, text: r"\[LeftDownVectorBar]", prec: 74, right: false, name: "LeftDownVectorBar" },
    Op { kind: Kind::Infix, text: r"\[RightUpTeeVector]", prec: 74, right: false, name: "RightUpTeeVector" },
    Op { kind: Kind::Infix, text: r"\[RightDownTeeVector]", prec: 74, right: false, name: "RightDownTeeVector" },
    Op { kind: Kind::Infix, text: r"\[LeftUpTeeVector]", prec: 74, right: false, name: "LeftUpTeeVector" },
    Op { kind: Kind::Infix, text: r"\[LeftDownTeeVector]", prec: 74, right: false, name: "LeftDownTeeVector" },
    Op { kind: Kind::Infix, text: r"\[UpEquilibrium]", prec: 74, right: false, name: "UpEquilibrium" },
    Op { kind: Kind::Infix, text: r"\[ReverseUpEquilibrium]", prec: 74, right: false, name: "ReverseUpEquilibrium" },
    Op { kind: Kind::Infix, text: r"\[CenterDot]", prec: 55, right: false, name: "CenterDot" },
    Op { kind: Kind::Infix, text: r"\[Equivalent]", prec: 28, right: false, name: "Equivalent" },
    Op { kind: Kind::Infix, text: r"\[CircleDot]", prec: 67, right: false, name: "CircleDot" },
    Op { kind: Kind::Infix, text: r"\[Conditioned]", prec: 26, right: false, name: "Conditioned" },
    Op { kind: Kind::Infix, text: r"\[Union]", prec: 41, right: false, name: "Union" },
    Op { kind: Kind::Infix, text: r"\[SquareUnion]", prec: 41, right: false, name: "SquareUnion" },
    Op { kind: Kind::Infix, text: r"\[UnionPlus]", prec: 41, right: false, name: "UnionPlus" },
    Op { kind: Kind::Infix, text: r"\[Intersection]", prec: 42, right: false, name: "Intersection" },
    Op { kind: Kind::Infix, text: r"\[SquareIntersection]", prec: 42, right: false, name: "SquareIntersection" },
    Op { kind: Kind::Infix, text: r"\[TensorWedge]", prec: 65, right: false, name: "TensorWedge" },
    Op { kind: Kind::Infix, text: r"\[TensorProduct]", prec: 64, right: false, name: "TensorProduct" },
    Op { kind: Kind::Infix, text: r"\[Cross]", prec: 65, right: false, name: "Cross" },
    Op { kind: Kind::Infix, text: r"\[SmallCircle]", prec: 68, right: false, name: "SmallCircle" },
    Op { kind: Kind::Infix, text: r"\[Divides]", prec: 61, right: false, name: "Divisible" },
    Op { kind: Kind::Infix, text: r"\[VerticalSeparator]", prec: 8, right: false, name: "VerticalSeparator" },
    Op { kind: Kind::Infix, text: r"\[Backslash]", prec: 60, right: false, name: "Backslash" },
    Op { kind: Kind::Infix, text: r"\[Diamond]", prec: 59, right: false, name: "Diamond" },
    Op { kind: Kind::Infix, text: r"\[Wedge]", prec: 58, right: false, name: "Wedge" },
    Op { kind: Kind::Infix, text: r"\[Vee]", prec: 57, right: false, name: "Vee" },
    Op { kind: Kind::Infix, text: r"\[CircleTimes]", prec: 56, right: false, name: "CircleTimes" },
    Op { kind: Kind::Infix, text: r"\[Star]", prec: 53, right: false, name: "Star" },
    Op { kind: Kind::Infix, text: r"\[VerticalTilde]", prec: 51, right: false, name: "VerticalTilde" },
    Op { kind: Kind::Infix, text: r"\[Coproduct]", prec: 50, right: false, name: "Coproduct" },
    Op { kind: Kind::Infix, text: r"\[Cap]", prec: 49, right: false, name: "Cap" },
    Op { kind: Kind::Infix, text: r"\[Cup]", prec: 48, right: false, name: "Cup" },
    Op { kind: Kind::Infix, text: r"\[CirclePlus]", prec: 47, right: false, name: "CirclePlus" },
    Op { kind: Kind::Infix, text: r"\[VerticalBar]", prec: 37, right: false, name: "VerticalBar" },
    Op { kind: Kind::Infix, text: r"\[DoubleVerticalBar]", prec: 37, right: false, name: "DoubleVerticalBar" },
    Op { kind: Kind::Infix, text: r"\[NotVerticalBar]", prec: 37, right: false, name: "NotVerticalBar" },
    Op { kind: Kind::Infix, text: r"\[NotDoubleVerticalBar]", prec: 37, right: false, name: "NotDoubleVerticalBar" },
    Op { kind: Kind::Infix, text: r"\[LeftTriangle]", prec: 38, right: false, name: "LeftTriangle" },
    Op { kind: Kind::Infix, text: r"\[RightTriangle]", prec: 38, right: false, name: "RightTriangle" },
    Op { kind: Kind::Infix, text: r"\[NotLeftTriangle]", prec: 38, right: false, name: "NotLeftTriangle" },
    Op { kind: Kind::Infix, text: r"\[NotRightTriangle]", prec: 38, right: false, name: "NotRightTriangle" },
    Op { kind: Kind::Infix, text: r"\[LeftTriangleEqual]", prec: 38, right: false, name: "LeftTriangleEqual" },
    Op { kind: Kind::Infix, text: r"\[RightTriangleEqual]", prec: 38, right: false, name: "RightTriangleEqual" },
    Op { kind: Kind::Infix, text: r"\[NotLeftTriangleEqual]", prec: 38, right: false, name: "NotLeftTriangleEqual" },
    Op { kind: Kind::Infix, text: r"\[NotRightTriangleEqual]", prec: 38, right: false, name: "NotRightTriangleEqual" },
    Op { kind: Kind::Infix, text: r"\[LeftTriangleBar]", prec: 38, right: false, name: "LeftTriangleBar" },
    Op { kind: Kind::Infix, text: r"\[RightTriangleBar]", prec: 38, right: false, name: "RightTriangleBar" },
    Op { kind: Kind::Infix, text: r"\[NotLeftTriangleBar]", prec: 38, right: false, name: "NotLeftTriangleBar" },
    Op { kind: Kind::Infix, text: r"\[NotRightTriangleBar]", prec: 38, right: false, name: "NotRightTriangleBar" },
    Op { kind: Kind::Infix, text: r"\[TildeEqual]", prec: 38, right: false, name: "TildeEqual" },
    Op { kind: Kind::Infix, text: r"\[NotTildeEqual]", prec: 38, right: false, name: "NotTildeEqual" },
    Op { kind: Kind::Infix, text: r"\[TildeFullEqual]", prec: 38, right: false, name: "TildeFullEqual" },
    Op { kind: Kind::Infix, text: r"\[NotTildeFullEqual]", prec: 38, right: false, name: "NotTildeFullEqual" },
    Op { kind: Kind::Infix, text: r"\[Tilde]", prec: 38, right: false, name: "Tilde" },
    Op { kind: Kind::Infix, text: r"\[NotTilde]", prec: 38, right: false, name: "NotTilde" },
    Op { kind: Kind::Infix, text: r"\[EqualTilde]", prec: 38, right: false, name: "EqualTilde" },
    Op { kind: Kind::Infix, text: r"\[NotEqualTilde]", prec: 38, right: false, name: "NotEqualTilde" },
    Op { kind: Kind::Infix, text: r"\[TildeTilde]", prec: 38, right: false, name: "TildeTilde" },
    Op { kind: Kind::Infix, text: r"\[NotTildeTilde]", prec: 38, right: false, name: "NotTildeTilde" },
    Op { kind: Kind::Infix, text: r"\[Proportional]", prec: 38, right: false, name: "Proportional" },
    Op { kind: Kind::Infix, text: r"\[Proportion]", prec: 38, right: false, name: "Proportion" },
    Op { kind: Kind::Infix, text: r"\[Congruent]", prec: 38, right: false, name: "Congruent" },
    Op { kind: Kind::Infix, text: r"\[NotCongruent]", prec: 38, right: false, name: "NotCongruent" },
    Op { kind: Kind::Infix, text: r"\[Equilibrium]", prec: 38, right: false, name: "Equilibrium" },
    Op { kind: Kind::Infix, text: r"\[ReverseEquilibrium]", prec: 38, right: false, name: "ReverseEquilibrium" },
    Op { kind: Kind::Infix, text: r"\[DotEqual]", prec: 38, right: false, name: "DotEqual" },
    Op { kind: Kind::Infix, text: r"\[Precedes]", prec: 38, right: false, name: "Precedes" },
    Op { kind: Kind::Infix, text: r"\[Succeeds]", prec: 38, right: false, name: "Succeeds" },
    Op { kind: Kind::Infix, text: r"\[PrecedesEqual]", prec: 38, right: false, name: "PrecedesEqual" },
    Op { kind: Kind::Infix, text: r"\[SucceedsEqual]", prec: 38, right: false, name: "SucceedsEqual" },
    Op { kind: Kind::Infix, text: r"\[PrecedesTilde]", prec: 38, right: false, name: "PrecedesTilde" },
    Op { kind: Kind::Infix, text: r"\[SucceedsTilde]", prec: 38, right: false, name: "SucceedsTilde" },
    Op { kind: Kind::Infix, text: r"\[PrecedesSlantEqual]", prec: 38, right: false, name: "PrecedesSlantEqual" },
    Op { kind: Kind::Infix, text: r"\[SucceedsSlantEqual]", prec: 38, right: false, name: "SucceedsSlantEqual" },
    Op { kind: Kind::Infix, text: r"\[NotPrecedes]", prec: 38, right: false, name: "NotPrecedes" },
    Op { kind: Kind::Infix, text: r"\[NotSucceeds]", prec: 38, right: false, name: "NotSucceeds" },
    Op { kind: Kind::Infix, text: r"\[NotPrecedesEqual]", prec: 38, right: false, name: "NotPrecedesEqual" },
    Op { kind: Kind::Infix, text: r"\[NotSucceedsEqual]", prec: 38, right: false, name: "NotSucceedsEqual" },
    Op { kind: Kind::Infix, text: r"\[NotPrecedesTilde]", prec: 38, right: false, name: "NotPrecedesTilde" },
    Op { kind: Kind::Infix, text: r"\[NotSucceedsTilde]", prec: 38, right: false, name: "NotSucceedsTilde" },
    Op { kind: Kind::Infix, text: r"\[NotPrecedesSlantEqual]", prec: 38, right: false, name: "NotPrecedesSlantEqual" },
    Op { kind: Kind::Infix, text: r"\[NotSucceedsSlantEqual]", prec: 38, right: false, name: "NotSucceedsSlantEqual" },
    Op { kind: Kind::Infix, text: r"\[CupCap]", prec: 38, right: false, name: "CupCap" },
    Op { kind: Kind::Infix, text: r"\[NotCupCap]", prec: 38, right: false, name: "NotCupCap" },
    Op { kind: Kind::Infix, text: r"\[HumpEqual]", prec: 38, right: false, name: "HumpEqual" },
    Op { kind: Kind::Infix, text: r"\[HumpDownHump]", prec: 38, right: false, name: "HumpDownHump" },
    Op { kind: Kind::Infix, text: r"\[NotHumpEqual]", prec: 38, right: false, name: "NotHumpEqual" },
    Op { kind: Kind::Infix, text: r"\[NotHumpDownHump]", prec: 38, right: false, name: "NotHumpDownHump" },
    Op { kind: Kind::Infix, text: r"!=", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"==", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r">", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r">=", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"<=", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"<", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[Equal]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[GreaterEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[GreaterEqualLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[GreaterFullEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[GreaterGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[GreaterLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[GreaterSlantEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[GreaterTilde]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LessEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LessEqualGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LessFullEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LessGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LessLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LessSlantEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LessTilde]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[LongEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NestedGreaterGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NestedLessLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotGreaterEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotGreaterFullEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotGreaterGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotGreaterLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotGreaterSlantEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotGreaterTilde]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotLessEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotLessFullEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotLessGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotLessLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotLessSlantEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotLessTilde]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotNestedGreaterGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[NotNestedLessLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[VectorGreater]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[VectorGreaterEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[VectorLess]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[VectorLessEqual]", prec: 38, right: false, name: "InfixInequality" },
    Op { kind: Kind::Infix, text: r"\[PermutationProduct]", prec: 67, right: false, name: "PermutationProduct" },
    Op { kind: Kind::Infix, text: r"\[Colon]", prec: 11, right: false, name: "Colon" },
    Op { kind: Kind::Infix, text: r"\[Xnor]", prec: 30, right: false, name: "Xnor" },
    Op { kind: Kind::Infix, text: r"\[Minus]", prec: 43, right: false, name: "Plus" },
    Op { kind: Kind::Postfix, text: r"&", prec: 12, right: false, name: "Function" },
    Op { kind: Kind::Postfix, text: r"..", prec: 22, right: false, name: "Repeated" },
    Op { kind: Kind::Postfix, text: r"!", prec: 79, right: false, name: "Factorial" },
    Op { kind: Kind::Postfix, text: r"--", prec: 87, right: false, name: "Decrement" },
    Op { kind: Kind::Postfix, text: r"++", prec: 87, right: false, name: "Increment" },
    Op { kind: Kind::Postfix, text: r"...", prec: 22, right: false, name: "RepeatedNull" },
    Op { kind: Kind::Postfix, text: r"!!", prec: 79, right: false, name: "Factorial2" },
    Op { kind: Kind::Postfix, text: r"'", prec: 77, right: false, name: "Derivative" },
    Op { kind: Kind::Postfix, text: r"\[Transpose]", prec: 78, right: false, name: "Transpose" },
    Op { kind: Kind::Postfix, text: r"\[Conjugate]", prec: 78, right: false, name: "Conjugate" },
    Op { kind: Kind::Postfix, text: r"\[ConjugateTranspose]", prec: 78, right: false, name: "ConjugateTranspose" },
    Op { kind: Kind::Postfix, text: r"\[HermitianConjugate]", prec: 78, right: false, name: "HermitianConjugate" },
    Op { kind: Kind::Postfix, text: r"\[InvisiblePostfixScriptBase]", prec: 93, right: false, name: "InvisiblePostfixScriptBase" },
    Op { kind: Kind::Prefix, text: r"-", prec: 62, right: false, name: "Minus" },
    Op { kind: Kind::Prefix, text: r"+", prec: 62, right: false, name: "Plus" },
    Op { kind: Kind::Prefix, text: r"!", prec: 32, right: false, name: "Not" },
    Op { kind: Kind::Prefix, text: r"++", prec: 86, right: false, name: "PreIncrement" },
    Op { kind: Kind::Prefix, text: r"--", prec: 86, right: false, name: "PreDecrement" },
    Op { kind: Kind::Prefix, text: r"!!", prec: 32, right: false, name: "PrefixNot2" },
    Op { kind: Kind::Prefix, text: r"\[PlusMinus]", prec: 62, right: false, name: "PlusMinus" },
    Op { kind: Kind::Prefix, text: r"\[Sum]", prec: 45, right: false, name: "Sum" },
    Op { kind: Kind::Prefix, text: r"\[Not]", prec: 32, right: false, name: "Not" },
    Op { kind: Kind::Prefix, text: r"\[Sqrt]", prec: 73, right: false, name: "Sqrt" },
    Op { kind: Kind::Prefix, text: r"\[MinusPlus]", prec: 62, right: false, name: "MinusPlus" },
    Op { kind: Kind::Prefix, text: r"\[DifferentialD]", prec: 72, right: false, name: "DifferentialD" },
    Op { kind: Kind::Prefix, text: r"\[CapitalDifferentialD]", prec: 72, right: false, name: "CapitalDifferentialD" },
    Op { kind: Kind::Prefix, text: r"\[Minus]", prec: 62, right: false, name: "Minus" },
    Op { kind: Kind::Prefix, text: r"\[Del]", prec: 70, right: false, name: "Del" },
    Op { kind: Kind::Prefix, text: r"\[Square]", prec: 69, right: false, name: "Square" },
    Op { kind: Kind::Prefix, text: r"\[Product]", prec: 52, right: false, name: "Product" },
    Op { kind: Kind::Prefix, text: r"\[ContinuedFractionK]", prec: 52, right: false, name: "ContinuedFractionK" },
    Op { kind: Kind::Prefix, text: r"\[CircleTimes]", prec: 62, right: false, name: "CircleTimes" },
    Op { kind: Kind::Prefix, text: r"\[ForAll]", prec: 33, right: false, name: "ForAll" },
    Op { kind: Kind::Prefix, text: r"\[Exists]", prec: 33, right: false, name: "Exists" },
    Op { kind: Kind::Prefix, text: r"\[NotExists]", prec: 33, right: false, name: "NotExists" },
    Op { kind: Kind::Prefix, text: r"\[Coproduct]", prec: 62, right: false, name: "Coproduct" },
    Op { kind: Kind::Prefix, text: r"\[Piecewise]", prec: 71, right: false, name: "Piecewise" },
    Op { kind: Kind::Prefix, text: r"\[InvisiblePrefixScriptBase]", prec: 93, right: false, name: "InvisiblePrefixScriptBase" },
    Op { kind: Kind::Prefix, text: r"\[ExpectationE]", prec: 46, right: false, name: "ExpectationE" },
    Op { kind: Kind::Prefix, text: r"\[CubeRoot]", prec: 73, right: false, name: "CubeRoot" },
    Op { kind: Kind::Prefix, text: r"\[ProbabilityPr]", prec: 46, right: false, name: "ProbabilityPr" },
];
/// Named precedence levels.
pub const LEVELS: [(&str, u32, bool); 172] = [
    ("Comma", 1, false),
    ("LongName`InvisibleComma", 1, false),
    ("Semi", 2, false),
    ("GreaterGreater", 3, false),
    ("GreaterGreaterGreater", 3, false),
    ("Equal", 4, true),
    ("ColonEqual", 4, true),
    ("CaretEqual", 4, true),
    ("CaretColonEqual", 4, true),
    ("LongName`Function", 4, true),
    ("Fake`EqualDot", 4, true),
    ("BarMinusGreater", 4, true),
    ("SlashColon", 5, true),
    ("LongName`Because", 6, false),
    ("LongName`Therefore", 7, true),
    ("LongName`VerticalSeparator", 8, false),
    ("SlashSlash", 9, false),
    ("SlashSlashEqual", 10, true),
    ("LongName`Colon", 11, false),
    ("Amp", 12, false),
    ("PlusEqual", 13, true),
    ("StarEqual", 13, true),
    ("MinusEqual", 13, true),
    ("SlashEqual", 13, true),
    ("SlashDot", 14, false),
    ("SlashSlashDot", 14, false),
    ("MinusGreater", 15, true),
    ("ColonGreater", 15, true),
    ("LongName`Rule", 15, true),
    ("LongName`RuleDelayed", 15, true),
    ("LessMinusGreater", 16, true),
    ("LongName`TwoWayRule", 16, true),
    ("SlashSemi", 17, false),
    ("TildeTilde", 18, false),
    ("Fake`OptionalColon", 19, false),
    ("Fake`PatternColon", 20, false),
    ("Bar", 21, false),
    ("DotDot", 22, false),
    ("DotDotDot", 22, false),
    ("LongName`SuchThat", 23, true),
    ("LongName`UpTee", 24, false),
    ("LongName`DownTee", 24, false),
    ("LongName`LeftTee", 24, false),
    ("LongName`DoubleLeftTee", 24, false),
    ("LongName`Perpendicular", 24, false),
    ("LongName`RightTee", 25, true),
    ("LongName`DoubleRightTee", 25, true),
    ("LongName`Conditioned", 26, false),
    ("LongName`Implies", 27, true),
    ("LongName`RoundImplies", 27, true),
    ("LongName`Equivalent", 28, false),
    ("BarBar", 29, false),
    ("LongName`Or", 29, false),
    ("LongName`Nor", 29, false),
    ("LongName`Xor", 30, false),
    ("LongName`Xnor", 30, false),
    ("AmpAmp", 31, false),
    ("LongName`And", 31, false),
    ("LongName`Nand", 31, false),
    ("Prefix`Bang", 32, false),
    ("LongName`Not", 32, false),
    ("Fake`Prefix`BangBang", 32, false),
    ("LongName`ForAll", 33, false),
    ("LongName`Exists", 33, false),
    ("LongName`NotExists", 33, false),
    ("Class`SetRelations", 34, false),
    ("EqualEqualEqual", 35, false),
    ("EqualBangEqual", 35, false),
    ("Class`HorizontalArrows", 36, false),
    ("Class`VectorOperators", 36, false),
    ("Class`DiagonalArrowOperators", 36, false),
    ("LongName`VerticalBar", 37, false),
    ("LongName`NotVerticalBar", 37, false),
    ("LongName`DoubleVerticalBar", 37, false),
    ("LongName`NotDoubleVerticalBar", 37, false),
    ("Class`OrderingOperators", 38, false),
    ("Class`Inequality", 38, false),
    ("LongName`DirectedEdge", 39, true),
    ("LongName`UndirectedEdge", 39, true),
    ("SemiSemi", 40, false),
    ("Class`UnionOperators", 41, false),
    ("Class`IntersectionOperators", 42, false),
    ("Infix`Plus", 43, false),
    ("Infix`Minus", 43, false),
    ("Infix`LongName`PlusMinus", 43, false),
    ("Infix`LongName`MinusPlus", 43, false),
    ("Infix`LongName`Minus", 43, false),
    ("LongName`ImplicitPlus", 44, false),
    ("LongName`Sum", 45, false),
    ("Class`IntegrationOperators", 46, false),
    ("LongName`ExpectationE", 46, false),
    ("LongName`ProbabilityPr", 46, false),
    ("LongName`CirclePlus", 47, false),
    ("LongName`CircleMinus", 47, false),
    ("LongName`Cup", 48, false),
    ("LongName`Cap", 49, false),
    ("Infix`LongName`Coproduct", 50, false),
    ("LongName`VerticalTilde", 51, false),
    ("LongName`Product", 52, false),
    ("LongName`ContinuedFractionK", 52, false),
    ("LongName`Star", 53, false),
    ("Star", 54, false),
    ("LongName`Times", 54, false),
    ("LongName`InvisibleTimes", 54, false),
    ("Fake`ImplicitTimes", 54, false),
    ("LongName`CenterDot", 55, false),
    ("Infix`LongName`CircleTimes", 56, false),
    ("LongName`Vee", 57, false),
    ("LongName`Wedge", 58, false),
    ("LongName`Diamond", 59, false),
    ("LongName`Backslash", 60, false),
    ("Slash", 61, false),
    ("LongName`Divide", 61, false),
    ("LongName`Divides", 61, false),
    ("LongName`DivisionSlash", 61, false),
    ("Prefix`Minus", 62, false),
    ("Prefix`Plus", 62, false),
    ("Prefix`LongName`PlusMinus", 62, false),
    ("Prefix`LongName`MinusPlus", 62, false),
    ("Prefix`LongName`Minus", 62, false),
    ("Prefix`LongName`CircleTimes", 62, false),
    ("Prefix`LongName`Coproduct", 62, false),
    ("Dot", 63, false),
    ("LongName`TensorProduct", 64, false),
    ("LongName`Cross", 65, false),
    ("LongName`TensorWedge", 65, false),
    ("StarStar", 66, false),
    ("LongName`CircleDot", 67, false),
    ("LongName`PermutationProduct", 67, false),
    ("LongName`SmallCircle", 68, false),
    ("LongName`Square", 69, false),
    ("LongName`Del", 70, false),
    ("LongName`Piecewise", 71, false),
    ("LongName`DifferentialD", 72, false),
    ("LongName`CapitalDifferentialD", 72, false),
    ("LongName`Sqrt", 73, false),
    ("LongName`CubeRoot", 73, false),
    ("Class`VerticalArrowOperators", 74, false),
    ("Class`VerticalVectorOperators", 74, false),
    ("Caret", 75, true),
    ("LessGreater", 76, false),
    ("SingleQuote", 77, false),
    ("LongName`Transpose", 78, false),
    ("LongName`Conjugate", 78, false),
    ("LongName`ConjugateTranspose", 78, false),
    ("LongName`HermitianConjugate", 78, false),
    ("Postfix`Bang", 79, false),
    ("Postfix`BangBang", 79, false),
    ("AtAt", 80, true),
    ("SlashAt", 80, true),
    ("AtAtAt", 80, true),
    ("SlashSlashAt", 80, true),
    ("Tilde", 81, false),
    ("At", 82, true),
    ("LongName`InvisibleApplication", 82, true),
    ("LongName`Application", 83, false),
    ("SlashStar", 84, false),
    ("AtStar", 85, false),
    ("Prefix`PlusPlus", 86, false),
    ("Prefix`MinusMinus", 86, false),
    ("Postfix`PlusPlus", 87, false),
    ("Postfix`MinusMinus", 87, false),
    ("Call", 88, false),
    ("Infix`Question", 89, false),
    ("LinearSyntax`Bang", 90, false),
    ("LessLess", 91, false),
    ("ColonColon", 92, false),
    ("LongName`InvisiblePrefixScriptBase", 93, false),
    ("LongName`InvisiblePostfixScriptBase", 93, false),
    ("Highest", 94, false),
    ("Symbol", 94, false),
    ("Under", 94, false),
];
