-------------------------------- MODULE SysTab --------------------------------
(* The System symbols, grouped by their attributes. *)
EXTENDS Integers, Sequences, TLC
SysGroups == <<
  << {},
     {"$Context", "$ContextPath", "$Failed", "$Line", "$ModuleNumber", "$Path", "$PrePrint", "$Version", "AbsolutePointSize", "AbsoluteThickness", "AppellF1", "ArcCosh", "ArcSinh", "ArcTanh", "AspectRatio", "Automatic", "Axes", "AxesLabel", "AxesOrigin", "Break", "C", "Constant", "CosIntegral", "Coth", "Csch", "Debug", "Directive", "DisplayFunction", "EComment", "EExampleOnlyInstruction", "EFurtherExamples", "EKnownDangerous", "EKnownFailures", "EResetState", "ESimpleExamples", "EStringTest", "ETests", "Echo", "EllipticE", "EllipticF", "Erf", "Erfc", "Erfi", "ExpreduceNonConditional", "False", "Frame", "FrameLabel", "FrameTicks", "FresnelS", "FullForm", "Gamma", "GoldenRatio", "Graphics", "GrayLevel", "GridLines", "GridLinesStyle", "HoldAll", "HoldAllComplete", "HoldFirst", "HoldRest", "Hypergeometric2F1", "In", "Info", "InputForm", "Integers", "Line", "Locked", "LongForm", "Method", "NHoldAll", "NHoldFirst", "NHoldRest", "None", "Notice", "Null", "NumericFunction", "Opacity", "Out", "OutputForm", "PlotRange", "PlotRangeClipping", "PlotRangePadding", "ProductLog", "Protected", "RGBColor", "ReadProtected", "Row", "Scaled", "Sech", "SequenceHold", "ShowForm", "SinIntegral", "Sinh", "StandardForm", "Stub", "Superscript", "Symbol", "Tanh", "TeXForm", "Temporary", "Ticks", "TraditionalForm", "True"} >>,
  << {"Constant", "Protected", "ReadProtected"},
     {"Degree", "E", "Pi"} >>,
  << {"Flat", "HoldAll", "OneIdentity", "Protected"},
     {"And", "Or"} >>,
  << {"Flat", "Listable", "NumericFunction", "OneIdentity", "Orderless", "Protected"},
     {"ExpreduceLikePlus", "Plus", "Times"} >>,
  << {"Flat", "Listable", "OneIdentity", "Orderless", "Protected"},
     {"GCD", "LCM"} >>,
  << {"Flat", "NumericFunction", "OneIdentity", "Orderless", "Protected"},
     {"Max", "Min"} >>,
  << {"Flat", "OneIdentity", "Orderless", "Protected"},
     {"ExpreduceFlOrOiFn"} >>,
  << {"Flat", "OneIdentity", "Protected"},
     {"Dot", "ExpreduceFlOiFn", "Join", "StringJoin"} >>,
  << {"Flat", "OneIdentity", "Protected", "ReadProtected"},
     {"Intersection"} >>,
  << {"Flat", "Orderless", "Protected"},
     {"ExpreduceFlOrFn"} >>,
  << {"Flat", "Protected"},
     {"ExpreduceFlatFn", "ExpreduceFlatFn2"} >>,
  << {"HoldAll", "Listable", "Protected"},
     {"Attributes"} >>,
  << {"HoldAll", "Protected"},
     {"Block", "Clear", "ClearAll", "Condition", "Definition", "Do", "DownValues", "ExpreduceMaskNonConditional", "For", "Function", "Hold", "HoldForm", "HoldPattern", "Module", "ParallelTable", "Protect", "Quiet", "Table", "TimeConstrained", "Trace", "Unprotect", "Which", "While", "With"} >>,
  << {"HoldAll", "Protected", "ReadProtected"},
     {"CompoundExpression", "Defer", "Information", "Plot", "Product", "Sum"} >>,
  << {"HoldAll", "Protected", "SequenceHold"},
     {"ENearlySameTest", "ESameTest", "SetDelayed", "Timing"} >>,
  << {"HoldAllComplete", "Protected"},
     {"HoldComplete", "Unevaluated"} >>,
  << {"HoldFirst", "Protected"},
     {"AddTo", "AppendTo", "Catch", "ClearAttributes", "Pattern", "PrependTo", "Reap", "SetAttributes", "SubtractFrom"} >>,
  << {"HoldFirst", "Protected", "ReadProtected"},
     {"Decrement", "Increment", "MessageName", "PreDecrement", "PreIncrement"} >>,
  << {"HoldFirst", "Protected", "SequenceHold"},
     {"Set"} >>,
  << {"HoldRest", "Protected"},
     {"If", "PatternTest", "Save"} >>,
  << {"HoldRest", "Protected", "ReadProtected"},
     {"Switch"} >>,
  << {"HoldRest", "Protected", "SequenceHold"},
     {"RuleDelayed"} >>,
  << {"Listable", "NumericFunction", "OneIdentity", "Protected"},
     {"Power"} >>,
  << {"Listable", "NumericFunction", "Orderless", "Protected", "ReadProtected"},
     {"Multinomial"} >>,
  << {"Listable", "NumericFunction", "Protected"},
     {"Arg", "Cos", "Cosh", "Cot", "Csc", "Divide", "Im", "Log", "Re", "Sec", "Sin", "Sqrt", "Tan"} >>,
  << {"Listable", "NumericFunction", "Protected", "ReadProtected"},
     {"Abs", "ArcCos", "ArcSin", "ArcTan", "Conjugate", "Exp", "Factorial", "Fibonacci", "FractionalPart", "IntegerPart", "Mod", "Sign"} >>,
  << {"Listable", "Protected"},
     {"Apart", "Boole", "Coefficient", "Denominator", "EvenQ", "Exponent", "Factor", "FactorInteger", "FactorSquareFree", "IntegerDigits", "Negative", "Numerator", "OddQ", "PolynomialGCD", "Positive", "PossibleZeroQ", "Prime", "PrimePi", "PrimeQ", "Range", "StringLength", "Together", "TrigToExp"} >>,
  << {"Listable", "Protected", "ReadProtected"},
     {"EulerPhi", "PowerMod"} >>,
  << {"Locked", "Protected"},
     {"List"} >>,
  << {"Locked", "Protected", "ReadProtected"},
     {"I"} >>,
  << {"NHoldAll", "Protected"},
     {"Slot"} >>,
  << {"NHoldRest", "Protected"},
     {"Take"} >>,
  << {"NHoldRest", "Protected", "ReadProtected"},
     {"Part"} >>,
  << {"OneIdentity", "Protected"},
     {"ExpreduceOneIdentityFn"} >>,
  << {"Orderless", "Protected"},
     {"ExpreduceOrderlessFn"} >>,
  << {"Protected"},
     {"All", "AllTrue", "Alternatives", "Append", "Apply", "Array", "AtomQ", "Begin", "BeginPackage", "Blank", "BlankNullSequence", "BlankSequence", "BooleanQ", "Cases", "CoefficientList", "Complement", "Complex", "ComplexExpand", "ComplexInfinity", "ConditionalExpression", "ConstantArray", "Count", "Default", "DeleteCases", "DeleteDuplicates", "Depth", "Dimensions", "Distribute", "Element", "End", "EndPackage", "Equal", "Evaluate", "Except", "Expand", "ExpandAll", "ExpreduceDefinitionTimes", "ExpreduceFactorConstant", "ExpreduceLeafCountSimplify", "ExpreduceMiscTests", "ExpreduceSetLogging", "FactorTerms", "FactorTermsList", "First", "FixedPoint", "FixedPointList", "Flat", "Flatten", "Fold", "FoldList", "FreeQ", "FromDigits", "FullSimplify", "Get", "Greater", "GreaterEqual", "Hash", "Head", "Identity", "Indeterminate", "Inequality", "Infix", "Integer", "IntegerPartitions", "IntegerQ", "Inverse", "Last", "LeafCount", "Length", "Less", "LessEqual", "ListQ", "Listable", "LoadRubi", "LoadRubiBundledSnapshot", "LoadRubiSnapshot", "Map", "MapIndexed", "MatchQ", "MatrixQ", "Mean", "MemberQ", "MinMax", "N", "Names", "Nest", "NestList", "NestWhile", "NestWhileList", "Not", "NumberQ", "NumericQ", "OneIdentity", "Optional", "Order", "Orderless", "PSimplify", "PadLeft", "PadRight", "Pause", "Permutations", "PolynomialQ", "PolynomialQuotient", "PolynomialQuotientRemainder", "PolynomialRemainder", "PowerExpand", "Prepend", "Print", "PrintTemporary", "RandomReal", "Rational", "ReIm", "ReadList", "Real", "Repeated", "Replace", "ReplaceAll", "ReplaceList", "ReplacePart", "ReplaceRepeated", "Rest", "Return", "Reverse", "RotationMatrix", "SameQ", "SaveRubiSnapshot", "Scan", "SeedRandom", "Select", "Sequence", "Simplify", "Solve", "Sort", "Sow", "Span", "Streams", "String", "StringReplace", "StringTake", "Subscript", "Tally", "Thread", "Throw", "ToString", "Total", "Transpose", "TrigExpand", "TrigReduce", "TrueQ", "Tuples", "Unequal", "Union", "Unique", "UnsameQ", "Variables", "VectorQ", "Verbatim", "WriteString"} >>,
  << {"Protected", "ReadProtected"},
     {"D", "ExportString", "Grad", "Infinity", "Integrate", "LogNormalDistribution", "NormalDistribution", "OutputStream", "PDF", "SquareFreeQ", "UnixTime"} >>,
  << {"Protected", "SequenceHold"},
     {"Rule"} >> >>
SysNames == TLCEval(UNION {SysGroups[i][2] : i \in 1..Len(SysGroups)})
SysAttr == TLCEval([n \in SysNames |-> SysGroups[CHOOSE i \in 1..Len(SysGroups) : n \in SysGroups[i][2]][1]])
=============================================================================
