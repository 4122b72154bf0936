------------------------------- MODULE Prelude -------------------------------
(* The definitions of library functions made in the language itself: for    *)
(* each name its rules, <<left side, right side>>, in the order of trial.    *)
EXTENDS Integers, Sequences, TLC
PreRules ==
  ("Abs" :>
    <<<<<<"e", <<"s", "Abs">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Function">>, <<"e", <<"s", "Not">>, <<"e", <<"s", "FreeQ">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>, <<"e", <<"s", "Alternatives">>, <<"s", "I">>, <<"e", <<"s", "Blank">>, <<"s", "Complex">>>>>>>>>>>>>>>>,
        <<"e", <<"s", "Sqrt">>, <<"e", <<"s", "Total">>, <<"e", <<"s", "Power">>, <<"e", <<"s", "ReIm">>, <<"s", "Private`a">>>>, <<"i", 2>>>>>>>>>>,
      <<<<"e", <<"s", "Abs">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>, <<"s", "NumberQ">>>>>>,
        <<"e", <<"s", "If">>, <<"e", <<"s", "Less">>, <<"s", "Private`a">>, <<"i", 0>>>>, <<"e", <<"s", "Times">>, <<"s", "Private`a">>, <<"i", -1>>>>, <<"s", "Private`a">>>>>>,
      <<<<"e", <<"s", "Abs">>, <<"e", <<"s", "Times">>, <<"i", -1>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>>>>>,
        <<"e", <<"s", "Abs">>, <<"s", "Private`a">>>>>>,
      <<<<"e", <<"s", "Abs">>, <<"s", "ComplexInfinity">>>>,
        <<"s", "Infinity">>>>,
      <<<<"e", <<"s", "Abs">>, <<"s", "Infinity">>>>,
        <<"s", "Infinity">>>>>>) @@
  ("AddTo" :>
    <<<<<<"e", <<"s", "AddTo">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`b">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Set">>, <<"s", "Private`a">>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"s", "Private`b">>>>>>>>>>) @@
  ("AllTrue" :>
    <<<<<<"e", <<"s", "AllTrue">>, <<"e", <<"e", <<"s", "Blank">>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`elems">>, <<"e", <<"s", "BlankNullSequence">>>>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`cond">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Apply">>, <<"s", "And">>, <<"e", <<"s", "Map">>, <<"s", "Private`cond">>, <<"e", <<"s", "List">>, <<"s", "Private`elems">>>>>>>>>>>>) @@
  ("AppendTo" :>
    <<<<<<"e", <<"s", "AppendTo">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`list">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Set">>, <<"s", "Private`list">>, <<"e", <<"s", "Append">>, <<"s", "Private`list">>, <<"s", "Private`e">>>>>>>>>>) @@
  ("Begin" :>
    <<<<<<"e", <<"s", "Begin">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`c">>, <<"e", <<"s", "Blank">>, <<"s", "String">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"s", "Private`$ExpreduceOldContext2">>, <<"s", "$Context">>>>, <<"e", <<"s", "If">>, <<"e", <<"s", "Equal">>, <<"e", <<"s", "StringTake">>, <<"s", "Private`c">>, <<"e", <<"s", "List">>, <<"i", 1>>, <<"i", 1>>>>>>, <<"t", "`">>>>, <<"e", <<"s", "Set">>, <<"s", "$Context">>, <<"e", <<"s", "StringJoin">>, <<"s", "$Context">>, <<"e", <<"s", "StringTake">>, <<"s", "Private`c">>, <<"e", <<"s", "List">>, <<"i", 2>>, <<"e", <<"s", "StringLength">>, <<"s", "Private`c">>>>>>>>>>>>, <<"e", <<"s", "Set">>, <<"s", "$Context">>, <<"s", "Private`c">>>>>>, <<"s", "$Context">>>>>>>>) @@
  ("BeginPackage" :>
    <<<<<<"e", <<"s", "BeginPackage">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`c">>, <<"e", <<"s", "Blank">>, <<"s", "String">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"s", "Private`$ExpreduceOldContext">>, <<"s", "$Context">>>>, <<"e", <<"s", "Set">>, <<"s", "$Context">>, <<"s", "Private`c">>>>, <<"e", <<"s", "Set">>, <<"s", "Private`$ExpreduceOldContextPath">>, <<"s", "$ContextPath">>>>, <<"e", <<"s", "Set">>, <<"s", "$ContextPath">>, <<"e", <<"s", "List">>, <<"s", "Private`c">>, <<"t", "System`">>>>>>, <<"e", <<"s", "Set">>, <<"s", "Private`$ExpreducePkgContext">>, <<"s", "Private`c">>>>, <<"s", "Null">>>>>>>>) @@
  ("Block" :>
    <<<<<<"e", <<"s", "Block">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`args">>, <<"e", <<"s", "BlankNullSequence">>>>>>>>,
        <<"e", <<"s", "Module">>, <<"s", "Private`args">>>>>>>>) @@
  ("Boole" :>
    <<<<<<"e", <<"s", "Boole">>, <<"s", "False">>>>,
        <<"i", 0>>>>,
      <<<<"e", <<"s", "Boole">>, <<"s", "True">>>>,
        <<"i", 1>>>>>>) @@
  ("ClearAll" :>
    <<<<<<"e", <<"s", "ClearAll">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`syms">>, <<"e", <<"s", "BlankNullSequence">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Clear">>, <<"s", "Private`syms">>>>, <<"e", <<"s", "Scan">>, <<"e", <<"s", "Function">>, <<"e", <<"s", "Set">>, <<"e", <<"s", "Attributes">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>>>, <<"e", <<"s", "List">>>>>>>>, <<"e", <<"s", "List">>, <<"s", "Private`syms">>>>>>, <<"s", "Null">>>>>>>>) @@
  ("ClearAttributes" :>
    <<<<<<"e", <<"s", "ClearAttributes">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`s">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`attr">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>>>,
        <<"e", <<"s", "ClearAttributes">>, <<"s", "Private`s">>, <<"e", <<"s", "List">>, <<"s", "Private`attr">>>>>>>>,
      <<<<"e", <<"s", "ClearAttributes">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`s">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`attrs">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"e", <<"s", "Attributes">>, <<"s", "Private`s">>>>, <<"e", <<"s", "Complement">>, <<"e", <<"s", "Attributes">>, <<"s", "Private`s">>>>, <<"s", "Private`attrs">>>>>>, <<"s", "Null">>>>>>,
      <<<<"e", <<"s", "ClearAttributes">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`l">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`attrs">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Scan">>, <<"e", <<"s", "Function">>, <<"e", <<"s", "ClearAttributes">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>, <<"s", "Private`attrs">>>>>>, <<"s", "Private`l">>>>>>>>) @@
  ("ConstantArray" :>
    <<<<<<"e", <<"s", "ConstantArray">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`c">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>>>,
        <<"e", <<"s", "Table">>, <<"s", "Private`c">>, <<"s", "Private`n">>>>>>>>) @@
  ("Count" :>
    <<<<<<"e", <<"s", "Count">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`l">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`pattern">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Count">>, <<"s", "Private`l">>, <<"s", "Private`pattern">>, <<"e", <<"s", "List">>, <<"i", 1>>>>>>>>>>) @@
  ("Decrement" :>
    <<<<<<"e", <<"s", "Decrement">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"s", "Private`a">>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"i", -1>>>>>>>>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"i", 1>>>>>>>>>>) @@
  ("Distribute" :>
    <<<<<<"e", <<"s", "Distribute">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Distribute">>, <<"s", "Private`e">>, <<"s", "Plus">>>>>>>>) @@
  ("Element" :>
    <<<<<<"e", <<"s", "Element">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`i">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Integers">>>>,
        <<"s", "True">>>>>>) @@
  ("End" :>
    <<<<<<"e", <<"s", "End">>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"s", "Private`expreduceToReturn">>, <<"s", "$Context">>>>, <<"e", <<"s", "Set">>, <<"s", "$Context">>, <<"s", "Private`$ExpreduceOldContext2">>>>, <<"s", "Private`expreduceToReturn">>>>>>>>) @@
  ("EndPackage" :>
    <<<<<<"e", <<"s", "EndPackage">>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"s", "$Context">>, <<"s", "Private`$ExpreduceOldContext">>>>, <<"e", <<"s", "Set">>, <<"s", "Private`$ExpreduceOldContext">>, <<"s", "Null">>>>, <<"e", <<"s", "Set">>, <<"s", "$ContextPath">>, <<"e", <<"s", "Prepend">>, <<"s", "Private`$ExpreduceOldContextPath">>, <<"s", "Private`$ExpreducePkgContext">>>>>>, <<"e", <<"s", "Set">>, <<"s", "Private`$ExpreduceOldContextPath">>, <<"s", "Null">>>>, <<"e", <<"s", "Set">>, <<"s", "Private`$ExpreducePkgContext">>, <<"s", "Null">>>>, <<"s", "Null">>>>>>>>) @@
  ("EulerPhi" :>
    <<<<<<"e", <<"s", "EulerPhi">>, <<"i", 0>>>>,
        <<"i", 0>>>>,
      <<<<"e", <<"s", "EulerPhi">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Positive">>>>>>,
        <<"e", <<"s", "If">>, <<"e", <<"s", "SameQ">>, <<"s", "Private`n">>, <<"i", 1>>>>, <<"i", 1>>, <<"e", <<"s", "Times">>, <<"s", "Private`n">>, <<"e", <<"s", "Product">>, <<"e", <<"s", "Plus">>, <<"i", 1>>, <<"e", <<"s", "Times">>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"e", <<"s", "Power">>, <<"e", <<"s", "Part">>, <<"s", "Private`p">>, <<"i", 1>>>>, <<"i", -1>>>>>>, <<"i", -1>>>>>>, <<"e", <<"s", "List">>, <<"s", "Private`p">>, <<"e", <<"s", "FactorInteger">>, <<"s", "Private`n">>>>>>>>>>>>>>,
      <<<<"e", <<"s", "EulerPhi">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Negative">>>>>>,
        <<"e", <<"s", "EulerPhi">>, <<"e", <<"s", "Times">>, <<"s", "Private`n">>, <<"i", -1>>>>>>>>>>) @@
  ("EvenQ" :>
    <<<<<<"e", <<"s", "EvenQ">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>>>,
        <<"e", <<"s", "SameQ">>, <<"e", <<"s", "Mod">>, <<"s", "Private`n">>, <<"i", 2>>>>, <<"i", 0>>>>>>>>) @@
  ("Fibonacci" :>
    <<<<<<"e", <<"s", "Fibonacci">>, <<"i", 0>>>>,
        <<"i", 0>>>>,
      <<<<"e", <<"s", "Fibonacci">>, <<"i", 1>>>>,
        <<"i", 1>>>>,
      <<<<"e", <<"s", "Fibonacci">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Positive">>>>>>,
        <<"e", <<"s", "Set">>, <<"e", <<"s", "Fibonacci">>, <<"s", "Private`n">>>>, <<"e", <<"s", "Plus">>, <<"e", <<"s", "Fibonacci">>, <<"e", <<"s", "Plus">>, <<"s", "Private`n">>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"i", -1>>>>>>>>, <<"e", <<"s", "Fibonacci">>, <<"e", <<"s", "Plus">>, <<"s", "Private`n">>, <<"e", <<"s", "Times">>, <<"i", 2>>, <<"i", -1>>>>>>>>>>>>>>,
      <<<<"e", <<"s", "Fibonacci">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Negative">>>>>>,
        <<"e", <<"s", "Times">>, <<"e", <<"s", "Power">>, <<"i", -1>>, <<"e", <<"s", "Plus">>, <<"s", "Private`n">>, <<"i", 1>>>>>>, <<"e", <<"s", "Fibonacci">>, <<"e", <<"s", "Times">>, <<"s", "Private`n">>, <<"i", -1>>>>>>>>>>>>) @@
  ("First" :>
    <<<<<<"e", <<"s", "First">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Function">>, <<"e", <<"s", "GreaterEqual">>, <<"e", <<"s", "Length">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>>>, <<"i", 1>>>>>>>>>>,
        <<"e", <<"s", "Part">>, <<"s", "Private`e">>, <<"i", 1>>>>>>>>) @@
  ("FixedPointList" :>
    <<<<<<"e", <<"s", "FixedPointList">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`f">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "NestWhileList">>, <<"s", "Private`f">>, <<"s", "Private`expr">>, <<"s", "UnsameQ">>, <<"i", 2>>>>>>>>) @@
  ("Fold" :>
    <<<<<<"e", <<"s", "Fold">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`f">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`x">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Last">>, <<"e", <<"s", "FoldList">>, <<"s", "Private`f">>, <<"s", "Private`x">>, <<"s", "Private`expr">>>>>>>>,
      <<<<"e", <<"s", "Fold">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`f">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Last">>, <<"e", <<"s", "FoldList">>, <<"s", "Private`f">>, <<"e", <<"s", "First">>, <<"s", "Private`expr">>>>, <<"e", <<"s", "Rest">>, <<"s", "Private`expr">>>>>>>>>>>>) @@
  ("FoldList" :>
    <<<<<<"e", <<"s", "FoldList">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`f">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "FoldList">>, <<"s", "Private`f">>, <<"e", <<"s", "First">>, <<"s", "Private`expr">>>>, <<"e", <<"s", "Rest">>, <<"s", "Private`expr">>>>>>>>>>) @@
  ("For" :>
    <<<<<<"e", <<"s", "For">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`beg">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`cond">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`incr">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"s", "Private`beg">>, <<"e", <<"s", "While">>, <<"s", "Private`cond">>, <<"e", <<"s", "CompoundExpression">>, <<"s", "Private`expr">>, <<"s", "Private`incr">>>>>>>>>>>>) @@
  ("FreeQ" :>
    <<<<<<"e", <<"s", "FreeQ">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`val">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "SameQ">>, <<"s", "Private`expr">>, <<"e", <<"s", "ReplaceAll">>, <<"s", "Private`expr">>, <<"e", <<"s", "Rule">>, <<"s", "Private`val">>, <<"s", "Internal`DummyReplace">>>>>>>>>>>>) @@
  ("FromDigits" :>
    <<<<<<"e", <<"s", "FromDigits">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`digits">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>, <<"e", <<"s", "Optional">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`base">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"i", 10>>>>>>,
        <<"e", <<"s", "Module">>, <<"e", <<"s", "List">>, <<"e", <<"s", "Set">>, <<"s", "Private`n">>, <<"e", <<"s", "Length">>, <<"s", "Private`digits">>>>>>, <<"e", <<"s", "Set">>, <<"s", "Private`sum">>, <<"i", 0>>>>>>, <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Do">>, <<"e", <<"s", "AddTo">>, <<"s", "Private`sum">>, <<"e", <<"s", "Times">>, <<"e", <<"s", "Part">>, <<"s", "Private`digits">>, <<"s", "Private`i">>>>, <<"e", <<"s", "Power">>, <<"s", "Private`base">>, <<"e", <<"s", "Plus">>, <<"s", "Private`n">>, <<"e", <<"s", "Times">>, <<"s", "Private`i">>, <<"i", -1>>>>>>>>>>>>, <<"e", <<"s", "List">>, <<"s", "Private`i">>, <<"i", 1>>, <<"s", "Private`n">>>>>>, <<"s", "Private`sum">>>>>>>>,
      <<<<"e", <<"s", "FromDigits">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`digits">>, <<"e", <<"s", "Blank">>, <<"s", "String">>>>>>>>,
        <<"e", <<"s", "FromDigits">>, <<"e", <<"s", "Map">>, <<"s", "Private`ToExpression">>, <<"e", <<"s", "Private`Characters">>, <<"s", "Private`digits">>>>>>>>>>>>) @@
  ("Identity" :>
    <<<<<<"e", <<"s", "Identity">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"s", "Private`expr">>>>>>) @@
  ("Increment" :>
    <<<<<<"e", <<"s", "Increment">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"s", "Private`a">>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"i", 1>>>>>>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"i", -1>>>>>>>>>>>>) @@
  ("IntegerDigits" :>
    <<<<<<"e", <<"s", "IntegerDigits">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`signedN">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`base">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Positive">>>>>>,
        <<"e", <<"s", "Module">>, <<"e", <<"s", "List">>, <<"e", <<"s", "Set">>, <<"s", "Private`n">>, <<"e", <<"s", "Abs">>, <<"s", "Private`signedN">>>>>>, <<"e", <<"s", "Set">>, <<"s", "Private`list">>, <<"e", <<"s", "If">>, <<"e", <<"s", "SameQ">>, <<"s", "Private`signedN">>, <<"i", 0>>>>, <<"e", <<"s", "List">>, <<"i", 0>>>>, <<"e", <<"s", "List">>>>>>>>>>, <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "While">>, <<"e", <<"s", "Greater">>, <<"s", "Private`n">>, <<"i", 0>>>>, <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "PrependTo">>, <<"s", "Private`list">>, <<"e", <<"s", "Mod">>, <<"s", "Private`n">>, <<"s", "Private`base">>>>>>, <<"e", <<"s", "Set">>, <<"s", "Private`n">>, <<"e", <<"s", "Times">>, <<"e", <<"s", "Plus">>, <<"s", "Private`n">>, <<"e", <<"s", "Times">>, <<"e", <<"s", "Mod">>, <<"s", "Private`n">>, <<"s", "Private`base">>>>, <<"i", -1>>>>>>, <<"e", <<"s", "Power">>, <<"s", "Private`base">>, <<"i", -1>>>>>>>>, <<"s", "Null">>>>>>, <<"s", "Private`list">>>>>>>>,
      <<<<"e", <<"s", "IntegerDigits">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>>>,
        <<"e", <<"s", "IntegerDigits">>, <<"s", "Private`n">>, <<"i", 10>>>>>>>>) @@
  ("IntegerQ" :>
    <<<<<<"e", <<"s", "IntegerQ">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "SameQ">>, <<"e", <<"s", "Head">>, <<"s", "Private`e">>>>, <<"s", "Integer">>>>>>>>) @@
  ("LCM" :>
    <<<<<<"e", <<"s", "LCM">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>, <<"s", "NumberQ">>>>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`b">>, <<"e", <<"s", "Blank">>>>>>, <<"s", "NumberQ">>>>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`rest">>, <<"e", <<"s", "BlankSequence">>>>>>, <<"s", "NumberQ">>>>>>,
        <<"e", <<"s", "LCM">>, <<"e", <<"s", "LCM">>, <<"s", "Private`a">>, <<"s", "Private`b">>>>, <<"s", "Private`rest">>>>>>,
      <<<<"e", <<"s", "LCM">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>, <<"s", "NumberQ">>>>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`b">>, <<"e", <<"s", "Blank">>>>>>, <<"s", "NumberQ">>>>>>,
        <<"e", <<"s", "If">>, <<"e", <<"s", "SameQ">>, <<"s", "Private`a">>, <<"i", 0>>>>, <<"i", 0>>, <<"e", <<"s", "Abs">>, <<"e", <<"s", "Times">>, <<"e", <<"s", "Times">>, <<"s", "Private`a">>, <<"e", <<"s", "Power">>, <<"e", <<"s", "GCD">>, <<"s", "Private`a">>, <<"s", "Private`b">>>>, <<"i", -1>>>>>>, <<"s", "Private`b">>>>>>>>>>>>) @@
  ("Last" :>
    <<<<<<"e", <<"s", "Last">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Function">>, <<"e", <<"s", "GreaterEqual">>, <<"e", <<"s", "Length">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>>>, <<"i", 1>>>>>>>>>>,
        <<"e", <<"s", "Part">>, <<"s", "Private`e">>, <<"e", <<"s", "Length">>, <<"s", "Private`e">>>>>>>>>>) @@
  ("ListQ" :>
    <<<<<<"e", <<"s", "ListQ">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "SameQ">>, <<"e", <<"s", "Head">>, <<"s", "Private`expr">>>>, <<"s", "List">>>>>>>>) @@
  ("Mean" :>
    <<<<<<"e", <<"s", "Mean">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`l">>, <<"e", <<"s", "BlankSequence">>, <<"s", "List">>>>>>>>,
        <<"e", <<"s", "Times">>, <<"e", <<"s", "Total">>, <<"s", "Private`l">>>>, <<"e", <<"s", "Power">>, <<"e", <<"s", "Length">>, <<"s", "Private`l">>>>, <<"i", -1>>>>>>>>>>) @@
  ("MinMax" :>
    <<<<<<"e", <<"s", "MinMax">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`l">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>>>,
        <<"e", <<"s", "List">>, <<"e", <<"s", "Min">>, <<"s", "Private`l">>>>, <<"e", <<"s", "Max">>, <<"s", "Private`l">>>>>>>>>>) @@
  ("Multinomial" :>
    <<<<<<"e", <<"s", "Multinomial">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`seq">>, <<"e", <<"s", "BlankNullSequence">>>>>>>>,
        <<"e", <<"s", "Times">>, <<"e", <<"s", "Factorial">>, <<"e", <<"s", "Apply">>, <<"s", "Plus">>, <<"e", <<"s", "List">>, <<"s", "Private`seq">>>>>>>>, <<"e", <<"s", "Power">>, <<"e", <<"s", "Apply">>, <<"s", "Times">>, <<"e", <<"s", "Map">>, <<"s", "Factorial">>, <<"e", <<"s", "List">>, <<"s", "Private`seq">>>>>>>>, <<"i", -1>>>>>>>>>>) @@
  ("Negative" :>
    <<<<<<"e", <<"s", "Negative">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`x">>, <<"e", <<"s", "Blank">>>>>>, <<"s", "NumberQ">>>>>>,
        <<"e", <<"s", "Less">>, <<"s", "Private`x">>, <<"i", 0>>>>>>>>) @@
  ("Nest" :>
    <<<<<<"e", <<"s", "Nest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`f">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`expr">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Last">>, <<"e", <<"s", "NestList">>, <<"s", "Private`f">>, <<"s", "Private`expr">>, <<"s", "Private`n">>>>>>>>>>) @@
  ("NestWhile" :>
    <<<<<<"e", <<"s", "NestWhile">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`args">>, <<"e", <<"s", "BlankSequence">>>>>>>>,
        <<"e", <<"s", "Last">>, <<"e", <<"s", "NestWhileList">>, <<"s", "Private`args">>>>>>>>>>) @@
  ("Not" :>
    <<<<<<"e", <<"s", "Not">>, <<"e", <<"s", "Not">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>>>>>,
        <<"s", "Private`e">>>>>>) @@
  ("OddQ" :>
    <<<<<<"e", <<"s", "OddQ">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>>>,
        <<"e", <<"s", "SameQ">>, <<"e", <<"s", "Mod">>, <<"s", "Private`n">>, <<"i", 2>>>>, <<"i", 1>>>>>>>>) @@
  ("Positive" :>
    <<<<<<"e", <<"s", "Positive">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`x">>, <<"e", <<"s", "Blank">>>>>>, <<"s", "NumberQ">>>>>>,
        <<"e", <<"s", "Greater">>, <<"s", "Private`x">>, <<"i", 0>>>>>>>>) @@
  ("PossibleZeroQ" :>
    <<<<<<"e", <<"s", "PossibleZeroQ">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Or">>, <<"e", <<"s", "SameQ">>, <<"s", "Private`e">>, <<"i", 0>>>>, <<"e", <<"s", "SameQ">>, <<"s", "Private`e">>, <<"f", <<"i", 0>>, <<"i", 1>>>>>>>>>>>>) @@
  ("PowerMod" :>
    <<<<<<"e", <<"s", "PowerMod">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`x">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`y">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`m">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Condition">>, <<"e", <<"s", "Mod">>, <<"e", <<"s", "Power">>, <<"s", "Private`x">>, <<"s", "Private`y">>>>, <<"s", "Private`m">>>>, <<"e", <<"s", "UnsameQ">>, <<"e", <<"s", "Negative">>, <<"s", "Private`y">>>>, <<"s", "True">>>>>>>>,
      <<<<"e", <<"s", "PowerMod">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`x">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`y">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Negative">>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`m">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>>>,
        <<"e", <<"s", "Condition">>, <<"e", <<"s", "PowerMod">>, <<"e", <<"s", "PowerMod">>, <<"s", "Private`x">>, <<"e", <<"s", "Plus">>, <<"e", <<"s", "EulerPhi">>, <<"s", "Private`m">>>>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"i", -1>>>>>>, <<"s", "Private`m">>>>, <<"e", <<"s", "Times">>, <<"s", "Private`y">>, <<"i", -1>>>>, <<"s", "Private`m">>>>, <<"e", <<"s", "And">>, <<"e", <<"s", "UnsameQ">>, <<"s", "Private`m">>, <<"i", 0>>>>, <<"e", <<"s", "SameQ">>, <<"e", <<"s", "GCD">>, <<"s", "Private`x">>, <<"s", "Private`m">>>>, <<"i", 1>>>>>>>>>>>>) @@
  ("PreDecrement" :>
    <<<<<<"e", <<"s", "PreDecrement">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Set">>, <<"s", "Private`a">>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"i", -1>>>>>>>>>>>>) @@
  ("PreIncrement" :>
    <<<<<<"e", <<"s", "PreIncrement">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Set">>, <<"s", "Private`a">>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"i", 1>>>>>>>>>>) @@
  ("PrependTo" :>
    <<<<<<"e", <<"s", "PrependTo">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`list">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Set">>, <<"s", "Private`list">>, <<"e", <<"s", "Prepend">>, <<"s", "Private`list">>, <<"s", "Private`e">>>>>>>>>>) @@
  ("Protect" :>
    <<<<<<"e", <<"s", "Protect">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`s">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>>>,
        <<"e", <<"s", "SetAttributes">>, <<"s", "Private`s">>, <<"e", <<"s", "List">>, <<"s", "Protected">>>>>>>>>>) @@
  ("Quiet" :>
    <<<<<<"e", <<"s", "Quiet">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"s", "Private`e">>>>>>) @@
  ("ReplacePart" :>
    <<<<<<"e", <<"s", "ReplacePart">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Function">>, <<"e", <<"s", "Not">>, <<"e", <<"s", "AtomQ">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>>>>>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`r">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`i">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Positive">>>>>>,
        <<"e", <<"s", "If">>, <<"e", <<"s", "SameQ">>, <<"e", <<"s", "LessEqual">>, <<"s", "Private`i">>, <<"e", <<"s", "Length">>, <<"s", "Private`e">>>>>>, <<"s", "True">>>>, <<"e", <<"s", "Join">>, <<"e", <<"s", "Part">>, <<"s", "Private`e">>, <<"e", <<"s", "Span">>, <<"i", 1>>, <<"e", <<"s", "Plus">>, <<"s", "Private`i">>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"i", -1>>>>>>>>>>, <<"e", <<"e", <<"s", "Head">>, <<"s", "Private`e">>>>, <<"s", "Private`r">>>>, <<"e", <<"s", "Part">>, <<"s", "Private`e">>, <<"e", <<"s", "Span">>, <<"e", <<"s", "Plus">>, <<"s", "Private`i">>, <<"i", 1>>>>, <<"e", <<"s", "Length">>, <<"s", "Private`e">>>>>>>>>>, <<"e", <<"s", "Print">>, <<"t", "Index too large for ReplacePart!">>>>>>>>,
      <<<<"e", <<"s", "ReplacePart">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`r">>, <<"e", <<"s", "Blank">>, <<"s", "Rule">>>>>>>>,
        <<"e", <<"s", "ReplacePart">>, <<"s", "Private`e">>, <<"e", <<"s", "List">>, <<"s", "Private`r">>>>>>>>>>) @@
  ("Rest" :>
    <<<<<<"e", <<"s", "Rest">>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`e">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Function">>, <<"e", <<"s", "GreaterEqual">>, <<"e", <<"s", "Length">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>>>, <<"i", 1>>>>>>>>>>,
        <<"e", <<"s", "Part">>, <<"s", "Private`e">>, <<"e", <<"s", "Span">>, <<"i", 2>>, <<"s", "All">>>>>>>>>>) @@
  ("SetAttributes" :>
    <<<<<<"e", <<"s", "SetAttributes">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`s">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`attr">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>>>,
        <<"e", <<"s", "SetAttributes">>, <<"s", "Private`s">>, <<"e", <<"s", "List">>, <<"s", "Private`attr">>>>>>>>,
      <<<<"e", <<"s", "SetAttributes">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`s">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`attrs">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>>>,
        <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"e", <<"s", "Attributes">>, <<"s", "Private`s">>>>, <<"e", <<"s", "Union">>, <<"e", <<"s", "Attributes">>, <<"s", "Private`s">>>>, <<"s", "Private`attrs">>>>>>, <<"s", "Null">>>>>>,
      <<<<"e", <<"s", "SetAttributes">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`l">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`attrs">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Scan">>, <<"e", <<"s", "Function">>, <<"e", <<"s", "SetAttributes">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>, <<"s", "Private`attrs">>>>>>, <<"s", "Private`l">>>>>>>>) @@
  ("Sign" :>
    <<<<<<"e", <<"s", "Sign">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Rational">>>>>>>>,
        <<"e", <<"s", "Which">>, <<"e", <<"s", "Less">>, <<"s", "Private`n">>, <<"i", 0>>>>, <<"i", -1>>, <<"e", <<"s", "Greater">>, <<"s", "Private`n">>, <<"i", 0>>>>, <<"i", 1>>, <<"s", "True">>, <<"i", 0>>>>>>,
      <<<<"e", <<"s", "Sign">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>>>,
        <<"e", <<"s", "Which">>, <<"e", <<"s", "Less">>, <<"s", "Private`n">>, <<"i", 0>>>>, <<"i", -1>>, <<"e", <<"s", "Greater">>, <<"s", "Private`n">>, <<"i", 0>>>>, <<"i", 1>>, <<"s", "True">>, <<"i", 0>>>>>>,
      <<<<"e", <<"s", "Sign">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Real">>>>>>>>,
        <<"e", <<"s", "Which">>, <<"e", <<"s", "Less">>, <<"s", "Private`n">>, <<"i", 0>>>>, <<"i", -1>>, <<"e", <<"s", "Greater">>, <<"s", "Private`n">>, <<"i", 0>>>>, <<"i", 1>>, <<"s", "True">>, <<"i", 0>>>>>>>>) @@
  ("StringJoin" :>
    <<<<<<"e", <<"s", "StringJoin">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`list">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>>>,
        <<"e", <<"s", "StringJoin">>, <<"e", <<"s", "ReplaceAll">>, <<"s", "Private`list">>, <<"e", <<"s", "Rule">>, <<"s", "List">>, <<"s", "Sequence">>>>>>>>>>>>) @@
  ("SubtractFrom" :>
    <<<<<<"e", <<"s", "SubtractFrom">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`b">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "Set">>, <<"s", "Private`a">>, <<"e", <<"s", "Plus">>, <<"s", "Private`a">>, <<"e", <<"s", "Times">>, <<"s", "Private`b">>, <<"i", -1>>>>>>>>>>>>) @@
  ("Table" :>
    <<<<<<"e", <<"s", "Table">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`b">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>>>,
        <<"e", <<"s", "Table">>, <<"s", "Private`a">>, <<"e", <<"s", "List">>, <<"s", "UniqueDefined`i">>, <<"i", 1>>, <<"s", "Private`b">>>>>>>>>>) @@
  ("Take" :>
    <<<<<<"e", <<"s", "Take">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`list">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "List">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`m">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`o">>, <<"e", <<"s", "Blank">>>>>>>>>>,
        <<"e", <<"s", "Part">>, <<"s", "Private`list">>, <<"e", <<"s", "Span">>, <<"s", "Private`m">>, <<"s", "Private`n">>, <<"s", "Private`o">>>>>>>>,
      <<<<"e", <<"s", "Take">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`list">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "List">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`m">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>>>>>>>>>,
        <<"e", <<"s", "Part">>, <<"s", "Private`list">>, <<"e", <<"s", "Span">>, <<"s", "Private`m">>, <<"s", "Private`n">>>>>>>>,
      <<<<"e", <<"s", "Take">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`list">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "Pattern">>, <<"s", "Private`m">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "If">>, <<"e", <<"s", "Greater">>, <<"s", "Private`m">>, <<"i", 0>>>>, <<"e", <<"s", "Part">>, <<"s", "Private`list">>, <<"e", <<"s", "Span">>, <<"i", 1>>, <<"s", "Private`m">>>>>>, <<"e", <<"s", "Part">>, <<"s", "Private`list">>, <<"e", <<"s", "Span">>, <<"s", "Private`m">>, <<"i", -1>>>>>>>>>>>>) @@
  ("Tally" :>
    <<<<<<"e", <<"s", "Tally">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`l">>, <<"e", <<"s", "Blank">>, <<"s", "List">>>>>>>>,
        <<"e", <<"s", "Map">>, <<"e", <<"s", "Function">>, <<"e", <<"s", "List">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>, <<"e", <<"s", "Count">>, <<"s", "Private`l">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>>>>>>>, <<"e", <<"s", "DeleteDuplicates">>, <<"s", "Private`l">>>>>>>>>>) @@
  ("ToString" :>
    <<<<<<"e", <<"s", "ToString">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`a">>, <<"e", <<"s", "Blank">>>>>>>>,
        <<"e", <<"s", "ToString">>, <<"s", "Private`a">>, <<"s", "OutputForm">>>>>>>>) @@
  ("Total" :>
    <<<<<<"e", <<"s", "Total">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`l">>, <<"e", <<"s", "BlankSequence">>, <<"s", "List">>>>>>>>,
        <<"e", <<"s", "Apply">>, <<"s", "Plus">>, <<"s", "Private`l">>>>>>>>) @@
  ("Tuples" :>
    <<<<<<"e", <<"s", "Tuples">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`list">>, <<"e", <<"s", "Blank">>>>>>, <<"e", <<"s", "PatternTest">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`n">>, <<"e", <<"s", "Blank">>, <<"s", "Integer">>>>>>, <<"s", "Positive">>>>>>,
        <<"e", <<"s", "Module">>, <<"e", <<"s", "List">>, <<"s", "Private`prevTuples">>, <<"s", "Private`newTuples">>>>, <<"e", <<"s", "CompoundExpression">>, <<"e", <<"s", "Set">>, <<"s", "Private`prevTuples">>, <<"e", <<"s", "Tuples">>, <<"s", "Private`list">>, <<"e", <<"s", "Plus">>, <<"s", "Private`n">>, <<"e", <<"s", "Times">>, <<"i", 1>>, <<"i", -1>>>>>>>>>>, <<"e", <<"s", "Set">>, <<"s", "Private`newTuples">>, <<"e", <<"s", "Flatten">>, <<"e", <<"s", "Table">>, <<"e", <<"s", "Map">>, <<"e", <<"s", "Function">>, <<"e", <<"s", "Prepend">>, <<"e", <<"s", "Slot">>, <<"i", 1>>>>, <<"s", "Private`elem">>>>>>, <<"s", "Private`prevTuples">>>>, <<"e", <<"s", "List">>, <<"s", "Private`elem">>, <<"s", "Private`list">>>>>>, <<"i", 1>>>>>>, <<"s", "Private`newTuples">>>>>>>>,
      <<<<"e", <<"s", "Tuples">>, <<"e", <<"s", "Blank">>>>, <<"i", 0>>>>,
        <<"e", <<"s", "List">>, <<"e", <<"s", "List">>>>>>>>>>) @@
  ("Unprotect" :>
    <<<<<<"e", <<"s", "Unprotect">>, <<"e", <<"s", "Pattern">>, <<"s", "Private`s">>, <<"e", <<"s", "Blank">>, <<"s", "Symbol">>>>>>>>,
        <<"e", <<"s", "ClearAttributes">>, <<"s", "Private`s">>, <<"e", <<"s", "List">>, <<"s", "Protected">>>>>>>>>>)
PreOwn ==
("$Context" :> <<<<"t", "Global`">>>>) @@ ("$ContextPath" :> <<<<"e", <<"s", "List">>, <<"t", "System`">>, <<"t", "Global`">>>>>>) @@ ("$Line" :> <<<<"i", 1>>>>) @@ ("$ModuleNumber" :> <<<<"i", 1>>>>) @@ ("$Version" :> <<<<"t", "Expreduce">>>>) @@ ("I" :> <<<<"e", <<"s", "Complex">>, <<"i", 0>>, <<"i", 1>>>>>>)
=============================================================================
