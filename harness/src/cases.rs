//! Faulty programs, and what is reported about each: whether with a
//! traceback, the message, and where (offset, and the function called there).
pub type Diag = (bool, &'static str, &'static [(usize, &'static str)]);
pub const CASES: &[(&str, &[Diag])] = &[
    ("a }b", &[(false, "Syntax error: unmatched '}'", &[(2, "")])]),
    ("a ]b", &[(false, "Syntax error: unmatched ']'", &[(2, "")])]),
    ("a </i>b", &[(false, "Syntax error: unmatched closing tag", &[(2, "")])]),
    ("a {b", &[(false, "Syntax error: unmatched '{'", &[(2, "")])]),
    ("a <i>b", &[(false, "Syntax error: unmatched opening tag", &[(2, "")])]),
    ("a $nope b", &[(true, "Name error: no such variable 'nope'", &[(2, "")])]),
    ("a @nope . b", &[(true, "Name error: no such variable 'nope'", &[(2, "")])]),
    ("a @let(x=nope) b", &[(false, "Syntax error: let expression with literal has no effect; did you mean '...'?", &[(15, "")])]),
    ("a &foo; b", &[(false, "Syntax error: invalid entity", &[(2, "")])]),
    ("a &lt b", &[(false, "Syntax error: entity must end with a semicolon ';'", &[(2, "")]), (false, "Syntax error: invalid entity", &[(2, "")])]),
    ("a \\xZZ b", &[(false, "Syntax error: invalid Unicode escape", &[(2, "")])]),
    ("a \\uD800; b", &[(false, "Syntax error: invalid Unicode escape", &[(2, "")])]),
    ("a `b", &[(false, "Syntax error: unexpected end of source in string literal", &[(2, "")])]),
    ("a `b`` c", &[(false, "Syntax error: too many backticks in string literal closing delimiter", &[(2, "")])]),
    ("@let(x=1, x=2) {$x}", &[(false, "Syntax error: duplicate named argument 'x'", &[(10, "")]), (false, "Warning: name 'x' already declared", &[(12, "")])]),
    ("@let x", &[(false, "Syntax error: missing named declarations; expected '(name=value, ...)'", &[(0, "")])]),
    ("@let(1) x", &[(false, "Syntax error: positional argument not allowed in this declaration", &[(5, "")]), (false, "Syntax error: let expression with literal has no effect; did you mean '...'?", &[(8, "")])]),
    ("@let(x=1) `a`", &[(false, "Syntax error: let expression with literal has no effect; did you mean '...'?", &[(10, "")])]),
    ("@fn f($p, $p) $c -> . ", &[(false, "Syntax error: duplicate parameter name 'p'", &[(10, "")])]),
    ("@fn f($_p: @implicit int) $c -> .", &[(false, "Syntax error: positional parameter cannot be implicit", &[(6, "")])]),
    ("@fn f($p, $_q) $c -> .", &[(false, "Syntax error: positional parameter cannot occur after named parameter", &[(10, "")])]),
    ("@fn f(*$p) $c -> .", &[(false, "Syntax error: positional spread parameter must begin with underscore", &[(6, "")])]),
    ("@fn f(**$_p) $c -> .", &[(false, "Syntax error: named spread parameter must not begin with underscore", &[(6, "")])]),
    ("@fn f($p: foo) $c -> .", &[(false, "Syntax error: not a primitive type name", &[(10, "")])]),
    ("@fn f($p: int?? ) $c -> .", &[(false, "Warning: type modifier '?' is redundant here", &[(14, "")])]),
    ("@fn f($p: any?) $c -> .", &[(false, "Warning: type modifier '?' is redundant here", &[(13, "")])]),
    ("@fn -> .", &[(false, "Syntax error: expected variable name, was '->'", &[(4, "")])]),
    ("@fn f $c: int -> $c @f abc", &[(true, "Type error: expected int, was str", &[(23, "")])]),
    ("@fn f $c -> $nope @f {x}", &[(true, "Name error: no such variable 'nope'", &[(18, ""), (12, "@f")])]),
    ("@fn g $c -> @f $c @fn f $c -> $nope @g {x}", &[(true, "Name error: no such variable 'nope'", &[(36, ""), (12, "@g"), (30, "@f")])]),
    ("@fn f($p) . -> $p @f .", &[(true, "Runtime error: missing required parameter 'p'", &[(18, "")])]),
    ("@fn f($_p) . -> $p @f .", &[(true, "Type error: not enough positional arguments (expected 1, was 0)", &[(19, "")])]),
    ("@fn f($p) . -> $p @f(q=1) .", &[(true, "Name error: no such parameter 'q'", &[(21, "")])]),
    ("@fn f($p) . -> $p @f(p=1, p=2) .", &[(false, "Syntax error: duplicate named argument 'p'", &[(26, "")]), (true, "Runtime error: received multiple named arguments for parameter 'p'", &[(26, "")])]),
    ("@fn f($p) . -> $p @f(1) .", &[(true, "Type error: too many positional arguments (expected 0, was 1)", &[(18, "")])]),
    ("@fn f($p) . -> $p @f(p=1) x", &[(true, "Type error: expected none, was str", &[(26, "")])]),
    ("@fn f($p) . -> $p @f(p=1, 2) .", &[(false, "Syntax error: positional argument cannot occur after named argument", &[(26, "")]), (true, "Type error: too many positional arguments (expected 0, was 1)", &[(18, "")])]),
    ("@fn f($p: @implicit int) . -> $p @f .", &[(true, "Runtime error: missing required implicit parameter 'p'", &[(33, "")])]),
    ("@match 1 {2 -> a}", &[(true, "Runtime error: no matching branch in @match", &[(0, "")])]),
    ("@match 1 {[*_, *_] -> a}", &[(false, "Syntax error: match pattern cannot have multiple spreads", &[(16, "")]), (true, "Runtime error: no matching branch in @match", &[(0, "")])]),
    ("@match 1 {x -> a}", &[(false, "Syntax error: bare name not allowed in match pattern; use $ for variable name or backticks for string literal", &[(10, "")]), (false, "Syntax error: unmatched '{'", &[(9, "")]), (false, "Syntax error: expected '}', was end of course", &[(17, "")]), (false, "Syntax error: unmatched '}'", &[(16, "")])]),
    ("@match 1 {$x & $x -> a}", &[(false, "Warning: name 'x' already bound in this pattern; did you mean '=$x'?", &[(15, "")])]),
    ("@let(x=1) {$x::foo}", &[(true, "Name error: value of type 'int' has no such attribute 'foo'", &[(11, "")])]),
    ("@let(x=[]) {$x::0}", &[(true, "Runtime error: index out of bounds (index 0, length 0)", &[(12, "")])]),
    ("@raise `foo`", &[(true, "Runtime error: foo", &[(0, "")])]),
    ("<p><div/></p>", &[(true, "Type error: 'div' tag not allowed within parent tag 'p'", &[(3, "")])]),
    ("<i a=1 a=2>x</i>", &[(false, "Syntax error: duplicate attribute name 'a'", &[(7, "")]), (true, "Runtime error: received multiple values for attribute 'a'", &[(7, "")])]),
    ("<i a=[1]>x</i>", &[(true, "Type error: expected str, was int list", &[(5, "")])]),
    ("[1, k=2]", &[(false, "Syntax error: named argument not allowed here", &[(4, "")])]),
    ("[1, **2]", &[(false, "Syntax error: named spread not allowed here", &[(4, "")])]),
    ("[*1]", &[(true, "Type error: expected html list, was int", &[(2, "")])]),
    ("@int::parse `x`", &[(true, "Runtime error: failed to parse int (invalid digit found in string)", &[(0, "")])]),
    ("@str::unique_id(0) `x`", &[(true, "Type error: too many positional arguments (expected 0, was 1)", &[(0, "")])]),
    ("@code(`zz`, True) `x`", &[(true, "Type error: too many positional arguments (expected 0, was 2)", &[(0, "")])]),
    ("@export(x=1). @export(x=2).", &[(false, "Warning: name 'x' already exported", &[(24, "")])]),
    ("@list::sorted [[],[]]", &[(true, "Type error: sort key must be str or int, was none list", &[(0, "")])]),
    ("<$nope>x</>", &[(true, "Name error: no such variable 'nope'", &[(1, "")])]),
    ("@match <i/> {<i></b> -> a}", &[(false, "Syntax error: incorrect closing tag in match pattern; use </> for unnamed tag", &[(16, "")])]),
    ("@fn f $*c -> .", &[(false, "Syntax error: expected variable name, was text", &[(6, "")])]),
    ("@f(\"x", &[(false, "Syntax error: unexpected end of source", &[(5, "")]), (false, "Syntax error: unmatched double-quote", &[(3, "")]), (false, "Syntax error: unmatched '('", &[(2, "")]), (false, "Syntax error: expected ')', was end of course", &[(5, "")])]),
    ("[99999999999999999999]", &[(false, "Syntax error: invalid number (number too large to fit in target type)", &[(1, "")]), (false, "Syntax error: unmatched '['", &[(0, "")]), (false, "Syntax error: expected ']', was end of course", &[(22, "")]), (false, "Syntax error: unmatched ']'", &[(21, "")])]),
    ("@let(x=\"a $nope\") {$x}", &[(true, "Name error: no such variable 'nope'", &[(10, "")])]),
    ("@href `nofile.txt` x", &[(true, "Type error: not enough positional arguments (expected 1, was 0)", &[(0, "")])]),
    ("<i ?=1>x</i>", &[(false, "Syntax error: expected name, was '?'", &[(3, "")]), (false, "Syntax error: unmatched '<'", &[(0, "")]), (false, "Syntax error: expected '>', was end of course", &[(12, "")]), (false, "Syntax error: unmatched closing tag", &[(8, "")])]),
    ("@match 1 {[$x::0] -> a}", &[(false, "Syntax error: variable pattern must be a simple name, not indexed access", &[(11, "")]), (false, "Syntax error: unmatched '['", &[(10, "")]), (false, "Syntax error: expected ']', was end of course", &[(23, "")]), (false, "Syntax error: unmatched '{'", &[(9, "")]), (false, "Syntax error: expected '}', was end of course", &[(23, "")]), (false, "Syntax error: unmatched ']'", &[(16, "")]), (false, "Syntax error: unmatched '}'", &[(22, "")])]),
    ("@match 1 {_ -> $nope}", &[(true, "Name error: no such variable 'nope'", &[(15, "")])]),
    ("@let(f=@fn($_x) . -> [$_x, $nope]) {@f(1) .}", &[(true, "Name error: no such variable 'nope'", &[(36, ""), (27, "@<anonymous>")])]),
    ("@fn r($_n) . -> @match $_n {0 -> @raise `end`, _ -> @r(0) .} @r(1) .", &[(true, "Runtime error: end", &[(61, ""), (52, "@r"), (33, "@r")])]),
    ("@list::map(@fn($_x) . -> $nope) [1]", &[(true, "Type error: expected none, was int", &[(0, "")])]),
    ("@fn f($x: int = `a`) . -> $x @f .", &[(true, "Type error: expected int, was str", &[(16, "")]), (true, "Runtime error: missing required parameter 'x'", &[(29, "")])]),
    ("<i $nope>x</i>", &[(false, "Syntax error: expected name, was variable name", &[(3, "")]), (false, "Syntax error: unmatched '<'", &[(0, "")]), (false, "Syntax error: expected '>', was end of course", &[(14, "")]), (false, "Syntax error: unmatched closing tag", &[(10, "")]), (true, "Name error: no such variable 'nope'", &[(3, "")])]),
    ("<i x=$nope>x</i>", &[(true, "Name error: no such variable 'nope'", &[(5, "")])]),
    ("<i **$nope>x</i>", &[(true, "Name error: no such variable 'nope'", &[(5, "")])]),
    ("{a {b $nope} c}", &[(true, "Name error: no such variable 'nope'", &[(6, "")])]),
    ("<p>a $nope b</p>", &[(true, "Name error: no such variable 'nope'", &[(5, "")])]),
    ("@implicit(x=$nope) {a}", &[(true, "Name error: no such variable 'nope'", &[(12, "")])]),
    ("@export(x=$nope).", &[(true, "Name error: no such variable 'nope'", &[(10, "")])]),
    ("@export @fn f $c -> $nope @f x", &[(true, "Name error: no such variable 'nope'", &[(26, ""), (20, "@f")])]),
    ("@function::bind($nope) x", &[(true, "Name error: no such variable 'nope'", &[(16, "")])]),
    ("@fn f($_a: int) . -> $_a @f(`x`) .", &[(true, "Type error: expected int, was str", &[(28, "")])]),
    ("@fn f($a: int) . -> $a @f(a=`x`) .", &[(true, "Type error: expected int, was str", &[(28, "")])]),
    ("@fn f(*$_a: int list) . -> $_a @f(1, `x`) .", &[(true, "Type error: expected int, was str", &[(37, "")])]),
    ("@fn f($a?: int) . -> $a @f(a=`x`) .", &[(true, "Type error: expected int, was str", &[(29, "")])]),
    ("<p>x <div>y</div></p>", &[(true, "Type error: 'div' tag not allowed within parent tag 'p'", &[(5, "")])]),
    ("<h1><hr></h1>", &[(true, "Type error: 'hr' tag not allowed within parent tag 'h1'", &[(4, "")])]),
    ("@let(x=`b`) {$x::nope}", &[(true, "Name error: value of type 'str' has no such attribute 'nope'", &[(13, "")])]),
    ("@let(x=`b`) {$x::9}", &[(true, "Type error: expected any list, was str", &[(13, "")])]),
    ("$nope::x", &[(true, "Name error: no such variable 'nope'", &[(0, "")])]),
    ("@let(x=[1]) {@x::nope .}", &[(true, "Name error: value of type 'int list' has no such attribute 'nope'", &[(13, "")])]),
    ("a &#xZZ; b", &[(false, "Syntax error: invalid entity", &[(2, "")])]),
    ("<i>a</b>", &[(false, "Syntax error: unmatched closing tag", &[(4, "")]), (false, "Syntax error: unmatched opening tag", &[(0, "")])]),
    ("@match [1] {[$x, $y] -> a}", &[(true, "Runtime error: no matching branch in @match", &[(0, "")])]),
    ("@match $nope {_ -> a}", &[(true, "Name error: no such variable 'nope'", &[(7, "")])]),
    ("@match 1 {=$nope -> a}", &[(true, "Name error: no such variable 'nope'", &[(11, "")]), (true, "Runtime error: no matching branch in @match", &[(0, "")])]),
    ("@match 1 {1 -> $nope, _ -> a}", &[(true, "Name error: no such variable 'nope'", &[(15, "")])]),
    ("<$t>x</>", &[(true, "Name error: no such variable 't'", &[(1, "")])]),
    ("@let(t=`a b`) {<$t>x</>}", &[(true, "Name error: invalid tag name 'a b'", &[(16, "")])]),
    ("@let(t=1) {<$t>x</>}", &[(true, "Name error: invalid tag name '1'", &[(12, "")])]),
];
