//! Programs that between them use every construct and native function.
pub const CORPUS: &[&str] = &[
    /* 0 text */
    "Hello, `world` \"a\" 'b' -- --- ... \\n\\x41\\u00e9 &lt;&#65;",
    "a\n\nb # c\n\n<!-- d --> e |f| 1,000 -5 x*y",
    "(c) (r) -> <= 1/2 x:y ?! _a_ **b** A::b",
    "``a ` b`` ```c```",
    "```none\nx;\n```",
    "```\n  a\n b\n```",
    "\\U0001F600\\u00e9\\xe9&eacute;&#xE9;&#233;",
    "'tis \"q\" don't ('a') [\"b\"] {'c'}",
    /* 8 tags */
    "<b>x</b><i/>y<br/><hr>",
    "<a href=`u` x?=. **@dict::new(c=`d`).>z</a>",
    "<ul><li>a</li>\n\n<li>b</li></ul>",
    "<table><tr><td>1</td></tr></table>",
    "<div>a\n\nb<p>c</p></div>",
    "@let(t=`em`) <$t class=\"a $t\">x</>",
    "<dl><dt>a</dt><dd>b</dd></dl>",
    "<!DOCTYPE html><html><head><title>x</title></head><body>y</body></html>",
    "<img src=`a` alt='b'><input disabled>",
    "<i data_x=`1` lang=''>z</i>",
    /* 18 values */
    "[1, -2, True, `s`, ., {}, [x, *[y]]]",
    "@let(x=5, y=[1, 2]) {$x $y::0 $y::-1}",
    "@dict::new(a=1, b=`c`).",
    "@let(d=@dict::new(a=1).) {$d::a}",
    "{a {b} {c\n\nd}} @let(q=.) $q?::a",
    "@let(y=1, z=`c`) {\"x$y\" '$z' \"\\\"a\\$b\"}",
    /* 24 functions */
    "@fn ff($a, $b: int = 2, $c?: str) $d -> [$a, $d]\n@ff(a=1) z",
    "@fn gg(*$_v, **$k) $_ -> {$_v $k}\n@gg(1, *[2], x=3, **@dict::new(y=4).).",
    "@fn hh($j, $i: @implicit int) . -> $i\n@implicit(i=3) @hh(j=2).",
    "@let(f=@fn($_a) $b -> {$b$_a}) @f(`q`) r",
    "@function::call(@fn($a) $b -> $b, a=1) 2",
    "@let(f=@function::bind(@fn($_a, $_b) $c -> $c, 1).) @f(2) x",
    "@fn kk($y: int? list) $x: int -> $x\n@kk(y=[1, .]) 5",
    "@export(x=1).",
    "@export @fn mm . -> @let(x=1) $x",
    "@implicit(zz=1) {a}",
    /* 34 match */
    "@match 5 {5 -> a, -6 -> b, _ -> c}",
    "@match `ab` {'a$x' -> $x, _: str -> d, $y -> e}",
    "@match [1, [2], 3] {[] -> a, [$x, [*$_r], _: int] -> $x, [*_, 1] -> b}",
    "@match @dict::new(a=1, b=2). {(a=$x, **$k) -> {$x$k}, (c=_) -> d}",
    "@match <b id=`c`>x</b> {<b id=$i **$k>$v</b> -> {$i$v}, <$t>_</> -> e}",
    "@match {<a/>x<b/>} {{<a/> *$s <b/>} -> $s, _: html -> t}",
    "@let(z=4) @match 5 {=$z -> a, 1 | 2 & $x -> b, _: int? -> c}",
    "@match . {. -> a, _: none -> b, _: int? list dict -> c}",
    /* 42 natives */
    "[@bool::and(True, False)., @bool::or(True, False)., @bool::from 0]",
    "@let(b=True, i=3) [@b::negate., @i::negate., @i::add(4)., @int::parse `5`]",
    "@let(s=`Ab c`) [@s::len., @s::upper., @s::lower., @s::trim., @s::is_empty.]",
    "[@str::split(`,`) `a,b`, @str::starts_with(`ab`, `a`)., @str::ends_with(`ab`, `b`).]",
    "[@str::unique_id(max_length=3) `ab c`, @str::is_whitespace ` `, @str::from 5]",
    "[@str::escape_html `<`, @html::escape_html <b/>, @html::is_empty ., @html::is_whitespace ` `]",
    "@html::parse `<!DOCTYPE html><b c=\"d\">e</b><br>&amp;`",
    "@let(r=@regex::compile `(a)b*`) [@r::test `ab`, @regex::find_all($r) `ab`]",
    "@let(l=[3, 1, 2]) [@l::sorted., @list::reversed $l, @l::len., @l::get(1)., @l::is_empty.]",
    "@let(l=[1, 2]) [@l::map(@fn $x -> [$x])., @l::filter(@fn $x -> True)., @l::find(@fn $x -> False).]",
    "@let(l=[1, 2]) [@l::all(@fn $x -> True)., @l::any(@fn $x -> False)., @l::contains(2)., @l::flat.]",
    "@let(l=[1, 2, 3]) [@l::slice(1, -1)., @l::enumerate(from=5)., @l::join(`,`)., @list::html_nodes {a<b/>}]",
    "@list::sorted(key=@fn $x -> $x::0, reversed=True) [[1, a], [0, b]]",
    "@let(d=@dict::new(a=1).) [@dict::keys $d, @dict::values $d, @dict::items $d, @dict::get(`a`) $d]",
    "[@dict::len @dict::new(x=1)., @dict::is_empty @dict::new.]",
    "[@file::read `nope`, @file::list `nope`]",
    "@file::write(`o.html`) x",
    "@code(language=`none`, code_block=True, first_line_no=5) `a\\nb`",
    "@code(language=`papyri`) `$x`",
    "@import `nope`",
    "@include `nope`",
    "@raise `oops`",
    "@net::fetch_raw `http://x`",
    "@typeof [1, `a`, .]",
    /* 67 standard library */
    "@href(`u`) x @image(alt=`a`) `u`",
    "@numbered [a, b] @footnote x",
    "@class(`k`) <b class=`j` id=`i`>x</b>",
    "@style(`k`) @attributes(a=`b`, c=.) <i/>",
    "@h1 x @blockquote(cite=`u`) y @kbd `z`",
    "@code_block(language=`none`) ```x```",
    "@page(title=`t`, footer=<b/>) {x}",
    "@typeof @inline::from <b/> @html::tag_name <b/>",
];
