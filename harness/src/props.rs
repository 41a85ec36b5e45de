//! What is explored for each property, and with which oracle.

use crate::corpus::*;
use crate::engine::*;
use crate::ops::{self, Op};
use crate::oracles::*;
use crate::lexref;
use crate::run::*;
use crate::values;
use crate::work;
use conch_parser::token::Token;

pub fn tree(name: &str, pre: &[&str], suf: &[&str], alpha: &[&str], depth: usize, o: &Oracle) -> Scenario {
    Scenario {
        name: name.to_string(),
        kind: Kind::Tree { pre: strs(pre), suf: strs(suf), alpha: strs(alpha), depth },
        oracle: o.clone(),
        plain: true,
    }
}

/// A tree whose texts carry more than the program (a context, a list of operations).
fn coded_tree(name: &str, pre: Vec<String>, suf: &[&str], alpha: &[&str], depth: usize, o: &Oracle) -> Scenario {
    Scenario {
        name: name.to_string(),
        kind: Kind::Tree { pre, suf: strs(suf), alpha: strs(alpha), depth },
        oracle: o.clone(),
        plain: false,
    }
}

pub fn list(name: &str, v: Vec<String>, o: &Oracle) -> Scenario {
    family(name, (v.len(), Box::new(move |k| v[k].clone())), o)
}

pub type Family = (usize, Box<dyn Fn(usize) -> String + Send + Sync>);

pub fn family(name: &str, (n, f): Family, o: &Oracle) -> Scenario {
    Scenario { name: name.to_string(), kind: Kind::Index { n, f }, oracle: o.clone(), plain: true }
}

fn coded(mut s: Scenario) -> Scenario {
    s.plain = false;
    s
}

/// Every pair of an element of `a` and one of `b`, joined.
fn pairs(a: Vec<String>, b: Vec<String>, join: &'static str) -> Family {
    let n = b.len();
    (a.len() * n, Box::new(move |k| format!("{}{}{}", a[k / n], join, b[k % n])))
}

fn own(v: Vec<&str>) -> Vec<String> {
    strs(&v)
}

fn all() -> Vec<String> {
    own(all_bases())
}

/// Those of at most `n` pieces.
fn short(v: Vec<String>, n: usize) -> Vec<String> {
    v.into_iter().filter(|s| pieces(s).len() <= n).collect()
}

fn topics(t: &[&str]) -> Vec<String> {
    t.iter().flat_map(|t| own(bases(t))).collect()
}

/// Symbols from every corner of the grammar.
const GENERAL: &[&str] = &[
    "a", " ", "\n", ";", "&", "|", "(", ")", "{", "}", "!", "#", "\"", "'", "`", "$", "\\", "<<", ">", "=", "1", "if",
];

/// Every construct with every number of parts, up to a few of each.
fn sizes(n: usize) -> Vec<String> {
    let many = |k: usize, f: &str, join: &str| (0..k).map(|i| f.replace('@', &((b'a' + i as u8) as char).to_string())).collect::<Vec<_>>().join(join);
    let body = |k: usize| many(k, "@", "; ");
    let mut v = Vec::new();
    for g in 1..=n {
        for b in 1..=n {
            for els in 0..=n {
                for elifs in 0..=n {
                    let e = if els == 0 { String::new() } else { format!("else {}; ", body(els)) };
                    let mid = (0..elifs).map(|k| format!("elif {}; then {}; ", body(1 + (g + k) % n), body(1 + (b + k + 1) % n))).collect::<String>();
                    v.push(format!("if {}; then {}; {}{}fi", body(g), body(b), mid, e));
                }
            }
            for r in 0..=n + 1 {
                let io = many(r, ">@", " ");
                v.push(format!("while {}; do {}; done {}", body(g), body(b), io));
                v.push(format!("until {}\ndo {}\ndone {} | b", body(g), body(b), io));
                v.push(format!("for i in {}; do {}; done {}", many(g, "w@", " "), body(b), io));
                v.push(format!("{{ {}; }} {}", body(b), io));
                v.push(format!("f() ({}) {} && {}", body(b), io, body(g)));
                v.push(format!("case w in {}) {};; esac {}", many(g, "p@", "|"), body(b), io));
            }
            for arms in 0..=n {
                let a = (0..arms).map(|k| format!("{}) {};;\n", many(1 + (g + k) % n, "p@", " | "), body((b + k) % (n + 1)))).collect::<String>();
                v.push(format!("case w in {}esac", a));
                v.push(format!("case w in {}(q) {}\nesac", a, body(b)));
            }
            for w in 0..=n {
                v.push(format!("{} {} {}", many(g, "x@=1", " "), many(w, "w@", " "), many(b, ">f@", " ")));
                v.push(format!("{} {} {}", many(g, "<f@", " "), many(b, "x@=1", " "), many(w, "w@", " ")));
                v.push(format!("{} {} {}", many(w, "w@", " "), many(g, "2>&1", " "), many(b, "x@=1", " ")));
                v.push(format!("{}{}{}", many(w, "$@", ""), many(g, "'@'", ""), many(b, "\"@\"", "")));
                v.push(format!("\"{}{}\"{}", many(g, "$@ ", ""), many(w, "`@`", ""), many(b, "\\@", "")));
                v.push(format!("a {} {}\n{}", many(g, "<<@", " "), many(w, "#@", " "), many(g, "x\n@\n", "")));
                v.push(format!("$(({}))", [many(g, "@", "+"), many(b, "@", "*"), many(w, "-@", " ** ")].join(if w == 0 { "" } else { " , " }).trim_end_matches(" , ")));
                v.push(format!("${{a:-{}{}{}}}", many(g, "$@", ""), many(b, " @", ""), many(w, "'@'", "")));
            }
            for k in 0..=n {
                v.push(format!("{}{} && {}{}", "! ".repeat(k % 2), many(g, "@", " | "), many(b, "@", " || "), "\n#c".repeat(k)));
                v.push(format!("{}{}", many(g, "@ &", " "), many(b, " @;", "")));
                v.push(format!("{}{}{}", "\n".repeat(k), many(g, "@\n", "\n"), many(b, "#@\n", "\n")));
            }
        }
    }
    v
}

/// What every property of parsing is explored on: everything once.
fn shared(v: &mut Vec<Scenario>, o: &Oracle, quick: bool) {
    v.push(tree("any short text", &[""], &[""], GENERAL, if quick { 4 } else { 6 }, o));
    v.push(family("every single edit of every base program", edit1(&all(), &edit_alphabet()), o));
    v.push(family("programs in command contexts in command contexts", compose(vec![command_contexts(), command_contexts()], all()), o));
    v.push(family("words in word contexts in command contexts", compose(vec![command_contexts(), word_contexts()], words()), o));
    v.push(family("words in word contexts in word contexts", compose(vec![word_contexts(), word_contexts()], words()), o));
    v.push(list("every number of parts", sizes(if quick { 3 } else { 4 }), o));
    v.push(list("growing texts", pumps(if quick { 1000 } else { 70_000 }), o));
    v.push(family("every character wherever one may matter", characters(quick), o));
    if !quick {
        v.push(family("every two edits of the short base programs", edit2(&short(all(), 14), &edit_alphabet(), &strs(&[" ", "\n", ";", "&", "|", ")", "(", "{", "}", "'", "\"", "`", "\\", "$", "<<", ">", "#", "=", "a", "1", "do", "fi", "in", "esac"])), o));
    }
}

/// A representative character of every class the lexer knows, and odd ones.
const CHARS: &[&str] = &[
    "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "`", "{", "|", "}", "~",
    "_", "a", "Z", "0", "1", "9", " ", "\t", "\n", "\r", "\u{b}", "\u{c}", "\u{0}", "\u{7f}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "é", "ß", "中", "٣", "²", "Ⅷ",
    "😀", "\u{301}", "\u{200d}", "\u{feff}",
];

const OPERATORS: &[&str] = &["<", ">", "&", "|", ";", "-", "$", "\\", "1", "a", " ", "\n", "(", "#"];

/// Every Unicode character in a number of surroundings.
fn unicode(around: &'static [&'static str]) -> Family {
    const N: usize = 0x110000;
    (
        N * around.len(),
        Box::new(move |k| {
            let c = char::from_u32((k % N) as u32).unwrap_or('x');
            around[k / N].replace('@', c.encode_utf8(&mut [0; 4]))
        }),
    )
}

/// Where a single character may matter to the parser.
const AROUND: &[&str] = &[
    "@", "a @ b", "a@b", "\\@a", "\"@\"", "\"\\@\"", "'@'", "@=b", "a=@", "a@=b", "~@", "@#c\n", "#@\na", "a;@\nb", "@>f", "1@>f", "a >@", "a >&@", "a >&1@", "$@", "$a@", "${@}", "${a@}", "${a:@b}", "${a:-@}", "${#@}", "$((@))", "$((a @ b))",
    "$((1@))", "$((0x@ + a@))", "if@a; then b; fi@", "{@a; }", "f@() { a; }", "for @ in a; do b; done", "for i@in a; do b; done", "case a@in @) b;; esac", "function @ { a; }", "`\\@`", "$(@)", "a |@ b &&@ c", "!@a", "cat <<E\n@\nE\nb", "cat <<E\nE@\nE\nb",
    "cat <<-E\n@a\n@E\n\t@b\n\tE@\nE\nb", "cat <<@\nE\n@\nb", "cat <<'@'E\n@\n@E\nb", "cat <<E@\na\nE\nE@\nb", "cat <<E\n\\@$@\nE\nb", "`cat <<-E\n@a\n\tE\n` b",
    "a >&'@'", "a <&\"@1\"", "a >&\\@", "a <&@1", "'@'>f", "\\@>f", "\"@\">&1", "2@<<E\nE\n", "${1@}", "${@:-b}", "${@a}", "${a@b}", "${a##@}", "${a%%@b}", "$1@", "$$@", "$((@a))", "$((a@=1))", "$((a ? b@: c))", "$((-@1))", "\"$@\"", "\"${@}\"", "`a@b`", "`@a`", "`a\\\\@`",
    "cat <<\"@\"\n@\n@E\nb", "cat <<\\@\n@\nb", "cat <<E@F\nE@F\nb", "case a in @b|c@) d;; esac", "case a in b) c@;; esac", "for a@ in b; do c; done", "for a in b@ c; do@d; done", "f@a() { b; }", "f(@) { b; }", "function@a { b; }", "function a@{ b; }", "{ a;}@", "(a)@b", "(@a)", "if a; then b; fi@c",
    "while a; do b; done@>c", "! @", "a &&@b", "a |@|b", "a @#c\n", "@'a'", "a@'b'", "a@$b", "a\\\n@b", "@\\\n", "\"a\\\n@\"", "a \\@", "x=1@y=2 a",
];

/// Every Unicode character at these places (`few`: those up to U+3100, and all numeric and blank ones).
fn characters(few: bool) -> Family {
    let v: Vec<char> = (0..0x110000).filter_map(char::from_u32).filter(|c| !few || (*c as u32) < 0x3100 || c.is_numeric() || c.is_whitespace()).collect();
    let n = v.len();
    (n * AROUND.len(), Box::new(move |k| AROUND[k / n].replace('@', v[k % n].encode_utf8(&mut [0; 4]))))
}

fn lexing(v: &mut Vec<Scenario>, o: &Oracle, chars: usize, operators: usize) {
    v.push(tree("any characters", &[""], &[""], CHARS, chars, o));
    v.push(tree("operators", &[""], &[""], OPERATORS, operators, o));
    v.push(list("base programs", all(), o));
    v.push(family("every single edit of every base program", edit1(&all(), &edit_alphabet()), o));
    v.push(family("words in word contexts in word contexts", compose(vec![word_contexts(), word_contexts()], words()), o));
}

fn names() -> Vec<String> {
    strs(&["if", "then", "else", "elif", "fi", "while", "until", "do", "done", "for", "in", "case", "esac", "function", "{", "}", "!"])
}

/// Reserved words in every disguise.
fn disguises() -> Vec<String> {
    let mut v = Vec::new();
    for f in [
        "@", "'@'", "\"@\"", "\\@", "@''", "''@", "@\"\"", "@$x", "$x@", "@`x`", "@=1", "@\\\n", "\\\n@", "@x", "x@", "@1", "1@", "_@", "@_", "@>f", "@<f", "@;", "@&", "@|x", "@(", "@)", "@()",
        "@#", "#@", "@ #c\n", "@\\ ", "@*", "@~", "@:", "@-", "-@", "@=", "=@", "@}", "{@", "@{", "}@", "!@", "@!", "$@", "${@}", "@,", "@[", "@@", "@\t", "@\n", "@\\x", "@<<E\nE\n", "@&&x", "@||x", "@;;",
    ] {
        for n in names() {
            v.push(f.replace('@', &n));
        }
    }
    v
}

fn positions() -> Vec<String> {
    [
        "@", "@ a", "a @", "a @ b", "x=1 @", "x=1 @ a", ">f @", ">f @ a", "x=@", "x=@ a", ">@", "@; then b; fi", "if @; then b; fi", "if a; then @; fi", "if a; then b; @", "if a; then b; else @; fi", "{ @ }", "{ a; @", "{ a @; }",
        "a; @", "a & @", "a\n@", "a | @", "a && @", "a ||\n@", "! @", "! @ a", "for i in @; do @; done", "for @ in a; do b; done", "for @; do b; done", "for i @ a; do b; done", "for i in a; @ b; done", "for i in a; do b; @",
        "case @ in a) b;; esac", "case a @ b) c;; esac", "case a in @) b;; esac", "case a in (@) b;; esac", "case a in b|@) c;; esac", "case a in b) @;; esac", "case a in b) c;; @", "case a in b) @\nesac", "(@)", "( @ )", "( a; @ )",
        "while @; do b; done", "while a; @ b; done", "until a; do @; done", "until a; do b; @", "f() { @; }", "f() @", "@() { a; }", "@ () { a; }", "function @ { a; }", "function @ () { a; }", "function f @", "$(@)", "`@`", "\"$(@ a)\"", "${x:-@}", "\"@\"",
        "cat <<E; @\nE\n", "cat <<E @\nE\n", "if a; then b; fi @", "{ a; } @", "(a) @", "f() { a; } @", "if a; then b; fi >f @",
    ]
    .iter()
    .map(|s| s.replace("@", "\u{1}"))
    .collect()
}

fn arith_ops() -> Vec<&'static str> {
    vec![
        "+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", ",", "?", ":",
    ]
}

/// Operands and operators in a row: `e1 op1 e2 op2 e3 op3 e4`.
fn arith_chains(n: usize, glue: &'static str) -> Family {
    let ops = arith_ops();
    let k = ops.len();
    (
        k.pow(n as u32),
        Box::new(move |mut i| {
            let mut s = format!("$((a{}", glue);
            for v in ["b", "c", "d", "e"].iter().take(n) {
                s += ops[i % k];
                s += glue;
                s += v;
                s += glue;
                i /= k;
            }
            s + "))"
        }),
    )
}

/// As above, with operands in every form.
fn arith_operands() -> Family {
    let ops = arith_ops();
    let forms = [
        "a", "$a", "${a}", "1", "0", "07", "08", "0x1f", "0X1F", "0xg", "-a", "+a", "!a", "~a", "++a", "--a", "a++", "a--", "- -a", "+ +a", "!-a", "-++a", "~--a", "a++ +", "(a)", "(a+b)", "(a,b)", "(a=b)", "(a?b:c)", "((a))", "", " ",
        "$1", "$", "${a:-1}", "$(a)", "`a`", "'a'", "\"a\"", "a b", "1 2", "a1", "1a", "\\\na", "\na", "a\\\n", "#", "@", "[", "{", "é", "99999999999999999999",
    ];
    let (k, m) = (ops.len(), forms.len());
    (
        k * m * m * 2,
        Box::new(move |mut i| {
            let a = forms[i % m];
            i /= m;
            let b = forms[i % m];
            i /= m;
            let o = ops[i % k];
            if i / k == 0 {
                format!("$(({} {} {}))", a, o, b)
            } else {
                format!("\"$(({}{}{}))\"", a, o, b)
            }
        }),
    )
}

/// Here-documents: operator, delimiter, what follows on the line, body, end.
fn heredocs(quick: bool, few: bool) -> Family {
    let cut = |v: Vec<String>, n: usize| if few { v.into_iter().take(n).collect() } else { v };
    let ops = cut(strs(&["<<", "<<-", "3<<", "<< ", "<<-\\\n"]), 3);
    let delims: Vec<(&str, &str)> = vec![
        ("E", "E"), ("'E'", "E"), ("\"E\"", "E"), ("\\E", "E"), ("E\"F\"", "EF"), ("'E F'", "E F"), ("E\\ F", "E F"), ("\"E\\\"\"", "E\""), ("\"E\\$\"", "E$"), ("\"E\\x\"", "E\\x"), ("$E", "$E"), ("\"$E\"", "$E"), ("${E}", "${E}"),
        ("$(E f)", "$(E f)"), ("`E f`", "`E f`"), ("E1", "E1"), ("1", "1"), ("E#", "E#"), ("-E", "-E"), ("E*?", "E*?"), ("{E}", "{E}"), ("!", "!"), ("é", "é"), ("'\tE'", "\tE"), ("''E", "E"), ("E''", "E"), ("(E)", "(E)"), ("E=F", "E=F"), ("\\\\", "\\"),
        ("'E\nF'", "E\nF"), ("if", "if"), ("esac", "esac"),
    ];
    let delims: Vec<(&str, &str)> = delims.into_iter().take(if few { 8 } else { 99 }).collect();
    let rests = cut(strs(&["", " b", "; b", " $(c\nd)", " \"q\nr\"", " <<F", " | b", " && b", " # c", " `c\nd`", " \\\n b", " >f", " #'", "&", " ${x:-\n}", " 'q\nr' s"]), 6);
    let bodies = cut(strs(&[
        "", "a\n", "\ta\n", "$a\n", "\\$a\n", "@ \n", "x@\n", "`a`\n", "\t@\n", "a\\\n", "\n", "a\n\nb\n", "\t\ta\n \tb\n", "${a}\n", "$(a)\n", "\\\n", "\\\\\n", "\\`\n", "\\\"\n", "'\n", "\"\n", " @\n", "@@\n", "\\@\n", "@x\n", "#a\n", "a\tb\n", "\r\n", "$\n",
        "é\n", "$((1+2))\n", "$(cat <<X\nb\nX\n)\n", "a\\\n@\n", "\t\n", "\t\t\n",
    ]), 10);
    let ends = cut(strs(&["@\n", "@", "", "\t@\nz", "@\nz", "@\r\nz", "@\nF\nz", "@\nf2\nF\nz )"]), 5);
    let outer: Vec<&str> = if quick { vec!["%", "{ %}", "`%`"] } else { vec!["%", "{ %}", "(%)", "$(%)", "`%`", "\"$(%)\"", "if %then b; fi", "x; %y", "${x:-$(%)}", "f() { %\n}"] };
    let outer = strs(&outer);
    let dims = [ops.len(), delims.len(), rests.len(), bodies.len(), ends.len(), outer.len()];
    (
        dims.iter().product(),
        Box::new(move |mut i| {
            let mut take = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            let (e, b, r, d, o, w) = (take(dims[4]), take(dims[3]), take(dims[2]), take(dims[1]), take(dims[0]), take(dims[5]));
            let (text, plain) = delims[d];
            let s = format!("cat {}{}{}\n{}{}", ops[o], text, rests[r], bodies[b].replace('@', plain), ends[e].replace('@', plain));
            outer[w].replace('%', &s)
        }),
    )
}

/// Redirections: what precedes, descriptor, operator, gap, target, what follows, where.
fn redirects(few: bool) -> Family {
    // The most common forms only.
    let cut = |v: Vec<String>, n: usize| if few { v.into_iter().take(n).collect() } else { v };
    let pre = cut(strs(&["", "a ", "{ a; } ", "a", "a\\\n", "x=1 ", "x=", "$a", "'a'", "\"a\" ", "(a)", "if a; then b; fi ", "f() { a; } ", "f() (a)", "a >b ", "a >&1", "! ", "a | ", "\\", "1 ", "case a in esac "]), 3);
    let fd = cut(strs(&["", "1", "10", "65536", "a1", "1 ", "0", "2", "9", "007", "65535", "99999999999", "1a", "-1", "+1", "1.", "$1", "'1'", "\\1", "1'", "_1", "1\\\n", "é1", "٣", "1_"]), 6);
    let op = strs(&[">", ">>", ">|", "<", "<>", ">&", "<&", "<<<", ">>>", "&>", "> >", "<-"]);
    let gap = cut(strs(&["", " ", "\\\n", "\n", "\t \\\n"]), 2);
    let target = cut(strs(&["f", "", "1", "-", "\"1\"", "$x", "1-", "--", "12", "${x}", "'1'", "\\1", "1a", "a1", "\"-\"", "'-'", "`x`", "$(x)", "1$x", "$x-", "''", "*", "~", "#c", "if", "{", "}", "!", "&1", "(x)", "f=g", ">g", "1>g", "\"$1\"", "é", "-1", "\"1a\"", "1\"2\"", "$1\"a\""]), 6);
    let post = cut(strs(&["", " 2>c", " b", ";b", ")", "\n", "&b"]), 2);
    let dims = [pre.len(), fd.len(), op.len(), gap.len(), target.len(), post.len()];
    (
        dims.iter().product(),
        Box::new(move |mut i| {
            let mut s = String::new();
            for (n, list) in dims.iter().zip([&pre, &fd, &op, &gap, &target, &post]) {
                s += &list[i % n];
                i /= n;
            }
            s
        }),
    )
}

/// Programs with places for layout. Markers: `·` a blank, `◦` perhaps a blank, `¶` perhaps line breaks, `¬` a blank or line breaks,
/// `§` a separator, `⟮` perhaps an opening parenthesis, `∅` perhaps `()`.
const TEMPLATES: &[&str] = &[
    "◦a·b·c◦¶",
    "¶a·b§c·d¶",
    "a◦&¶b◦&¶c◦&◦",
    "a◦&&¶b◦||¶c§!·d",
    "◦!·a◦|¶b◦|¶c◦&¶d",
    "x=1·y=$z·a·b◦>◦c·2>◦d·<◦e",
    "a◦>&◦2◦<◦b◦>>◦c",
    "{·¶a§¶b§¶}◦>◦f",
    "(¶a§¶b◦)◦>◦f·2>&1",
    "◦(◦a◦|◦b◦)◦&&¶{·c§}",
    "if·¶a§¶then·¶b§¶elif·¶c§¶then·¶d§¶else·¶e§¶fi◦>◦f",
    "if¬a§then¬b§fi◦;¶c",
    "while·¶a§¶do·¶b§¶done◦|¶c",
    "until¬a§do¬b§done·<f",
    "for·i·¶in·a·b§¶do·¶c§¶done",
    "for·i§do·a§done",
    "for·i¬do·a§done",
    "for·i¶\n◦do¬a§done",
    "case·a¬in¬⟮◦b◦|◦c◦)¶d◦;;¶⟮e◦)¶f§¶g◦;;¶esac",
    "case·a¬in¬⟮b◦)◦;;¶⟮◦c)¶d§¶esac◦>f",
    "case·\"$a\"¬in¬esac",
    "f◦(◦)¶{·¶a§¶}◦>◦b",
    "f◦(◦)¶(◦a◦)",
    "function·f∅¬{·a§}",
    "function·f∅¬(◦a◦)",
    "f◦(◦)¶if·a§then·b§fi",
    "$(◦¶a·b§¶c◦)·d",
    "\"$(◦a·b◦|¶c◦)\"·d",
    "`◦a·b§c◦`·d",
    "x=$(◦a◦)·b·${c:-$(◦d·e◦)}",
    "$((◦a◦+◦b◦*◦(◦c◦-◦d◦)◦))·e",
    "$((◦a◦=◦b◦?◦c◦:◦d◦,◦-◦e◦))",
    "$((◦a◦+=◦++◦b◦<<◦c◦--◦))",
    "cat◦<<◦E·b§c\nbody $x\nE\n¶d·e",
    "cat·<<E◦<<-◦'F'·b\nbody\nE\n\tf\nF\nc·d§e",
    "{·cat·<<E\nbody\nE\n¶a§¶}◦>f",
    "while·a§¶do·if·b§then·(◦c◦)◦&¶fi§¶done§{·d§}",
];

fn variants(m: char) -> Option<&'static [&'static str]> {
    Some(match m {
        '·' => &[" ", "\t", "  \t ", "\\\n", " \\\n", "\\\n\\\n\t", "\u{b}", "\u{3000}\r"],
        '◦' => &["", " ", "\t\t", "\\\n", " \\\n\\\n "],
        '¶' => &["", " ", "\n", "\n\n", " \n\t\n ", "\\\n\n", "\n \\\n"],
        '¬' => &[" ", "\n", "\t", "\\\n", "\n\n ", " \\\n\n"],
        '§' => &[";", " ; ", "\n", ";\n", "\n\n", "\\\n;", " ;\\\n\n ", "; \n\t\n"],
        '⟮' => &["", "(", "( ", "(\\\n"],
        '∅' => &["", "()", " ()", " ( )", "\\\n(\\\n)"],
        _ => return None,
    })
}

/// Every layout of a template with at most `d` places not in the canonical form.
fn layouts(t: &str, d: usize) -> Vec<String> {
    let marks: Vec<char> = t.chars().filter(|c| variants(*c).is_some()).collect();
    let render = |pick: &[(usize, usize)]| {
        let mut s = String::new();
        let mut k = 0;
        for c in t.chars() {
            match variants(c) {
                Some(v) => {
                    let w = pick.iter().find(|p| p.0 == k).map_or(0, |p| p.1);
                    s += v[w];
                    k += 1;
                }
                None => s.push(c),
            }
        }
        s
    };
    let canon = render(&[]);
    let heredoc_line_end = canon.find("<<").map_or(usize::MAX, |p| p + canon[p..].find('\n').unwrap_or(0));
    let mut out = Vec::new();
    fn go(marks: &[char], from: usize, left: usize, pick: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&[(usize, usize)])) {
        f(pick);
        if left == 0 {
            return;
        }
        for k in from..marks.len() {
            for w in 1..variants(marks[k]).unwrap().len() {
                pick.push((k, w));
                go(marks, k + 1, left - 1, pick, f);
                pick.pop();
            }
        }
    }
    // Byte offset of each mark in the canonical form, to tell which stand on a here-document operator's line.
    let mut at = Vec::new();
    let mut n = 0;
    for c in t.chars() {
        match variants(c) {
            Some(v) => {
                at.push(n);
                n += v[0].len();
            }
            None => n += c.len_utf8(),
        }
    }
    let chars: Vec<char> = t.chars().collect();
    let mut places = Vec::new();
    for (k, c) in chars.iter().enumerate() {
        if variants(*c).is_some() {
            places.push(k);
        }
    }
    go(&marks, 0, d, &mut Vec::new(), &mut |pick| {
        for &(k, w) in pick {
            let v = variants(marks[k]).unwrap()[w];
            // A line break on such a line would start the body.
            let real_newline = v.replace("\\\n", "").contains('\n');
            if real_newline && at[k] <= heredoc_line_end && heredoc_line_end != usize::MAX && canon[..at[k]].contains("<<") {
                return;
            }
            // An escaped newline alone does not keep digits apart from an operator.
            let c = chars[..places[k]].last().copied().unwrap_or(' ');
            let next = chars.get(places[k] + 1).copied().unwrap_or(' ');
            if v.starts_with("\\\n") && c.is_ascii_digit() && (next == '>' || next == '<') {
                return;
            }
        }
        out.push(format!("{}\u{1e}{}", canon, render(pick)));
    });
    out
}

fn templates() -> Vec<&'static str> {
    TEMPLATES.to_vec()
}

/// Every sequence of at most `n` operations.
fn sequences(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| ops.iter().map(move |o| s.iter().copied().chain([*o]).collect())).collect();
        out.extend(last.clone());
    }
    out
}

fn with_sequences(seqs: Vec<Vec<Op>>, texts: Vec<String>) -> Family {
    let n = texts.len();
    (seqs.len() * n, Box::new(move |k| with_ops(&seqs[k / n], &texts[k % n])))
}

/// Fragments: what partial entry points are given.
fn fragments() -> Vec<String> {
    let mut v = all();
    v.extend(words());
    for f in [
        "do a; done b", "do a\n#c\ndone; b", "{ a; } b", "{ a; }>f b", "(a) b", "(a) >f; b", "( a ; b )c", "()", "{ }", "<<E\nbody\nE\nb", "<<-'E' b\n\tx\n\tE\nc", ">f >g b", "2>&1 >f\nb", "1 >f", "1>f", "a>f", "if", "if a", "in a", "then b; fi", "fi b", "done", "do",
        "esac", ";;", "a ;; b", "a;; b", "a esac", "a\nesac b", "} b", "}", "{", "!", "! a", ") b", "a ) b", "a; ) b", "f() { a; } b", "f () (a) b", "function f { a; } b", "function f\n(a)", "f(", "f()", "function", "while a; do b; done c", "until a\ndo b\ndone>f c",
        "for i in a; do b; done c", "for i; do a; done", "case a in b) c;; esac d", "#c\na", " \n#c\n\n a", "\n", " ", "\t\\\n a", "\\\n", "\\", "1+2)) b", "a=1)) b", "a, b", "a ? b : c", "(a)", "-a", "a b", "$a b", "$(a) b", "${a} b", "`a` b", "`a", "\"a\" b", "a\"b\"c'd' e",
        "a  b", "a #b", "#", "a|b|c d", "a && b || c; d", "a & b", "a\n\nb\n", "x=1 a >b", "x=1;", "x= a", "$", "$$ b", "1", "if\\\n", "doa", "do;", "{a", "{\n", "}a", "'do'", "\"if\"", "\\if",
    ] {
        v.push(f.to_string());
    }
    // Every beginning of a compound command, after blanks.
    for f in ["if a; then b; elif c; then d; else e; fi >f g", "while a; do b; done >f g", "until a; do b; done", "do a; done b", "for i in a b; do c; done d", "for i; do c; done", "case a in (b|c) d;; e) f; esac >g h", "{ a; } >f b", "(a) >f b", "f () { a; } b", "function f { a; }", "x=1 >f a b", "! a | b && c; d", "1>&2 >f a"] {
        let mut s = String::new();
        for p in pieces(f) {
            s += &p;
            v.push(format!(" {}", s));
            v.push(format!("\\\n\t{}", s));
        }
    }
    v
}

fn params() -> Vec<String> {
    let mut v = strs(&["@", "*", "#", "?", "-", "$", "!", "_", "a", "A1", "_1", "foo_bar9", "if", "é", "中a", "a1é"]);
    for n in (0..=300u32).chain([999, 1000, 65_535, 65_536, 1_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_294, 4_294_967_295]) {
        v.push(n.to_string());
    }
    v
}

/// Where a parameter's text may stand.
fn param_contexts() -> Vec<String> {
    let mut v: Vec<String> = [
        "@", "a @", "a@", "@b", "@1", "@_", "a@b c", "@@", "@@@", "@ @", "@$", "\"@\"", "\"a@b\"", "\"@@\"", "\"@\"1", "x=@", "x=@ b", "x=@1 b", ">@", "a 2>&@", "${x:-@}", "${x-@1}", "${x=a@b}", "${x#@}", "${x%%@@}", "\"${x:+@}\"", "`@`", "`a @`", "$(@)", "$(a @b)", "\"$(@)\"", "for i in @; do a; done",
        "case @ in a) b;; esac", "case x in @) b;; esac", "case x in a|@) b;; esac", "a | @", "{ @; }", "(@)", "if @; then b; fi", "cat <<E\n@\nE\n", "cat <<E\na@b1\nE\n", "cat <<-E\n\t@@\n\tE\n", "'q'@", "@'q'", "\\q@", "@\\q", "@#", "#@".trim_start_matches('#'), "@=1", "@*", "@~", "~@", "@:-a", "@}", "{@", "@[1]", "@%a", "@/b",
        "@-", "@?", "a&&@", "@;b", "@&b", "@|b", "@>f", "@<f", "!@".trim_start_matches('!'), "x=1 @", "`\"@\"`",
    ]
    .iter()
    .map(|s| s.replace('@', "\u{1}"))
    .collect();
    v.dedup();
    v
}

pub fn token_symbols() -> Vec<String> {
    strs(&[
        "a", "N:if", "N:then", "N:fi", "N:do", "N:done", "N:for", "N:in", "N:case", "N:esac", "N:while", "N:function", "1", "N:E", " ", "\n", ";", "&", "|", "&&", "||", ";;", "(", ")", "{", "}", "!", "#", "'", "\"", "`", "\\", "$", "$1", "<<", "<<-", "<", ">", ">>", ">&", "<&", ">|",
        "<>", "=", "+", "-", "*", "?", ":", "%", "~", "@", "^", "/", ",", "[", "]",
    ])
}

fn odd_symbols() -> Vec<String> {
    strs(&[
        "N:", "L:", "W:", "N:1", "N:a b", "N:\n", "L:a", "L:if", "L:\n", "L:\"", "L:'", "L:`", "L:$", "L:\\", "L: ", "L:é", "L:65536", "L:0x", "L:08", "L:-", "W:\n", "W:a", "W:\t\ta", "W: \n ", "L:#", "L:E", "N:é", "L:\u{0}", "L:}", "L:)",
    ])
}

fn in_tokens(v: Vec<String>) -> Vec<String> {
    v.into_iter().map(|s| format!("{}{}", s, TOK_END)).collect()
}

/// Tokens a lexer may come up with, though the one here does not, or not there.
fn foreign_symbols() -> Vec<String> {
    strs(&[
        "N:a\nb", "W: \n ", "L:a", "L:if", "L:in", "L:\n", "L:a\nb", "L:\"", "L:'", "L:`", "L:$", "L:\\", "L: ", "L:\t", "L:é", "L:65536", "L:0x", "L:08", "L:0", "L:1", "L:-", "L:#", "L:E", "L:}", "L:)", "L:<<", "L:&&", "W:\t", "W:  \t", "$0", "$12",
    ])
}

fn divided(kind: &Token, s: &str) -> Vec<Token> {
    let is_name = |s: &str| s.chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) && !s.starts_with(|c: char| c.is_ascii_digit());
    match kind {
        Token::Whitespace(_) => vec![Token::Whitespace(s.to_string())],
        Token::Name(_) | Token::Literal(_) if is_name(s) => vec![Token::Name(s.to_string())],
        Token::Name(_) | Token::Literal(_) => vec![Token::Literal(s.to_string())],
        _ => lexref::tokens(s),
    }
}

/// The text as other lexers may divide it.
fn divisions(text: &str) -> Vec<Vec<Token>> {
    let toks = lexref::tokens(text);
    let mut v = vec![toks.clone()];
    // one token in two, everywhere
    for (i, t) in toks.iter().enumerate() {
        let s = t.as_str();
        if s.starts_with('\\') && s.len() > 1 {
            continue; // a joined line
        }
        for (at, _) in s.char_indices().skip(1) {
            let mut n = toks[..i].to_vec();
            n.extend(divided(t, &s[..at]));
            n.extend(divided(t, &s[at..]));
            n.extend_from_slice(&toks[i + 1..]);
            v.push(n);
        }
    }
    // every character on its own, of every kind of token, of names and literals, of operators
    for kinds in 0..3 {
        v.push(
            toks.iter()
                .flat_map(|t| {
                    let word = matches!(t, Token::Name(_) | Token::Literal(_));
                    let plain = kinds == 1 && !word || kinds == 2 && (word || matches!(t, Token::Whitespace(_))) || t.as_str().starts_with('\\');
                    if plain {
                        return vec![t.clone()];
                    }
                    t.as_str().chars().flat_map(|c| divided(t, &c.to_string())).collect()
                })
                .collect(),
        );
    }
    // two neighbours as one literal, and what is not special as a literal
    for i in 0..toks.len() {
        let joined = |k: usize| Token::Literal(toks[i..i + k].iter().map(|t| t.as_str().to_string()).collect());
        for k in 1..3 {
            let special = |t: &Token| matches!(t, Token::Newline | Token::Whitespace(_)) || t.as_str().starts_with('\\') && t.as_str().len() > 1;
            if i + k > toks.len() || k > 1 && toks[i..i + k].iter().any(special) {
                continue;
            }
            let mut n = toks[..i].to_vec();
            n.push(joined(k));
            n.extend_from_slice(&toks[i + k..]);
            v.push(n);
        }
    }
    v
}

fn foreign_tokens(v: &mut Vec<Scenario>, o: &Oracle, quick: bool) {
    let pick = |q: usize, t: usize| if quick { q } else { t };
    let enc = |t: &[Token]| t.iter().map(token_symbol).collect::<String>();
    let alpha: Vec<String> = in_tokens(token_symbols().into_iter().chain(foreign_symbols()).collect());
    let al: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
    v.push(coded_tree("any tokens", vec![String::new()], &[""], &al, pick(3, 4), o));
    let some = in_tokens(strs(&["N:a", "L:a", "L:1", "N:if", "N:fi", "N:then", "L:if", "L:#", "L:\n", "W: ", "\n", "\\", "$", "$1", "$12", "{", "}", "(", ")", "=", "`", "\"", "'", "<", "<<", ">&", "-", ":", ";", "&", "&&", "#", "~"]));
    let some: Vec<&str> = some.iter().map(|s| s.as_str()).collect();
    v.push(coded_tree("any of some tokens", vec![String::new()], &[""], &some, pick(4, 5), o));
    let pre = ["`", "\"", "$ {", "$ ( (", "<< N:E \n", "<<- N:E \n W:\t\t", "N:a =", "$ { N:a : -", "N:case W:_ N:a W:_ N:in W:_", "N:for W:_", "#", "` \\", "\"  ` $", "L:1 >", "N:if W:_ N:a ;", "N:a ( ) {"];
    let pre = pre.iter().map(|p| p.split(' ').filter(|s| !s.is_empty()).map(|s| format!("{}{}", s.replace("W:_", "W: "), TOK_END)).collect::<String>()).collect();
    v.push(coded_tree("any tokens in the middle of things", pre, &["", "`\u{1f}", "}\u{1f}", ")\u{1f})\u{1f}", "\"\u{1f}", "\n\u{1f}L:E\u{1f}"], &al, pick(2, 3), o));
    v.push(coded_tree("any tokens, operations", ops::every().into_iter().map(|o| with_ops(&[o], "")).collect(), &[""], &al, pick(2, 2), o));
    let texts: Vec<String> = all().into_iter().chain(words()).collect();
    v.push(coded(list("base programs and words as other lexers divide them", texts.iter().flat_map(|t| divisions(t)).map(|t| enc(&t)).collect(), o)));
    let frags = fragments();
    let divided: Vec<String> = frags.iter().flat_map(|t| divisions(t).into_iter().skip(1)).map(|t| enc(&t)).collect();
    v.push(coded(family("operations on fragments as other lexers divide them", with_sequences(ops::every().into_iter().map(|o| vec![o]).collect(), divided), o)));
    let al1: Vec<String> = if quick { in_tokens(foreign_symbols()) } else { alpha.clone() };
    let ps = |v: Vec<String>| -> Vec<Vec<String>> { v.iter().map(|t| lexref::tokens(t).iter().map(token_symbol).collect()).collect() };
    v.push(coded(family("every single edit of the tokens of the base programs", edit1_pieces(ps(texts), &al1), o)));
    if !quick {
        let chars: Vec<Vec<String>> = all().iter().map(|t| divisions(t).into_iter().filter(|d| d.len() > 1).max_by_key(|d| d.len()).unwrap_or_default().iter().map(token_symbol).collect()).collect();
        v.push(coded(family("every single edit of the base programs in tokens of one character", edit1_pieces(chars, &alpha), o)));
    }
}

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25",
];

pub fn scenarios(id: &str, quick: bool) -> Vec<Scenario> {
    let mut v = Vec::new();
    let pick = |q: usize, t: usize| if quick { q } else { t };
    let ast = conform(AST);
    match id {
        "C01" | "C02" => {
            let o = if id == "C01" { oracle(c01) } else { oracle(c02) };
            lexing(&mut v, &o, 4, pick(6, 7));
            v.push(family(
                "every Unicode character in context",
                unicode(&["@", "a@", "@a", "@1", " @ ", "@@", "\\@", "\\@a", "$@", "1@", "<@", "#@", "\\\\@@"]),
                &o,
            ));
            v.push(tree("names, digits and escapes", &["", "a", "$", "\\"], &["", "a", "\\"], &["a", "_", "1", "$", "\\", "é", " ", "\t", ".", "٣"], pick(5, 7), &o));
            v.push(list("growing texts", pumps(70_000), &o));
        }
        "C03" => {
            let o = oracle(c03);
            lexing(&mut v, &o, 3, pick(4, 5));
            v.push(tree("operators next to each other", &[""], &[""], &["<", ">", "&", "|", ";", "-", "\n"], pick(5, 7), &o));
            v.push(family("every Unicode character in context", unicode(if quick { &["a@"] } else { &["@", "a@", "\\@", "$@a"] }), &o));
            v.push(list("growing texts", pumps(pick(130, 600)), &o));
        }
        "C04" => {
            let (t, p, k) = (oracle(c04_text), oracle(c04_program), oracle(c04_tokens));
            shared(&mut v, &p, quick);
            v.push(list("base programs and fragments, at every entry point", fragments(), &t));
            v.push(list("words, at every entry point", words(), &t));
            v.push(tree("any short text, at every entry point", &[""], &[""], GENERAL, pick(3, 4), &t));
            v.push(family("every single edit of the base programs, at every entry point", edit1(&topics(if quick { &["subst", "heredoc"] } else { TOPICS }), &strs(&[" ", "\n", ";", ")", "`", "\"", "'", "\\", "$", "{", "<<"])), &t));
            let toks: Vec<String> = in_tokens(token_symbols().into_iter().chain(odd_symbols()).collect());
            let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
            v.push(coded_tree("any tokens, at every entry point", strs(&[""]), &[""], &toks, pick(2, 3), &k));
            let odd: Vec<String> = in_tokens(odd_symbols().into_iter().chain(strs(&["\"", "'", "`", "\\", "$", "{", "<<", "<<-", "\n", " ", "(", "((", ")", "E", ";", "=", ">"])).collect());
            let odd: Vec<&str> = odd.iter().map(|s| s.as_str()).collect();
            let pre = ["", "`", "\"", "$ {", "$ ( (", "<< N:E \n", "<<- N:E \n W:\t\t", "N:a =", "$ { N:a : -", "N:case a N:in", "N:for", "#", "` \\"];
            let pre = pre.iter().map(|p| p.split(' ').filter(|s| !s.is_empty()).map(|s| format!("{}{}", s, TOK_END)).collect::<String>()).collect();
            v.push(coded_tree("odd tokens in the middle of things", pre, &["", "`\u{1f}", "}\u{1f}", ")\u{1f})\u{1f}"], &odd, pick(2, 3), &k));
            v.push(list("growing texts, big", pumps(pick(5000, 70_000)), &p));
        }
        "C05" => {
            let o = oracle(c05);
            let p = operations(POS | ERRPOS);
            shared(&mut v, &o, quick);
            v.push(tree("lines and wide characters", &["", "`", "\"", "$(", "cat <<E\n", "cat <<-E\n", "`cat <<E\n"], &["", " )", "\n)", "` )", "\" )", "\nE\n)"], &["a", "é", " ", "\n", "`", "\\", "\\`", "\\\\", "$", ")", "\"", "\t", "E\n", "#"], pick(4, 5), &o));
            v.push(tree("here-documents in backquotes", &["`cat <<E\n", "`cat <<-'E' \\\\\n", "`\\`cat <<E\n", "\"`cat <<-E #\n"], &["E\n` )", "\nE\n\\`` )", "\n\tE\n`\" )", "` )", " )"], &["é", "\t", "\n", "\\\\", "\\$", "$a", "\\`", "${", "E", "b\n"], pick(4, 6), &o));
            v.push(coded(family("operations on fragments", with_sequences(sequences(&ops::every(), 1), fragments()), &p)));
            foreign_tokens(&mut v, &foreign(POS | ERRPOS), true);
            v.push(coded(family("operations after looking ahead", with_sequences(
                ops::LOOKING.iter().flat_map(|a| ops::every().into_iter().map(move |b| vec![*a, b])).collect(), if quick { own(bases("heredoc")).into_iter().chain(topics(&["subst", "comment"])).collect() } else { fragments() }), &p)));
        }
        "C23" => foreign_tokens(&mut v, &foreign(AST | COMMENTS | ERR | POS | ERRPOS), quick),
        "C06" => {
            shared(&mut v, &ast, quick);
            v.push(tree("separators", &[""], &[""], &["a", " ", "\n", ";", "&", "|", "&&", "||", "! ", "(", ")", "{ ", "}", "#c"], pick(6, 7), &ast));
            v.push(tree("lists within", &["{ ", "(", "if ", "`", "$(", "case a in b) ", "f() { "], &["}", "; }", ")", "; then b; fi", "`", ";; esac", "\nesac", "\n}"], &["a", ";", "&", "\n", "|", "&&", "|| ", "! ", "#c\n", "(b)"], pick(4, 6), &ast));
            v.push(tree("pipelines", &["", "! "], &["", "\n"], &["a ", "! ", "| ", "|\n", "&& ", "||\n", "; ", "& ", "(a) ", "{ a; } ", ">f ", "x=1 ", "!", "\\\n"], pick(5, 6), &ast));
        }
        "C07" => {
            let o = conform(AST | ERR | ERRPOS);
            shared(&mut v, &o, quick);
            keywords(&mut v, &o, quick);
            let open = strs(&["{ a;", "(a", "if a;", "if a; then b;", "if a; then b; else c;", "if a; then b; elif c;", "while a;", "while a; do b;", "until a; do", "for", "for i", "for i in a", "for i in a;", "for i; do a;", "case", "case a", "case a in", "case a in b", "case a in b)", "case a in b) c;;", "case a in (b|", "f()", "f() {", "function", "function f", "$(a", "$((1", "$((1)", "`a", "\"a", "'a", "${a", "${a:-b", "a >", "a 2>&", "a <<", "a &&", "a |", "!", "a=", "x=(", "<<E a"]);
            v.push(family("unfinished programs, cut, extended and mixed", edit2(&open, &edit_alphabet(), &strs(&[" ", "\n", ";", ")", "}", "fi", "done", "esac", "'", "\"", "`", "a", "#", "\\", ";;", "&", "|", "("])), &o));
            v.push(family("unfinished in unfinished", compose(vec![open.iter().map(|s| format!("{} \u{1}", s)).collect(), open.iter().map(|s| format!("{} \u{1}", s)).collect()], strs(&["", ")", "}", "; }", "fi", "; fi", "done", "; done", "esac", ";; esac", "`", "\"", "'", "))", "\n", " a", ";", "&", "|", "then b; fi", "do b; done", "in b) c;; esac"])), &o));
            v.push(tree("delimiters", &[""], &[""], &["(", ")", "{ ", "; }", "}", "`", "\"", "'", "${", "$(", "$((", "))", "a", "\\", ";", "\n"], pick(5, 6), &o));
            v.push(coded(family("operations on fragments", with_sequences(sequences(&ops::every(), 1), fragments()), &operations(AST | ERR | ERRPOS))));
        }
        "C08" => {
            shared(&mut v, &ast, quick);
            keywords(&mut v, &ast, quick);
            v.push(family("reserved words in every disguise, everywhere", compose(vec![positions()], disguises()), &ast));
            v.push(family("two of them", compose(vec![strs(&["\u{1}; fi", "if \u{1}; fi", "while a; \u{1}; done", "{ \u{1}; }", "case a in \u{1}; esac", "\u{1}", "for i \u{1} done", "f() \u{1}"])], {
                let d = if quick { short(disguises(), 2) } else { disguises() };
                d.iter().flat_map(|a| d.iter().map(move |b| format!("{} {}", a, b))).collect()
            }), &ast));
        }
        "C09" => {
            shared(&mut v, &ast, quick);
            let chars = &["a", "1", "\"", "'", "\\", "`", "$", "*", "~", ":", "=", "{", "}", "#", "[", "!", "%", "\n", " ", "?"];
            v.push(tree("word characters", &["", "x ", "a=", "\""], &["", "\""], chars, pick(4, 5), &ast));
            v.push(tree("escapes", &["\\", "\"\\", "'", "\"", "a\"\\\\"], &["", "\"", "'", "a"], &["\\", "\"", "'", "`", "$", "\n", "a", " ", "\\\n", "&&", "$1", "<<", "*"], pick(4, 5), &ast));
            v.push(tree("assignments", &["", "a=1 ", ">f "], &["", " b"], &["a", "=", "1", "\"", "$", " ", "\\", "~", ":", "#", "_", "+", "'", "b="], pick(5, 6), &ast));
            v.push(tree("globs, tildes and brackets", &["", "\"", "a:"], &["", "\""], &["*", "?", "[", "]", "~", ":", "a", "-", "\\", "^", "!", " ", ",", "@", "/", "{", "}", "+", "%"], pick(4, 5), &ast));
            v.push(list("every token in every quoting", quotings(), &ast));
        }
        "C10" => {
            shared(&mut v, &ast, quick);
            v.push(tree("inside braces", &["${", "\"${", "${a", "${#", "${a:-", "${1", "${@"], &["", "}", "}\"", "}b"], &["a", "1", "#", "-", "?", "%", ":", "=", "+", "}", "\"", "'", "\\", "$", "{", "@", "!", "*", " ", "`", "("], pick(3, 4), &ast));
            v.push(tree("words in braces", &["${a:-", "\"${a%", "${a##", "${a?", "x ${#:="], &["}", "} }\"", "}\"}"], &["a", "}", "\"", "'", "\\", "${b}", "${b:-", "$(", ")", "`", "{", " ", "\n", ";", "#", "&"], pick(4, 5), &ast));
            v.push(tree("dollar signs", &["", "\"", "${a-", "cat <<E\n"], &["", "\"", "}", "\nE\n"], &["$", "1", "a", "_", "@", "*", "#", "?", "-", "!", "{", "}", "(", ")", " ", "\\", "'", "0"], pick(4, 5), &ast));
            v.push(family("every parameter, operator and word", substitutions(), &ast));
        }
        "C11" => {
            let w = oracle(c11_wrap);
            shared(&mut v, &ast, quick);
            let ctx: Vec<String> = SUBST_CONTEXTS.iter().map(|c| c.to_string()).collect();
            v.push(coded(family("base programs in every substitution", pairs(ctx.clone(), all(), "\u{1e}"), &w)));
            v.push(coded(family("compositions in every substitution", {
                let (n, f) = compose(vec![command_contexts()], strs(&["a", "a 'b' \"$c\" \\$d", "cat <<E\n$x \\$y\nE\n", "`a \\`b\\``", "a #c\n", "\"\\\\\" \\\" '\\'", "${x:-'}'}", "case a in b) c;; esac"]));
                let c = ctx.clone();
                let m = c.len();
                (n * m, Box::new(move |k| format!("{}\u{1e}{}", c[k % m], f(k / m))) as Box<dyn Fn(usize) -> String + Send + Sync>)
            }, &w)));
            v.push(coded(family("every single edit of base programs in substitutions", {
                let al = strs(&[" ", "\n", ";", "&", "|", "'", "\"", "\\", "$", "a", "#c\n", "(", ")", "`", "{", "}", "!"]);
                let (n, f) = edit1(&if quick { topics(&["list", "word", "subst"]) } else { all() }, &al);
                let c: Vec<String> = if quick { strs(&["\"a \u{1}\"", "${x:-\u{1}} b"]) } else { ctx.clone() };
                let m = c.len();
                (n * m, Box::new(move |k| format!("{}\u{1e}{}", c[k % m], f(k / m))) as Box<dyn Fn(usize) -> String + Send + Sync>)
            }, &w)));
            let pre: Vec<String> = if quick { strs(&["\u{1}\u{1e}", "\"a \u{1} b\"\u{1e}"]) } else { ctx.iter().map(|c| format!("{}\u{1e}", c)).collect() };
            v.push(coded_tree("any short program in substitutions", pre, &[""], &["a", " ", "\n", ";", "&", "|", "\"", "'", "\\", "$", "`", "(", ")", "#", "{ ", "}", "1", "*"], pick(4, 4), &w));
            v.push(tree("backquotes", &["`", "\"`", "${x:-`", "`a \\`", "cat <<E\n`"], &["`", "`\"", "`} )", "\\`b`", "`\nE\n)"], &["a", " ", "\\", "\\\\", "`", "\\`", "$", "\\$", "\"", "'", "\n", ";", "(", ")", "#", "<<", "&&", "1"], pick(4, 5), &conform(AST | COMMENTS)));
            v.push(tree("parentheses", &["$(", "\"$(", "a$("], &[")", ")\"", "))", ") b", ""], &["a", " ", "(", ")", "$(", ";", "\n", "#c\n", "'", "\"", "case a in b", ";;", "esac", "<<E\n", "E\n", "`"], pick(4, 5), &conform(AST | COMMENTS)));
        }
        "C12" => {
            v.push(family("every single edit of the arithmetic programs", edit1(&topics(&["arith"]), &edit_alphabet()), &ast));
            v.push(family("every two edits of the arithmetic programs", edit2(&topics(&["arith"]), &strs(&["+", "-", "*", "=", "(", ")", "<", ">", "&", "|", "?", ":", ",", "1", "a", " ", "!", "~", "$", "0x"]), &strs(&if quick { vec!["-", "=", "+"] } else { vec!["-", "=", "+", "(", ")", "*", "<", "&", "!", " ", ",", "?"] })), &ast));
            v.push(tree("expressions", &["$((", "\"$(("], &["))"], &["1", "a", "+", "-", "*", "/", "(", ")", "=", "<", ">", "&", "|", "!", "~", "?", ":", ",", " "], pick(5, 6), &ast));
            v.push(tree("operators", &["$((a", "$((", "$((a "], &["b))", " b))", "))", " 1 ) )"], &["+", "-", "*", "/", "%", "=", "<", ">", "&", "|", "^", "!", "~", "?", ":", ",", " ", "(", ")", "a", "1", "\\\n"], pick(4, 5), &ast));
            v.push(tree("literals", &["$((", "$((-", "$((a+"], &["))"], &["0", "1", "7", "8", "9", "x", "X", "a", "f", "g", "_", ".", " ", "$", "é"], pick(5, 6), &ast));
            v.push(family("operators in a row", arith_chains(3, ""), &ast));
            v.push(family("operators in a row, spaced", arith_chains(3, " "), &ast));
            v.push(family("operands around operators", arith_operands(), &ast));
            if !quick {
                v.push(family("four operators in a row", arith_chains(4, " "), &ast));
            }
            v.push(family("in contexts", compose(vec![command_contexts(), word_contexts()], own(bases("arith"))), &ast));
            v.push(list("growing texts", pumps(pick(1000, 70_000)), &ast));
            v.push(family("every character wherever one may matter", characters(quick), &ast));
            v.push(tree("any short text", &[""], &[""], GENERAL, pick(4, 5), &ast));
            v.push(coded(family("the expression parser itself", with_sequences(vec![vec![Op::Arith], vec![Op::SkipWs, Op::Arith], vec![Op::PeekTok, Op::Arith]], fragments().into_iter().chain(own(bases("arith")).iter().map(|s| s.trim_start_matches("$((").to_string())).collect()), &operations(AST | ERR))));
        }
        "C13" => {
            shared(&mut v, &ast, quick);
            v.push(family("redirections", redirects(false), &ast));
            v.push(tree("digits, operators and targets", &["", "a ", "{ a;}", "x=1 ", "f() { a;}", "(a)"], &["", " b"], &["a", "1", "20", "-", " ", ">", "<", ">>", "<<", ">&", "<&", "&", "|", "$x", "\"1\"", "\\", "\\\n", "\n", "'"], pick(4, 5), &ast));
            v.push(coded(family("the redirect parsers themselves", with_sequences(vec![vec![Op::Redirect], vec![Op::RedirectList], vec![Op::Simple], vec![Op::Compound], vec![Op::Redirect, Op::Redirect]], {
                let (n, f) = redirects(quick);
                (0..n).map(|k| f(k)).chain(topics(&["redirect", "heredoc", "compound"])).collect()
            }), &operations(AST | ERR))));
        }
        "C14" => {
            shared(&mut v, &ast, quick);
            v.push(family("operator, delimiter, line, body and end", heredocs(quick, false), &ast));
            v.push(tree("bodies", &["<<E\n", "<<-E\n", "<<'E'\n", "cat <<E; b\n", "a <<E <<-F\n", "<<-\"E\" |\n", "`<<E\n", "$(<<E\n"], &["", "\nE\nb", "\nE\n` b", "\nE\n) b", "\nF\nb"], &["E", "F", "\t", " ", "\n", "a", "$a", "`", "\\", "\"", "'", "\r", "$(", ")"], pick(4, 5), &ast));
            v.push(tree("delimiters", &["cat <<", "<<-", "{ <<"], &["\nbody\nE\nnext", "\nE\n", "\n$b\n\tE\n}"], &["E", "'", "\"", "\\", "$", "`", "(", ")", " ", "\n", "#", ";", "|", "&", "{", "}", "1", "\\\n", "é"], pick(4, 5), &ast));
            v.push(tree("the rest of the line", &["cat <<E", "<<E <<-'F'", "(cat <<E"], &["\nbody\nE\nnext\nF\nx", "\n$b\nE\n)", ""], &["a", " ", "#", "'", "\"", "`", "(", ")", "\n", "\\", "$(", ";", "|", "&", "<<G", "{ ", "}", "${"], pick(4, 5), &ast));
            v.push(tree("several", &["", "a "], &["", "\n"], &["<<A ", "<<-B ", "<<'C' ", "\n", "A\n", "B\n", "C\n", "\tB\n", "x\n", "; ", "| ", "$y\n", "z"], pick(5, 6), &ast));
            v.push(coded(family("the here-document parser itself", with_sequences(vec![vec![Op::Heredoc], vec![Op::Redirect], vec![Op::Heredoc, Op::Word], vec![Op::Heredoc, Op::Heredoc]], {
                let (n, f) = heredocs(true, quick);
                (0..n / 3).map(|k| f(k).trim_start_matches("cat ").to_string()).collect()
            }), &operations(AST | ERR))));
        }
        "C15" => {
            let o = oracle(c15);
            let r = relayout(true);
            shared(&mut v, &o, quick);
            v.push(tree("comments", &["", "a ", "{ ", "`", "if a"], &["", "\n", "`", "\n}", "\nthen b; fi"], &["a", " ", "#", "#c", "\n", ";", "&", "|", "(", ")", "\"", "'", "\\", "$"], pick(4, 5), &o));
            v.push(tree("comments in compound commands", &["if a #1\n", "for i #1\n", "case a #1\n", "{ #1\n", "while a #1\n", "f() #1\n", "(", "function f "], &["", "\n"], &["#c\n", " ", "\n", ";", "a", "then ", "fi", "in ", "do ", "done", "b)", ";;", "esac", "else ", "}", ")", "{ "], pick(4, 5), &o));
            v.push(list("comments put into base programs", all(), &r));
            v.push(list("comments put into programs with every number of parts", sizes(pick(3, 4)), &r));
            v.push(family("comments put into compositions", compose(vec![command_contexts()], all()), &r));
            v.push(family("comments put into compositions of compositions", compose(vec![command_contexts(), command_contexts()], strs(&["a", "a\n", "a\n\nb #c\n", "cat <<E\nbody\nE\n"])), &r));
            v.push(family("comments put into edits", edit1(&topics(if quick { &["comment", "compound"] } else { TOPICS }), &strs(&["\n", " ", ";", "#c\n", "&", "a", "\\\n"])), &r));
            v.push(tree("comments put into short texts", &[""], &["", "\n"], &["a", " ", "\n", ";", "&&", "|", "(", ")", "{ ", "}", "#c\n", "if ", "then ", "fi", "<<E", "E\n", "`"], pick(4, 5), &r));
        }
        "C16" => {
            let o = same_meaning(false);
            let r = relayout(false);
            let t: Vec<String> = templates().iter().flat_map(|t| layouts(t, pick(2, 3))).collect();
            v.push(coded(list("layouts of templates", t, &o)));
            v.push(list("layouts of base programs", all(), &r));
            v.push(list("layouts of programs with every number of parts", sizes(pick(3, 4)), &r));
            v.push(family("layouts of compositions", compose(vec![command_contexts()], all()), &r));
            v.push(family("layouts of compositions of compositions", compose(vec![command_contexts(), command_contexts()], strs(&["a b", "a\n", "a;b #c\n", "x=1 2>f a", "cat <<E b\nbody\nE\n"])), &r));
            v.push(family("layouts of words in contexts", compose(vec![command_contexts(), word_contexts()], if quick { strs(&["a", "a b", "\"a b\" c", "$((1 + 2))", "$(a b)", "x=y z", "a #c"]) } else { words() }), &r));
            v.push(family("layouts of edits", edit1(&topics(if quick { &["compound", "arith"] } else { TOPICS }), &strs(&["\n", " ", ";", "a", "\\\n", "&", "|", "1", ">", "#c\n"])), &r));
            v.push(tree("layouts of short texts", &[""], &["", "\n"], &["a", " ", "\n", ";", "&", "|", "(", ")", "{ ", "}", "if ", "then ", "fi", "1", ">", "=", "f()", "$((", "))", "<<E"], pick(4, 5), &r));
            v.push(tree("escaped newlines and blanks anywhere", &["", "if", "f", "for i", "case a"], &["", "\nfi"], &["\\\n", " ", "a", ";", "\n", "(", ")", "{", "}", "then", "in", "do", "done", "esac", "1", ">", "!", "#"], pick(4, 5), &ast));
            v.push(family("every character wherever one may matter", characters(quick), &ast));
            v.push(family("every single edit of every base program", edit1(&all(), &strs(&["\\\n", " ", "\t", "\n", " \\\n", "\u{3000}", "\r", "\u{b}"])), &ast));
        }
        "C17" => {
            let o = oracle(c17);
            v.push(coded_tree("words made by hand", strs(&[""]), &[""], &["a", "b", "_", "e", "p", "*", "?", "[", "]", "~", ":", "q", "r", "0", "\"", "S", "C", "D"], pick(5, 6), &oracle(c17_words)));
            v.push(list("every number of parts", sizes(pick(3, 4)), &o));
            v.push(list("base programs", all(), &o));
            v.push(family("every single edit of the base programs", edit1(&all(), &if quick { strs(&["a", " ", "\n", ";", "\"", "'", "\\", "$", "$a", "*", "~", "#", "`", "{", ")", "=", ">", "1"]) } else { edit_alphabet() }), &o));
            v.push(family("base programs in command contexts", compose(vec![command_contexts()], all()), &o));
            v.push(family("words in word contexts", compose(vec![word_contexts()], words()), &o));
            v.push(family("words in word contexts in word contexts", compose(vec![word_contexts(), word_contexts()], if quick { short(words(), 2) } else { words() }), &o));
            v.push(family("pairs of words glued together", pairs(words(), words(), ""), &o));
            v.push(tree("pieces of words", &["", "\"", "a=", "${x:-", "cat <<E\n"], &["", "\"", "}", "\nE\n"], &["a", "1", "\"", "'b'", "\\c", "\\\n", "$d", "${e}", "`f`", "*", "?", "~", ":", "[", "]", "{", "}", "="], pick(4, 5), &o));
            v.push(tree("any short text", &[""], &[""], GENERAL, pick(4, 5), &o));
            v.push(tree("lists and commands", &[""], &[""], &["a ", "! ", "&& ", "|| ", "| ", "; ", "& ", "\n", "{ ", "} ", "(", ") ", ">f ", "x=1 ", "#c\n", "f() ", "if ", "then ", "fi "], pick(4, 5), &o));
            v.push(family("every parameter, operator and word", substitutions(), &o));
            v.push(family("operands around operators", arith_operands(), &o));
            v.push(family("every character wherever one may matter", characters(quick), &o));
            v.push(list("growing texts", pumps(pick(300, 5000)), &o));
        }
        "C18" => {
            let (o, p) = (oracle(c18), oracle(c18_ops));
            v.push(list("every number of parts", sizes(pick(3, 4)), &o));
            v.push(list("base programs", all(), &o));
            v.push(family("base programs in command contexts", compose(vec![command_contexts()], all()), &o));
            v.push(family("programs in command contexts in command contexts", compose(vec![command_contexts(), command_contexts()], strs(&["a", "a #c\n", "cat <<E\n$b\nE\n", "x=1 a >b"])), &o));
            v.push(family("words in word contexts in command contexts", compose(vec![if quick { strs(&["\u{1}", "{ \u{1}; }", "`\u{1}`"]) } else { command_contexts() }, word_contexts()], words()), &o));
            v.push(family("every single edit of the base programs", edit1(&if quick { topics(&["compound", "subst", "comment"]) } else { all() }, &strs(&[" ", "\n", ";", "&", "|", ")", "`", "\"", "$a", "#c\n", "{", "a"])), &o));
            v.push(tree("any short text", &[""], &[""], GENERAL, pick(4, 5), &o));
            v.push(coded(family("operations on fragments", with_sequences(sequences(&ops::every(), 1), fragments()), &p)));
            v.push(coded(family("pairs of operations on fragments", with_sequences(sequences(ops::ALL, 2), if quick { strs(&["a b c", "{ a; } >f b", "f() { a; }\nb", "x=1 $a `b`", "if a; then b; fi; c", "#c\n\na"]) } else { short(fragments(), 9) }), &p)));
            v.push(list("growing texts", pumps(pick(20, 65)), &o));
        }
        "C19" => {
            let o = oracle(c19);
            shared(&mut v, &o, quick);
            v.push(tree("lines", &["", "{ "], &["", "\n)"], &["a", "\n", " ", ";", "&", "|", "&&", "\\", "#c", "{ ", "}", "(", ")", "<<E", "E\n", "\"", "'"], pick(5, 6), &o));
            let lines = strs(&["a\n", "a; b\n", "a &\n", "a &&\nb\n", "#c\n", "\n", "a #c\n", "cat <<E\nb\nE\n", "cat <<-E; d\n\tb\n\tE\n", "if a\nthen b\nfi\n", "{ a\nb\n}\n", "f() {\na\n}\n", "`a\nb`\n", "$(a\nb)\n", "\"a\nb\"\n", "case a in\nb) c;;\nesac\n", "for i in a\ndo b\ndone\n", "a \\\nb\n", "a |\nb\n", "! a\n", "(a\n)\n", "x=1\n", ">f\n", "'a\n'\n", "${a:-\n}\n", "cat <<A <<B\na\nA\nb\nB\n", "cat <<E", "a", ")", "fi\n", "a &", "a;", " ", "\\\n", "(a)(b)\n", "cat <<'E F'\nE\nE F\n", "$((1\\\n))\n", "while a; do\nb; done >f\n", "f() (a)\n", "function f\n{ a\n}\n"]);
            let l2 = lines.iter().map(|s| format!("{}\u{1}", s)).collect::<Vec<_>>();
            v.push(family("scripts of three pieces", compose(vec![l2.clone(), l2.clone()], lines.clone()), &o));
            if !quick {
                v.push(family("scripts of four pieces", compose(vec![l2.clone(), l2.clone(), l2], lines), &o));
            }
            v.push(family("two base programs", compose(vec![all().iter().map(|s| format!("{}\n\u{1}", s)).collect()], all()), &o));
        }
        "C20" => {
            let (o, t) = (operations(AST | COMMENTS | ERR), oracle(c20_transparent));
            v.push(coded(family("each operation on fragments", with_sequences(sequences(&ops::every(), 1), fragments()), &o)));
            v.push(coded(family("two operations on fragments", with_sequences(sequences(ops::ALL, 2), if quick { short(fragments(), 8) } else { fragments() }), &o)));
            v.push(coded(family("each operation on words in contexts", with_sequences(sequences(&ops::every(), 1), { let (n, f) = compose(vec![word_contexts()], words()); (0..n).map(|k| f(k)).collect() }), &o)));
            v.push(coded(family("each operation on edits", with_sequences(sequences(&ops::every(), 1), { let (n, f) = edit1(&if quick { short(all(), 12) } else { all() }, &strs(if quick { &[" ", "\n", "a", ";"] } else { &[" ", "\n", ";", "a", "#c\n", "(", ")"] })); (0..n).map(|k| f(k)).collect() }), &o)));
            v.push(coded(family("other arguments before and after other operations", with_sequences(ops::MORE.iter().flat_map(|a| ops::ALL.iter().flat_map(move |b| [vec![*a, *b], vec![*b, *a]])).collect(), if quick { short(fragments(), 5) } else { fragments() }), &o)));
            v.push(coded_tree("other arguments in short texts", ops::MORE.iter().map(|o| with_ops(&[*o], "")).collect(), &[""], &["a", "b", "1", " ", "\t", "  ", "\n", ";", "\\", "!", "$", "{", "}", "if", ")"], pick(3, 4), &o));
            v.push(coded(family("looking for other things before every command", with_sequences(sequences(&ops::peeks(), 1), fragments()), &t)));
            let looks = sequences(ops::LOOKING, 2);
            v.push(coded(family("looking ahead, twice, before every command", with_sequences(looks.clone(), all()), &t)));
            v.push(coded(family("looking ahead before commands in contexts", with_sequences(sequences(ops::LOOKING, pick(1, 2)), { let (n, f) = compose(vec![command_contexts()], if quick { short(all(), 14) } else { all() }); (0..n).map(|k| f(k)).collect() }), &t)));
            let pre = |seqs: Vec<Vec<Op>>| seqs.iter().map(|s| with_ops(s, "")).collect::<Vec<_>>();
            let alpha = &["a", " ", "\n", ";", "(", ")", "{", "if", "do", "1", ">", "#", "\\", "\"", "$", "=", "!"];
            v.push(coded_tree("operations on short texts", pre(sequences(&ops::every(), 1)), &[""], alpha, pick(3, 4), &o));
            v.push(coded_tree("looking ahead, then an operation", pre(ops::LOOKING.iter().flat_map(|a| ops::ALL.iter().map(move |b| vec![*a, *b])).collect()), &[""], alpha, pick(2, 3), &o));
            v.push(coded_tree("looking ahead in short texts", pre(sequences(ops::LOOKING, 1)), &[""], alpha, pick(4, 5), &t));
            v.push(coded(family("three operations", with_sequences(sequences(&[Op::SkipWs, Op::PeekTok, Op::PeekWord, Op::MaybeFunction, Op::Redirect, Op::Newline, Op::Word, Op::WordKeep, Op::Linebreak, Op::TakeTok, Op::TakeWord, Op::Parameter, Op::Simple, Op::Command], 3), if quick { strs(&["f () { a; }\nb", "if\\\n a >b 2>c\n", " { a; }; b", "1>f 2 >g a$b \n#c\nd"]) } else { short(fragments(), 9) }), &o)));
        }
        "C21" => {
            let (m, p, t) = (oracle(c21_messages), oracle(c21_param), oracle(c21_token));
            v.push(coded(family("every parameter in every context", pairs(param_contexts(), params(), "\u{1e}"), &p)));
            let alpha = &["a", "b", "Z", "_", "0", "9", "é"];
            let pre: Vec<String> = param_contexts().iter().take(if quick { 16 } else { 80 }).flat_map(|c| [format!("{}\u{1e}a", c), format!("{}\u{1e}_", c)]).collect();
            v.push(coded_tree("every short name", pre, &[""], alpha, pick(3, 4), &p));
            v.push(coded(list("numbers of positional parameters", (0..=255).map(|n| format!("positional {}", n)).collect(), &t)));
            let toks: Vec<String> = CHARS.iter().map(|s| s.to_string()).chain(token_symbols()).chain(strs(&["$0", "$2", "$3", "$4", "$5", "$6", "$7", "$8", "$9"])).collect();
            let places: Vec<String> = ["1\u{1e}1\u{1e}1\u{1e}4", "2\u{1e}30\u{1e}3\u{1e}1", "12\u{1e}345\u{1e}678\u{1e}9", "7\u{1e}8\u{1e}7\u{1e}10", "1000000\u{1e}1\u{1e}1000001\u{1e}99999", "3\u{1e}7\u{1e}5\u{1e}2", "3\u{1e}6\u{1e}4\u{1e}2"].iter().map(|s| s.to_string()).collect();
            let mut errs = Vec::new();
            for k in ["fd", "ident", "subst", "unmatched", "unexpected", "incomplete"] {
                for t in &toks {
                    errs.extend(places.iter().map(|p| format!("{}\u{1e}{}\u{1e}{}", k, t, p)));
                }
            }
            v.push(coded(list("an error of every kind", errs, &oracle(c21_error))));
            v.push(coded(list("every token", toks, &t)));
            v.push(coded_tree("names", strs(&["N:a", "N:_", "N:é"]), &[""], &["a", "_", "1", "é", "Z", "9"], pick(5, 7), &t));
            v.push(coded_tree("blanks", strs(&["W: ", "W:\t", "W:\u{3000}"]), &[""], &[" ", "\t", "\r", "\u{b}", "\u{a0}"], pick(5, 7), &t));
            v.push(coded_tree("literals", strs(&["L:.", "L:1", "L:😀"]), &[""], &[".", "1", "²", "😀"], pick(5, 7), &t));
            shared(&mut v, &m, quick);
            keywords(&mut v, &m, quick);
        }
        "C22" => {
            let o = oracle(c22);
            v.push(list("every number of parts", sizes(pick(3, 4)), &o));
            v.push(list("base programs", all(), &o));
            v.push(family("every single edit of every base program", edit1(&all(), &if quick { strs(&[" ", "\n", ";", "&", ")", "\"", "`", "\\", "$", "<<", "a", "#c\n", "|"]) } else { edit_alphabet() }), &o));
            v.push(family("base programs in command contexts", compose(vec![command_contexts()], all()), &o));
            v.push(family("two base programs", compose(vec![all().iter().map(|s| format!("{}\n\u{1}", s)).collect()], all()), &o));
            v.push(tree("any short text", &[""], &[""], GENERAL, pick(4, 5), &o));
            v.push(tree("commands and comments", &[""], &[""], &["a", "\n", ";", "&", "#c", " ", ")", "(", "<<E", "E", "\\", "\""], pick(5, 6), &o));
            v.push(list("growing texts", pumps(pick(130, 1000)), &o));
        }
        "C24" => {
            let o = |c: Vec<String>| oracle(values::c24(std::sync::Arc::new(c)));
            let (hand, two) = (oracle(values::c24_hand), oracle(values::c24_two));
            for name in values::BY_HAND {
                v.push(coded(family(&format!("made by hand: {}", name), (values::hand_len(name), Box::new(move |k| format!("{} {}", name, k))), &hand)));
            }
            let texts: Vec<String> = all().into_iter().chain(words()).chain(sizes(pick(2, 3))).collect();
            v.push(list("base programs, words and numbers of parts, in pairs", texts.clone(), &o(texts)));
            let mut subs = Vec::new();
            for p in ["a", "b", "@", "1", "10", "$"] {
                subs.push(format!("${{#{}}}", p));
                for op in [":-", "-", ":=", "=", ":?", "?", ":+", "+", "%", "%%", "#", "##"] {
                    for w in ["", "b", "$b", "'b'", "\"b\""] {
                        subs.push(format!("${{{}{}{}}}", p, op, w));
                    }
                }
            }
            v.push(list("substitutions in pairs", subs.clone(), &o(subs)));
            let mut reds = Vec::new();
            for op in ["<", ">", "<>", ">>", ">|", "<&", ">&", "<<"] {
                for fd in ["", "0", "1", "2", "12"] {
                    for w in ["f", "1", "-", "'f'", "$f"] {
                        reds.push(if op == "<<" { format!("a {}<<E\n{}\nE\n", fd, w) } else { format!("a {}{}{}", fd, op, w) });
                        reds.push(if op == "<<" { format!("{{ a; }} {}<<E\n{}\nE\n", fd, w) } else { format!("{}{}{} a", fd, op, w) });
                    }
                }
            }
            v.push(list("redirects in pairs", reds.clone(), &o(reds)));
            let near = |bases: Vec<String>, al: Vec<String>| -> Family {
                let f: Vec<(String, Family)> = bases.iter().map(|b| (b.clone(), edit1(&[b.clone()], &al))).collect();
                let ends: Vec<usize> = f.iter().scan(0, |n, (_, (m, _))| { *n += m; Some(*n) }).collect();
                (
                    ends.last().copied().unwrap_or(0),
                    Box::new(move |k| {
                        let i = ends.partition_point(|e| *e <= k);
                        let (b, (n, g)) = &f[i];
                        format!("{}\u{1e}{}", b, g(k + n - ends[i]))
                    }),
                )
            };
            v.push(coded(family("every single edit of every base program, with the program", near(all(), if quick { strs(&[" ", "\n", "b", "\"", "!", "&", "#c\n", "1", ">"]) } else { edit_alphabet() }), &two)));
            v.push(coded(family("every single edit of every number of parts, with the program", near(sizes(pick(2, 3)), strs(&[" ", "\n", ";", "b", "#c\n", "\"", "!", "&"])), &two)));
            v.push(tree("any short text", &[""], &[""], GENERAL, pick(3, 4), &o(strs(&["", "a", "a&", "a;", "a a", "a=", "$1", "'a'", "\"a\"", "a#", "#a", "!a", "\n"]))));
        }
        "C25" => {
            let (o, t) = (oracle(work::c25), oracle(work::c25_time));
            let contexts = &[
                "", "a ", "\"", "'", "`", "$(", "${a:-", "$((", "cat <<E\n", "cat <<E ", "cat <<'E'\n", "case a in ", "case a in b) ", "for i in ", "{ ", "(", "a=", ">", "f() {\n", "if a; then b", " #", "a | ", "a && ", "\"`", "\"$(", "$(( (", "`\\`", "${a",
            ];
            let units = &[
                "a", "b ", " ", "\n", ";", "&", "|", "(", ")", "{", "}", "!", "#", "\"", "'", "`", "$", "\\", "<<", ">", "=", "1", "if ", "then ", "fi", "a ", "E\n", "${", "$(", "$((", "a=", "for ", "in ", "do ", "done", "case ", "esac", ";;", "&&", "<<E", "<<E\nE\n", "'a'",
                "\\`", "+", "?", ":", "-", "\\\n", "#c\n", "))", "a\n", "<<-E\n\tE\n", "*", "~", "**", "é", "\t", "f() ", "[", "<<=", "\"$a\"", "a\\\"",
            ];
            let pre = |n: usize| -> Vec<String> { contexts.iter().take(n).flat_map(|c| units.iter().map(move |u| format!("{}\u{1e}{}", c, u))).collect() };
            v.push(coded_tree("repeated units, alone", pre(99), &["\u{1e}\u{1e}\u{1e}"], &[], 0, &o));
            v.push(coded_tree("repeated units, two by two", pre(99), &["\u{1e}\u{1e}\u{1e}"], units, 1, &o));
            let core = &["a", " ", "\n", ";", "&", "|", "(", ")", "{", "}", "#", "\"", "'", "`", "$", "\\", "<<", "=", "1", "if ", "for ", "case ", "E\n", "in ", "do "];
            if !quick {
                v.push(coded_tree("repeated units, up to four of a few", strs(&["\u{1e}", "\"\u{1e}", "`\u{1e}", "${a:-\u{1e}"]), &["\u{1e}\u{1e}\u{1e}"], core, 3, &o));
            }
            // Everything opened is closed again.
            let nests = [
                ("(", ")"), ("( ", " )"), ("{ ", ";}"), ("$(", ")"), ("\"$(", ")\""), ("${x:-", "}"), ("\"${x:-", "}\""), ("$((1+", "))"), ("((", "))"), ("if a; then ", "; fi"), ("if ", "; then a; fi"), ("if a; then b; else ", "; fi"), ("while a; do ", "; done"),
                ("for i in a; do ", "; done"), ("case a in b) ", ";; esac"), ("case a in b) ", "\nesac"), ("f() { ", "; }"), ("f() ( ", ")"), ("a | ", ""), ("! ", ""), ("x=", ""), (">", ""), ("a ", " b"), ("a\n", "\nb"), ("'a'", "\"b\""), ("cat <<E\n", "\nE\n"), ("$(cat <<E\n", "\nE\n)"), ("1+", ""), ("a=", ""), ("-", ""), ("(", "+1)"), ("1?", ":2"),
                ("a,", ",b"), ("a&&", "||b"), ("\\\n", "\\\n"), ("#c\n", "#d\n"), ("`a`", "`b`"),
            ];
            let mut deep = Vec::new();
            for (pre, suf) in [("", ""), ("$((", "))"), ("`", "`"), ("\"", "\""), ("x=", ""), ("cat <<E\n", "\nE\n"), ("cat <<E ", "\nE\n"), ("${y#", "}"), ("a $(", ")"), ("{ ", ";}")] {
                for (a, z) in nests {
                    for (b, y) in [("", "")].into_iter().chain(nests.iter().copied()).take(if quick && !pre.is_empty() { 1 } else { 99 }) {
                        for m in ["a", "1;"].into_iter().take(pick(1, 2)) {
                            deep.push(format!("{}\u{1e}{}{}\u{1e}{}\u{1e}{}{}\u{1e}{}", pre, a, b, m, y, z, suf));
                        }
                    }
                }
            }
            v.push(coded(list("nested units and their counterparts", deep, &o)));
            let mut deep = Vec::new();
            for (pre, suf) in [("", ""), ("$((", "))"), ("\"", "\"")] {
                for (a, z) in nests {
                    if !a.contains("<<") {
                        deep.push(format!("{}\u{1e}{}\u{1e}a\u{1e}{}\u{1e}{}", pre, a, z, suf));
                    }
                }
            }
            v.push(coded(list("deep texts", deep, &oracle(work::c25_deep))));
            let flat: Vec<String> = units.iter().filter(|u| !["(", "{", "$(", "${", "$((", "<<", "<<E", "<<E\nE\n", "<<-E\n\tE\n", "<<=", "if ", "case ", "for ", "f() "].contains(u)).map(|u| u.to_string()).collect();
            // A unit that nests in arithmetic (signs, parentheses) stays out of it.
            let pre: Vec<String> = contexts.iter().filter(|c| !c.starts_with("$((")).flat_map(|c| flat.iter().map(move |u| format!("{}\u{1e}{}", c, u))).collect();
            let al: Vec<&str> = flat.iter().map(|s| s.as_str()).collect();
            v.push(coded_tree("long texts", pre, &["\u{1e}\u{1e}\u{1e}"], &al, if quick { 0 } else { 1 }, &t));
            let mut long = Vec::new();
            for c in contexts.iter().filter(|c| !c.starts_with("$((")) {
                for u in ["a b ", "a\n", "$a", "a 'b'", "\\a", "a;b&", "a\n#c\n", "\"a\"", "`a`", "$(a) ", "${a}", ">a ", "a=b ", "a|", "a&&", "cat <<E\nb $c\nE\n", "a |\n", "if a; then b; fi\n", "b) c;;", "a b\\\n", "{ a; }\n", "f() { a; }\n", "$((1)) ", "*?[]~:", "2>&1 "] {
                    long.push(format!("{}\u{1e}{}\u{1e}\u{1e}\u{1e}", c, u));
                }
            }
            v.push(coded(list("long texts of whole commands", long, &t)));
        }
        _ => panic!("no such property: {}", id),
    }
    v
}

/// Trees over the keywords of the compound commands.
fn keywords(v: &mut Vec<Scenario>, o: &Oracle, quick: bool) {
    let pick = |q: usize, t: usize| if quick { q } else { t };
    v.push(tree("keywords", &[""], &[""], &["if ", "then ", "else ", "elif ", "fi ", "while ", "do ", "done ", "for ", "in ", "case ", "esac ", "a ", "; ", "\n", ") ", "{ ", "} ", "( ", "f() ", "function ", ";; "], pick(4, 5), o));
    v.push(tree("if", &["if a;", "if a; then b;", "if a; then b; else ", "if (a) then b;"], &["", "; fi"], &["if ", "then ", "else ", "elif ", "fi ", "a;", "a ", "\n", "#c\n"], pick(4, 6), o));
    v.push(tree("loops", &["while ", "until a;", "while a; do "], &["", "; done"], &["while ", "until ", "do ", "done", "a;", "a ", "\n", ";", ">f ", "do\n"], pick(4, 6), o));
    v.push(tree("for", &["for ", "for i ", "for i in "], &["", " do a; done"], &["i ", "in ", "a ", ";", "\n", "do ", "done ", "#c\n", "for ", "1", "'", "\\\n"], pick(4, 6), o));
    v.push(tree("case", &["case ", "case a in ", "case a in (b) c", "case a in b"], &["", " esac", ";; esac"], &["a ", "in ", "in\n", "(", "|", ")", ";;", "esac ", "\n", "b", ";", "#c\n"], pick(4, 6), o));
    v.push(tree("functions", &["", "function ", "function f", "f", "f("], &["", " { a; }", "\n(a)"], &["f", "if", " ", "(", ")", "{ a;}", "\n", "(a)", "\\\n", ">g ", "{", "1", "#c\n", "function"], pick(4, 5), o));
    v.push(tree("groups", &["{ ", "(", "{"], &["", "}", ";}", ")"], &["a", ";", " ", "\n", "{ ", "}", "(", ")", "&", ">f", "|", "#c\n", "'}'"], pick(4, 5), o));
}

/// Every token within every quoting, next to others.
fn quotings() -> Vec<String> {
    let mut toks: Vec<String> = token_symbols().into_iter().filter_map(|s| symbol(&s)).map(|t| t.to_string()).collect();
    toks.extend(strs(&["\t", "é", "\u{3000}", "\r", "$(", "${", "$((", "``", "''", "\"\"", "\\\\", "\\\n", "1", "a1"]));
    let forms = ["@", "\\@", "'@'", "\"@\"", "\"\\@\"", "'\\@'", "a@b", "a\\@b", "a'@'b", "a\"@\"b", "\"a\\@b\"", "\"@@\"", "\\@\\@", "'@@'", "x=@", "x=\\@", "x=\"@\" b", "x='@'y", "a \\@ b", "\\\\@", "\"\\\\@\"", "${x:-@}", "${x:-\\@}", "${x:-'@'}", "${x:-\"@\"}", "\"${x:-@}\"", "\"${x:-\\@}\"", "\"${x:-'@'}\"", "`@`", "`\\@`", "\"`\\@`\"", "\"`\\\"@\\\"`\"", "`'\\\\@'`", "cat <<E\n@\nE\n", "cat <<E\n\\@\nE\n", "cat <<'E'\n\\@\nE\n", "cat <<E\n\"@\"\nE\n", ">@", ">\\@", "'@'>f", "$@", "$'@'", "$\"@\"", "\"$@\"", "~@", "@~", "@:~", "[@]", "[\\@]", "{@}", "\"@", "'@", "`@", "@#", "#@", "@=@"];
    let mut out = Vec::new();
    for f in forms {
        for t in &toks {
            out.push(f.replace('@', t));
            out.push(format!("echo {}", f.replace('@', t)));
            out.push(format!("{} b", f.replace('@', t)));
        }
    }
    for a in &toks {
        for b in &toks {
            for (x, y) in [("", ""), ("\"", "\""), ("\\", ""), ("\"\\", "\""), ("x\\", "y"), ("${x:-\\", "}"), ("'", "'"), ("", "\\"), ("a=\\", " b")] {
                out.push(format!("{}{}{}{}", x, a, b, y));
            }
        }
    }
    out
}

/// Every parameter with every operator and a number of words, in several surroundings.
fn substitutions() -> Family {
    let pre = strs(&["", "#", "##", "!"]);
    let par = strs(&["a", "_1", "1", "10", "0", "@", "*", "#", "?", "-", "$", "!", "1a", "a1", "", " ", "%", "=", "4294967296"]);
    let op = strs(&["", ":-", "-", ":=", "=", ":?", "?", ":+", "+", "%", "%%", "#", "##", ":", "::", ":%", ":#", "/", "@", "^", "[", "- ", "%%%", "###", "%#", "#%", "?-", "--", "+-", ":-:"]);
    let word = strs(&["", "b", "b c", "'}'", "\"}\"", "\\}", "${c}", "${c:-d}", "$(d)", "`d`", "}", "#", "-", "*?~", "\n", ";&|<>()", "'b'\"c\"", "$", "\"", "'"]);
    let ctx = strs(&["@", "\"@\"", "a@b", "x=@ b", "cat <<E\n@\nE\n", "${z-@}"]);
    let dims = [pre.len(), par.len(), op.len(), word.len(), ctx.len()];
    (
        dims.iter().product(),
        Box::new(move |mut i| {
            let mut take = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            let (w, o, p, b, c) = (take(dims[3]), take(dims[2]), take(dims[1]), take(dims[0]), take(dims[4]));
            ctx[c].replace('@', &format!("${{{}{}{}{}}}", pre[b], par[p], op[o], word[w]))
        }),
    )
}
