//! Building blocks of the explored texts: contexts with a hole (`%`), fillers, base programs, alphabets.

use crate::lexref;

pub fn fill(ctx: &str, x: &str) -> String {
    ctx.replace('\u{1}', x)
}

fn ctxs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.replace('@', "\u{1}")).collect()
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// Places where a command may stand.
pub fn command_contexts() -> Vec<String> {
    ctxs(&[
        "@",
        "@ ; b",
        "b; @",
        "@ &",
        "@&b",
        "@\nb",
        "! @",
        "@ | b",
        "b | @",
        "@ && b",
        "b ||\n@",
        "{ @; }",
        "{ @\n}",
        "(@)",
        "( @ ) > f",
        "if @; then b; fi",
        "if b; then @; fi >f",
        "if b; then c; else @\nfi",
        "if b; then c; elif @; then d; fi",
        "if b; then c; elif d; then @\nelse e; fi",
        "while @; do b; done",
        "until b; do @; done 2>&1",
        "for i in x; do @; done",
        "for i\ndo @\ndone",
        "case x in a) @ ;; esac",
        "case x in a) b;; c)\n@ esac",
        "case x in (a|b) c;; *) @\nesac <f",
        "f() { @; }",
        "f () (@)",
        "function f { @\n}",
        "function f (@) >g",
        "function f () if @; then b; fi",
        "`@`",
        "$(@)",
        "\"$(@)\"",
        "\"`@`\"",
        "x=$(@) b",
        "b >$(@) c",
        "${x:-$(@)}",
        "cat <<E\n$(@)\nE\n",
        "cat <<E\n`@`\nE\nb",
        "cat <<E; @\nbody\nE\n",
        "@ <<E\nbody\nE\nb",
        "$((1)) $(@)",
        "${x#\"$(@)\"}",
        "b # @",
        "# @\nb",
    ])
}

/// Places where a word may stand.
pub fn word_contexts() -> Vec<String> {
    ctxs(&[
        "@",
        "a @",
        "a@",
        "@b",
        "a@b c",
        "\"@\"",
        "\"a@b\"",
        "'@'",
        "\\@",
        "$@",
        "${x:-@}",
        "${x-@}",
        "${x=a@b}",
        "${x#@}",
        "${x%%@}",
        "\"${x:+@}\"",
        "${x:?\"@\"}",
        "${@}",
        "${#@}",
        "`@`",
        "`a @`",
        "$(@)",
        "x=@",
        "x=@ b",
        ">@",
        "a 2>&@",
        "<<@",
        "<<@\nbody\n@\nb",
        "<<E\n@\nE\n",
        "<<-E\n\t@\n\tE\n",
        "<<'E'\n@\nE\n",
        "<<E @\nbody\nE\n",
        "$((@))",
        "for i in @; do a; done",
        "for @ in a; do b; done",
        "case @ in a) b;; esac",
        "case x in @) b;; esac",
        "case x in a|@) b;; esac",
        "a | @",
        "@() { a; }",
        "function @ { a; }",
        "# @",
        "a #@",
        "{ a; } >@",
    ])
}

pub fn words() -> Vec<String> {
    strs(&[
        "", "a", "ab1", "_", "1", "12", "65535", "65536", "-", "=", "+", "?", "*", "!", "#", "##", "@", "^", "/", ",", ".", ":", "~",
        "[", "]", "[a]", "{", "}", "{}", "{a}", "%", "%%", "\\", "\\\n", "\\a", "\\\\", "\\\"", "\\'", "\\`", "\\$", "\\ ", "\\&&", "\\$1",
        "\\<<", "\\(", "\\}", "''", "'a'", "'a b'", "'\\'", "'\n'", "'\"'", "\"\"", "\"a\"", "\"a b\"", "\"\\a\"", "\"\\\"\"", "\"\\$\"", "\"\\\n\"",
        "\"'\"", "\"`a`\"", "\"$(a)\"", "\"}\"", "$", "$$", "$1", "$10", "$a", "$a1", "$@", "$*", "$#", "$?", "$-", "$!", "$\"\"", "$'a'",
        "${a}", "${10}", "${1a}", "${#}", "${#a}", "${##}", "${#-}", "${#?}", "${#:-a}", "${#%a}", "${##a}", "${a:-b}", "${a-b}", "${a:}",
        "${a:=b c}", "${a:?}", "${a?b}", "${a+b}", "${a%b}", "${a%%b}", "${a#b}", "${a##b}", "${a%%%}", "${a###}", "${a:-}}", "${a:-\\}}",
        "${a:-'}'}", "${a:-\"}\"}", "${a:-${b}}", "${a:-$(b)}", "${a:-`b`}", "${a:-b;c&d|e<f>g(h)}", "${a:-#b}", "${a/b}", "${a", "${}", "${ a}", "${a:-b",
        "`a`", "`a b; c`", "``", "`\\`a\\``", "`\\$a \\\\b`", "`a\n`", "`#`", "`a #b`", "$(a)", "$(a;b)", "$()", "$( )", "$(a\n#b\n)", "$(a", "$((1))",
        "$((a+1))", "$((a=1, b++))", "$((1?2:3))", "$((0x1f*010))", "$(( ))", "$((a", "$((1)", "a=b", "a=", "a=$b", "a= b", "1a=b", "a?b", "a*b~c[d]:e",
        "if", "then", "fi", "do", "done", "in", "case", "esac", "function", "{a", "a}", "if\\\n", "\\if", "'if'", "i\"f\"", "if$x", "E", "\\E", "'E'", "\"E\"",
        "a\\\nb", "a#b", "a #b", "é", "\u{3000}", "\r", "a\tb", "a;b", "a&b", "a|b", "a(b", "a)b", "a<b", "1>b", "a>b", "2>&1", ">&-", "a\nb",
    ])
}

/// Programs, by topic.
pub fn bases(topic: &str) -> Vec<&'static str> {
    match topic {
        "list" => vec![
            "a",
            "a;b",
            "a&b",
            "a & b ; c",
            "a\n\nb\n",
            "a && b || c && d",
            "a||b|c&&! d|e",
            "! a | b | c",
            "a |\nb &&\n c",
            "a;\nb&\nc",
            "! a && ! b; ! c",
            "a b c; d e | f",
            "x=1 a | y=2 b&",
            "{ a; } && (b) || c &",
            "a | { b; } | (c); d",
        ],
        "compound" => vec![
            "if a; then b; fi",
            "if a\nthen b\nelse c\nfi",
            "if a; then b; elif c; then d; else e; fi",
            "if a; then b; elif c; then d; elif e; then f; fi >g",
            "while a; do b; done",
            "until a\ndo b\ndone <f",
            "while a; b; do c; d; done",
            "for i in a b c; do d; done",
            "for i; do d; done",
            "for i do d; done",
            "for i\nin a\ndo d\ndone",
            "for i\n do d; done >e",
            "for in in in; do do; done",
            "case a in b) c;; esac",
            "case a in (b|c) d;; *) e;; esac",
            "case a in b) c;; d) esac",
            "case a\nin\nb)\nc\n;;\nesac",
            "case a in b) ;; esac 2>c",
            "case in in in) in;; esac",
            "{ a; }",
            "{ a; b\n} >c 2>&1",
            "( a )",
            "(a; b) <c",
            "((a) | (b))",
            "f() { a; }",
            "f()(a)",
            "f ( )\n{ a; } >b",
            "f() if a; then b; fi",
            "function f { a; }",
            "function f () { a; }",
            "function f (a) >b",
            "function f ()\n(a)",
            "function if { a; }",
            "f() for i; do a; done",
            "{ if a; then (b); fi; }",
            "while if a; then b; fi; do { c; }; done",
            "echo if then else fi do done { } case esac in for while until",
            "if { a; } then b; fi",
            "if (a) then (b) else (c) fi",
            "while (a) do { b; } done",
            "a=if; b=then c",
            ">x if a",
            "x=1 { a",
        ],
        "word" => vec![
            "a\"b\"'c'd",
            "a\\ b \\$c",
            "'a\"b`c$d\\'",
            "\"a'b\\\"c\\`d\\\\e\\$f\\g\"",
            "\"a${b}c$d\"e",
            "~ ~a a~b:~c",
            "*.c [a-z]? a\\*b",
            "\"\" '' a\"\"b",
            "a$b\"$c\"'$d'",
            "a\\\nb c",
            "\"a\\\nb\"",
            "a=b=c d=e",
            "a=\"b c\"'d'\\ e f",
            "a= b",
            "a=1 b=2",
            "{a,b} {} }",
            "a#b #c",
            "$'a' $\"b\" $ $",
            "a:b=c%d@e^f/g,h+i-j",
            "x=~:~a",
            "echo \"`a \\\"b\\\"`\"",
            "!a a! a!b",
        ],
        "param" => vec![
            "$a $1 $@ $* $# $? $- $$ $!",
            "$10 $1a $a1",
            "${a} ${1} ${10} ${@} ${#} ${?}",
            "${#a} ${#1} ${#@} ${##} ${#?} ${#-} ${#!} ${#$}",
            "${a:-b} ${a-b}",
            "${a:=b} ${a=b}",
            "${a:?b} ${a?b}",
            "${a:+b} ${a+b}",
            "${a%b} ${a%%b}",
            "${a#b} ${a##b}",
            "${#:-b} ${#-b} ${#%b} ${##b} ${###b} ${#+b} ${#?b} ${#=b}",
            "${a:-${b:-${c}}}",
            "${a:-b c;d&e|f(g)h<i>j#k}",
            "${a:-\\}b}",
            "${a:-'}'\"}\"`}`$(})}",
            "\"${a:-b c}\" \"${a:-\"b\"}\"",
            "${a:-$((1+2))}",
            "${a:-\n\nb\n}",
            "${a-} ${a:-} ${a%} ${a#} ${a:}",
            "x=${a:-b} >${c} <<${d}\n${d}\n",
            "\"$\" \"$a$\" $; $)",
            "${a%%%%} ${a####}",
            "$a$b${c}$d\"$e\"",
        ],
        "subst" => vec![
            "$(a)",
            "$(a; b) c",
            "`a` b",
            "`a; b` c",
            "\"$(a \"b\")\"",
            "\"`a`\"",
            "`a \\`b\\` c`",
            "`a \\`b \\\\\\`c\\\\\\` d\\``",
            "$(a $(b $(c)))",
            "$(a\n#b\nc)",
            "`a\n#b\nc`",
            "$(cat <<E\nb\nE\n)",
            "`cat <<E\nb\nE\n`",
            "${x:-$(a)`b`}",
            "x=$(a) y=`b` c",
            ">$(a) <`b`",
            "cat <<E\n$(a) `b`\nE\n",
            "$(if a; then b; fi)",
            "$(case a in b) c;; esac)",
            "$(case a in (b) c;; esac)",
            "`\\$a \\\\b \\c`",
            "`\\$1 \\\\&& \\<<`",
            "$( (a) ) $((a))",
            "$(a &) $(a |b)",
            "\"`echo \\\"a\\\"`\"",
            "$() `` $( )",
            "`a 'b' \"c\" (d`",
            "`${a} $(b) \\${c}`",
            "f() { `a`; $(b); }",
        ],
        "arith" => vec![
            "$((1+2*3))",
            "$((a=b=1))",
            "$((a+=1, b-=2))",
            "$((a?b:c?d:e))",
            "$((a||b&&c|d^e&f))",
            "$((a==b!=c<d<=e>f>=g))",
            "$((a<<b>>c))",
            "$((a+b-c*d/e%f))",
            "$((a**b**c))",
            "$((!a+~b- -c+ +d))",
            "$((++a+b++ - --c-d--))",
            "$(((1+2)*3))",
            "$((0x1F+017+9))",
            "$(( $a + ${b} ))",
            "$(( $a + $b ))",
            "$((a*=2)) $((a/=2)) $((a%=2)) $((a<<=2)) $((a>>=2)) $((a&=2)) $((a|=2)) $((a^=2))",
            "\"$((a + 1))\"",
            "$((\\\na))",
            "$((08)) $((0x)) $((9a))",
            "$((a,b,c))",
            "$((1)) $((0)) $((00))",
            "$(( (a) ? (b) : (c) ))",
            "$((a = b ? c : d))",
        ],
        "redirect" => vec![
            "a >b",
            "a>b<c>>d",
            "2>a 1<b 0>>c",
            "a 2>&1 1>&2",
            "a <&- 3>&-",
            "a >&$b <&\"1\" >&'2'",
            "a <>b >|c",
            ">a",
            ">a b >c d",
            "x=1 >a y=2 b z=3",
            "a 2 >b 2> c",
            "a b2>c",
            "{ a; } >b 2>c",
            "(a) <b >&-",
            "if a; then b; fi >c <<E\nd\nE\n",
            "f() { a; } >b",
            "10>a 65535>b 65536>c",
            "a >\"b c\"d >$e >`f` >$(g)",
            "a '2'>b \\2>c \"2\">d",
            "a >&1a",
            "a > b c > d",
            "for i; do a; done 2>/dev/null",
            "case a in b) c;; esac >d",
            "a 2\\\n>b",
        ],
        "heredoc" => vec![
            "cat <<E\nbody\nE\n",
            "cat <<E\nbody\nE\nnext",
            "cat <<'E'\n$a `b` \\c\nE\n",
            "cat <<\"E\"\n$a\nE\n",
            "cat <<\\E\n$a\nE\n",
            "cat <<E\n$a ${b} $(c) `d` \\$e \"f\" 'g'\nE\n",
            "cat <<-E\n\tbody\n\t\tmore\n\tE\nnext",
            "cat <<-E\n a\n\t b\tc\n\tE\n",
            "cat <<E; next\nbody\nE\nmore",
            "cat <<A <<B\na\nA\nb\nB\nnext",
            "cat <<A; cat <<B\na\nA\nb\nB\n",
            "cat <<A | b && c\na\nA\n",
            "{ cat <<E; }\nbody\nE\n",
            "(cat <<E)\nbody\nE\n",
            "if cat <<E; then\nbody\nE\nb; fi",
            "while a; do cat <<E\nbody\nE\ndone",
            "$(cat <<E\nbody\nE\n) a",
            "\"$(cat <<E\nbody\nE\n)\"",
            "`cat <<E\nbody\nE\n` a",
            "cat <<E",
            "cat <<E\n",
            "cat <<E\nbody",
            "cat <<E\nbody\n E\nE \nEE\nE",
            "cat <<E\n\n\nE\n",
            "cat <<E\nE\n",
            "3<<E a\nbody\nE\n",
            "cat <<E # c\nbody\nE\n",
            "cat <<E \\\n b\nbody\nE\n",
            "cat <<E \"a\nb\"\nbody\nE\n",
            "cat <<\"a b\"\nbody\na b\n",
            "cat <<$a\nbody\n$a\n",
            "cat <<`a`\nbody\n`a`\n",
            "cat <<E$(a b)\nbody\nE$(a b)\n",
            "case a in b) cat <<E;;\nbody\nE\nesac",
            "f() { cat <<E\nbody\nE\n}",
            "cat <<E\n$(cat <<F\nin\nF\n)\nE\n",
            "cat <<A <<-B <<'C'\na\nA\n\tb\n\tB\n$c\nC\n",
            "cat <<E <<E\na\nE\nb\nE\n",
            "cat <<E\nbody\nE\r\nx",
            "cat <<E\n\"\nE\nb 'c'",
            "cat <<E\n\\\\E\n\\$a \\`b \\\"c\nE\n",
            "cat <<E | (\nbody\nE\nb)",
        ],
        "comment" => vec![
            "#a",
            "#a\nb",
            "a #b\nc",
            "a; #b\nc &#d\ne",
            "a && #b\n#c\n\nd",
            "a | #b\nc",
            "{ #a\nb #c\n#d\n}",
            "( #a\nb #c\n#d\n)",
            "if #a\nb #c\nthen #d\ne #f\nelse #g\nh #i\nfi #j",
            "while #a\nb\n#c\ndo #d\ne\n#f\ndone #g",
            "for i #a\n#b\nin c d #e\n#f\ndo #g\nh\n#i\ndone",
            "for i #a\n#b\n; #c\n#d\ndo e; done",
            "for i #a\n#b\ndo #c\nd\ndone",
            "case a #b\n#c\nin #d\n#e\nf) #g\n#h\ni #j\n#k\n;; #l\n#m\nesac #n",
            "case a in b) c #d\nesac",
            "case a in b) #c\n;; #d\n#e\nf) g;; #h\n\nesac",
            "f() #a\n#b\n{ c; }",
            "function f #a\n#b\n{ c; }",
            "function f () #a\n{ c; }",
            "$(a #b\n) `a #b\n`",
            "a#b \"#c\" '#d' \\#e ${f:-#g} $#",
            "cat <<E #a\n#b\nE\n#c",
            "\n\n#a\n\n#b\n\n",
            "a\n#b",
            "a #b \\\nc",
            "# '\" ` ( { \\\na",
            "a <b #c\n>d #e",
            "if a; then b; elif #c\nd #e\nthen f; fi",
            "a=#b",
            "a= #b",
        ],
        "misc" => vec![
            "",
            " ",
            "\n",
            "echo hello world",
            "PATH=/bin:$PATH ls -la \"$HOME\"/*.txt 2>/dev/null | grep -v '^#' > out &",
            "for f in *.c; do\n  cc -o \"${f%.c}\" \"$f\" || exit 1\ndone\n",
            "case \"$1\" in\n  start|stop) svc \"$1\" ;;\n  *) echo \"usage: $0 {start|stop}\" >&2; exit 1 ;;\nesac\n",
            "while read -r line; do\n  n=$((n + 1))\ndone < \"$file\"\n",
            "foo() {\n  local x=${1:-default}\n  if [ -z \"$x\" ]; then return 1; fi\n}\n",
            "cat <<EOF | sed 's/a/b/'\nhello $USER\nEOF\necho done\n",
            "x=`date +%s`; y=$(( x % 60 ))\n",
            "(cd /tmp && tar xf -) < \"$a\" || { echo fail; exit; }\n",
        ],
        _ => panic!("no such topic"),
    }
}

pub const TOPICS: &[&str] =
    &["list", "compound", "word", "param", "subst", "arith", "redirect", "heredoc", "comment", "misc"];

pub fn all_bases() -> Vec<&'static str> {
    TOPICS.iter().flat_map(|t| bases(t)).collect()
}

/// The text cut into the smallest pieces the grammar knows.
pub fn pieces(s: &str) -> Vec<String> {
    lexref::tokens(s).iter().map(|t| t.as_str().to_string()).collect()
}

/// Symbols to insert or to replace by.
pub fn edit_alphabet() -> Vec<String> {
    strs(&[
        " ", "\n", "\t", ";", "&", "|", "&&", "||", ";;", "(", ")", "{", "}", "!", "#", "'", "\"", "`", "\\", "\\\n", "$", "<", ">", "<<", ">>", ">&", "<&",
        "<<-", "=", "a", "1", "*", "?", "~", ":", "-", "+", "%", "@", "if", "then", "fi", "do", "done", "in", "esac", "case", "for", "else",
        "function", "$1", "${", "$(", "$((", "E", ",", "[", "]", "#c\n", "é", "\u{3000}", "\r",
    ])
}

/// Number of single edits of a text of `n` pieces with an alphabet of `a` symbols.
fn edits(n: usize, a: usize) -> usize {
    1 + n + n * a + (n + 1) * a + n.saturating_sub(1) + n
}

fn apply(p: &[String], al: &[String], mut k: usize) -> Vec<String> {
    let (n, a) = (p.len(), al.len());
    let mut v = p.to_vec();
    if k == 0 {
        return v;
    }
    k -= 1;
    if k < n {
        v.remove(k);
        return v;
    }
    k -= n;
    if k < n * a {
        v[k / a] = al[k % a].clone();
        return v;
    }
    k -= n * a;
    if k < (n + 1) * a {
        v.insert(k / a, al[k % a].clone());
        return v;
    }
    k -= (n + 1) * a;
    if k < n.saturating_sub(1) {
        v.swap(k, k + 1);
        return v;
    }
    k -= n.saturating_sub(1);
    // cut the text off here
    v.truncate(k);
    v
}

/// Every text at edit distance at most one (an edit: drop, replace, insert a symbol, swap neighbours, cut off).
pub fn edit1(bases: &[String], al: &[String]) -> (usize, Box<dyn Fn(usize) -> String + Send + Sync>) {
    edit1_pieces(bases.iter().map(|b| pieces(b)).collect(), al)
}

pub fn edit1_pieces(ps: Vec<Vec<String>>, al: &[String]) -> (usize, Box<dyn Fn(usize) -> String + Send + Sync>) {
    let mut off = Vec::new();
    let mut n = 0;
    for p in &ps {
        off.push(n);
        n += edits(p.len(), al.len());
    }
    let al = al.to_vec();
    (
        n,
        Box::new(move |k| {
            let b = off.partition_point(|&o| o <= k) - 1;
            apply(&ps[b], &al, k - off[b]).concat()
        }),
    )
}

/// Every text at edit distance at most two, the second edit with a smaller alphabet.
pub fn edit2(bases: &[String], al: &[String], al2: &[String]) -> (usize, Box<dyn Fn(usize) -> String + Send + Sync>) {
    let ps: Vec<Vec<String>> = bases.iter().map(|b| pieces(b)).collect();
    let mut off = Vec::new();
    let mut n = 0;
    for p in &ps {
        off.push(n);
        n += edits(p.len(), al.len()) * edits(p.len() + 1, al2.len());
    }
    let (al, al2) = (al.to_vec(), al2.to_vec());
    (
        n,
        Box::new(move |k| {
            let b = off.partition_point(|&o| o <= k) - 1;
            let k = k - off[b];
            let m = edits(ps[b].len() + 1, al2.len());
            let v = apply(&ps[b], &al, k / m);
            let j = (k % m).min(edits(v.len(), al2.len()) - 1);
            apply(&v, &al2, j).concat()
        }),
    )
}

/// Every composition `c1(c2(..f))` taking one element of each level.
pub fn compose(levels: Vec<Vec<String>>, fillers: Vec<String>) -> (usize, Box<dyn Fn(usize) -> String + Send + Sync>) {
    let n = levels.iter().map(|l| l.len()).product::<usize>() * fillers.len();
    (
        n,
        Box::new(move |mut k| {
            let mut s = fillers[k % fillers.len()].clone();
            k /= fillers.len();
            for l in levels.iter().rev() {
                s = fill(&l[k % l.len()], &s);
                k /= l.len();
            }
            s
        }),
    )
}

/// Texts that grow: each pattern at each size.
pub fn pumps(max: usize) -> Vec<String> {
    let mut out = Vec::new();
    let rep = |s: &str, n: usize| s.repeat(n);
    let sizes: Vec<usize> = (1..=20)
        .chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 65_535, 65_536, 70_000])
        .filter(|&n| n <= max)
        .collect();
    for &n in &sizes {
        let deep = n <= 300;
        for (unit, tail) in [
            ("a ", "b"),
            ("a;", "b"),
            ("a\n", "b"),
            ("a&", "b"),
            ("a|", "b"),
            ("a&&", "b"),
            ("a||", "b"),
            ("a|\n", "b"),
            ("x=1 ", "b"),
            (">a ", "b"),
            ("2>&1 ", "b"),
            ("\n", "b"),
            ("#c\n", "b"),
            (" ", "b"),
            ("\t", "b"),
            ("\\\n", "b"),
            ("\\a", "b"),
            ("'a'", "b"),
            ("\"a\"", "b"),
            ("$a", "b"),
            ("$1", "b"),
            ("${a}", "b"),
            ("$(a)", "b"),
            ("`a`", "b"),
            ("$((1))", "b"),
            ("a", ""),
            ("a;", ")"),
            ("1", ">b"),
            ("é", " b)"),
            ("*?[]~:", "b"),
            ("{ a; };", "b"),
            ("(a);", "b"),
            ("f() { a; };", "b"),
            ("if a; then b; fi;", "c"),
            ("\\\\", "b"),
            ("$$", "b"),
            ("a #c\n", "b"),
            ("#a ", "\nb"),
            ("!", "a"),
        ] {
            out.push(format!("{}{}", rep(unit, n), tail));
        }
        for (a, unit, z) in [
            ("a ", "b ", ""),
            ("'", "a ", "' b"),
            ("\"", "a ", "\" b"),
            ("\"", "\\\"", "\" b"),
            ("\"", "$a", "\" b"),
            ("\"", "`a`", "\" b"),
            ("${x:-", "a ", "} b"),
            ("${x:-", "'a'", "} b"),
            ("`", "a ", "` b)"),
            ("`", "\\\\", "` b)"),
            ("`", "\\$", "` b)"),
            ("$(", "a ", ") b)"),
            ("for i in ", "a ", "; do b; done"),
            ("case x in ", "a|", "b) c;; esac"),
            ("case x in ", "a) b;;", "esac"),
            ("case x in ", "a) b;;\n", "esac"),
            ("if a; then b; ", "elif c; then d; ", "fi"),
            ("{ ", "a;", "}"),
            ("(", "a;", ")"),
            ("while a; do ", "b\n", "done )"),
            ("cat <<E\n", "a\n", "E\nb)"),
            ("cat <<E\n", "a", "\nE\nb)"),
            ("cat <<-E\n", "\ta\n", "\tE\nb)"),
            ("cat <<-E\n", "\t", "E\nb)"),
            ("cat <<E\n", "$a ", "\nE\nb)"),
            ("cat <<E\n", "`a`", "\nE\nb)"),
            ("cat <<E ", "b ", "\nbody\nE\n)"),
            ("cat <<'E'\n", "$a\n", "E\nb)"),
            ("$((", "1+", "1)) )"),
            ("$((", "1,", "1))"),
            ("$((", "a=", "1))"),
            ("$((", "1**", "1))"),
            ("$((", "1-", "1))"),
            ("$((", "1?2:", "3))"),
            ("$((", "-", "1))"),
            ("$((", "~", "1))"),
            ("a ", ">b ", ")"),
            ("a=", "b", " c)"),
            ("# ", "é", "\n)"),
            ("$", "a", " )"),
            ("$((", " ", "1))"),
            ("${x:-", "\n", "} )"),
        ] {
            out.push(format!("{}{}{}", a, rep(unit, n), z));
        }
        // heredocs on one line
        if n <= 1100 {
            let mut a = String::from("cat");
            let mut b = String::from("\n");
            let mut b2 = String::from("\n");
            let mut a2 = String::from("cat");
            for k in 0..n {
                a += &format!(" <<E{}", k);
                b += &format!("body {}\nE{}\n", k, k);
                a2 += if k % 2 == 0 { " <<-'E'" } else { " <<E" };
                b2 += &format!("\t$b{}\n{}E\n", k, if k % 2 == 0 { "\t" } else { "" });
            }
            out.push(format!("{}{}next )", a, b));
            out.push(format!("{}{}next )", a2, b2));
            let d = rep("E", n);
            out.push(format!("cat <<{}\nbody\n{}E\n{}\nnext )", d, d, d));
        }
        if deep {
            for (a, m, z) in [
                ("(", "a", ")"),
                ("( ", "a", " )"),
                ("{ ", "a", ";}"),
                ("{ ", "a;", " };"),
                ("$(", "a", ")"),
                ("\"$(", "a", ")\""),
                ("${x:-", "a", "}"),
                ("\"${x:-", "a", "}\""),
                ("${x:-$(", "a", ")}"),
                ("$((1+", "1", "))"),
                ("if a; then ", "b", "; fi"),
                ("if ", "b", "; then a; fi"),
                ("if a; then b; else ", "b", "; fi"),
                ("while a; do ", "b", "; done"),
                ("while ", "b", "; do a; done"),
                ("for i in a; do ", "b", "; done"),
                ("case a in b) ", "c", ";; esac"),
                ("case a in b) ", "c", "\nesac"),
                ("f() { ", "a", "; }"),
                ("f() ( ", "a", " )"),
                ("a | (", "b", ")"),
                ("! { ", "a", "; }"),
                ("x=$(", "a", ")"),
                (">$(", "a", ")"),
            ] {
                out.push(format!("{}{}{}", rep(a, n), m, rep(z, n)));
                out.push(format!("{}{}{}\nb )", rep(a, n), m, rep(z, n)));
                out.push(format!("{}{}{}", rep(a, n), m, rep(z, n - 1)));
                out.push(format!("{}{}{}", rep(a, n), m, rep(z, n + 1)));
            }
            out.push(format!("$(({}1{}))", rep("(", n), rep(")", n)));
            out.push(format!("$(({}1{}))", rep("(", n), rep(")", n - 1)));
            out.push(format!("$(({}1{}))", rep("(1+", n), rep(")", n)));
            out.push(format!("{}a\nE\n", rep("cat <<E\n$(", n)));
        }
        if n <= 7 {
            // nested backquotes, each level doubling the backslashes
            let mut s = "a 'b' \"$c\" \\\\d".to_string();
            for _ in 0..n {
                s = backquoted(&format!("e {} f", s));
            }
            out.push(s.clone());
            out.push(format!("\"{}\" )", s));
            let mut s = "cat <<E\n$x\nE\n".to_string();
            for _ in 0..n {
                s = backquoted(&format!("{}\n", s));
            }
            out.push(format!("{} )", s));
        }
    }
    for fd in (0..20).chain([99, 100, 255, 256, 999, 1000, 9999, 10_000, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 99_999, 100_000, 4_294_967_295]) {
        for t in [
            format!("a {}>b", fd),
            format!("{}>b", fd),
            format!("{}<&1 c", fd),
            format!("a 0{}>b", fd),
            format!("a >&{}", fd),
            format!("a {} >b", fd),
            format!("{{ a; }} {}>b", fd),
            format!("${{{}}} ${{0{}}} ${{#{}}}", fd, fd, fd),
            format!("$(({}))", fd),
            format!("$((0{} + 0x{}))", fd, fd),
            format!("cat {}<<E\nb\nE\n", fd),
        ] {
            out.push(t);
        }
    }
    for lit in [
        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0x7fffffffffffffff", "0x8000000000000000",
        "0xffffffffffffffff", "0x10000000000000000", "0777777777777777777777", "01000000000000000000000", "4294967295", "4294967296", "2147483648",
    ] {
        out.push(format!("$(({}))", lit));
        out.push(format!("$((-{}))", lit));
        out.push(format!("${{{}}}", lit));
        out.push(format!("{}>a", lit));
    }
    out
}

/// Puts text inside backquotes, protecting what would otherwise change its meaning.
pub fn backquoted(s: &str) -> String {
    let mut o = String::from("`");
    for c in s.chars() {
        if matches!(c, '\\' | '`' | '$') {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('`');
    o
}
