//! The syntax tree both sides of a comparison are expressed in, a builder that records exactly what the parser
//! hands over (optionally failing at a chosen callback), and the normal form used for comparisons.

use conch_parser::ast::builder::*;
use std::cell::RefCell;
use std::rc::Rc;
use conch_parser::ast::builder::Newline as Nl;
use conch_parser::ast::{AndOr, RedirectOrCmdWord, RedirectOrEnvVar};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cmd {
    pub pre: Vec<Nl>,
    pub list: List,
    pub sep: SeparatorKind,
    pub cmt: Option<Nl>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct List {
    pub first: Pipe,
    pub rest: Vec<(Vec<Nl>, AndOr<Pipe>)>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Pipe {
    pub bang: bool,
    pub cmds: Vec<(Vec<Nl>, Pc)>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Pc {
    Simple(Vec<RedirectOrEnvVar<Redir, String, Word>>, Vec<RedirectOrCmdWord<Redir, Word>>),
    Comp(Box<Comp>),
    Fun(String, Vec<Nl>, Box<Comp>),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Comp {
    Brace(CommandGroup<Cmd>, Vec<Redir>),
    Sub(CommandGroup<Cmd>, Vec<Redir>),
    Loop(LoopKind, GuardBodyPairGroup<Cmd>, Vec<Redir>),
    If(IfFragments<Cmd>, Vec<Redir>),
    For(ForFragments<Word, Cmd>, Vec<Redir>),
    Case(CaseFragments<Word, Cmd>, Vec<Redir>),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Word(pub ComplexWordKind<Cmd>);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Redir(pub RedirectKind<Word>);

/// The error a failing builder returns; carries the index of the failing callback.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Inj(pub usize);
impl std::fmt::Display for Inj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected<{}>", self.0)
    }
}
impl std::error::Error for Inj {}

/// Records what the parser passes on; a clone shares the record.
#[derive(Debug, Clone, Default)]
pub struct Rec(pub Rc<RefCell<RecState>>);

/// `fail_at`: index of the callback that fails, if any.
#[derive(Debug, Clone, Default)]
pub struct RecState {
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub after_failure: usize,
    pub failed: bool,
    pub comments: Vec<Nl>,
    pub names: Option<Vec<&'static str>>,
}

impl Rec {
    pub fn failing_at(k: usize) -> Rec {
        let r = Rec::default();
        r.0.borrow_mut().fail_at = Some(k);
        r
    }
    fn tick(&mut self, name: &'static str) -> Result<(), Inj> {
        let mut s = self.0.borrow_mut();
        let n = s.calls;
        s.calls += 1;
        if n > 20_000_000 {
            panic!("endless builder callbacks");
        }
        if let Some(l) = s.names.as_mut() {
            l.push(name);
        }
        if s.failed {
            s.after_failure += 1;
        }
        if s.fail_at == Some(n) {
            s.failed = true;
            return Err(Inj(n));
        }
        Ok(())
    }
}

impl Builder for Rec {
    type Command = Cmd;
    type CommandList = List;
    type ListableCommand = Pipe;
    type PipeableCommand = Pc;
    type CompoundCommand = Comp;
    type Word = Word;
    type Redirect = Redir;
    type Error = Inj;

    fn complete_command(&mut self, pre: Vec<Nl>, list: List, sep: SeparatorKind, cmt: Option<Nl>) -> Result<Cmd, Inj> {
        self.tick("complete_command")?;
        Ok(Cmd { pre, list, sep, cmt })
    }
    fn and_or_list(&mut self, first: Pipe, rest: Vec<(Vec<Nl>, AndOr<Pipe>)>) -> Result<List, Inj> {
        self.tick("and_or_list")?;
        Ok(List { first, rest })
    }
    fn pipeline(&mut self, bang: bool, cmds: Vec<(Vec<Nl>, Pc)>) -> Result<Pipe, Inj> {
        self.tick("pipeline")?;
        Ok(Pipe { bang, cmds })
    }
    fn simple_command(
        &mut self,
        v: Vec<RedirectOrEnvVar<Redir, String, Word>>,
        w: Vec<RedirectOrCmdWord<Redir, Word>>,
    ) -> Result<Pc, Inj> {
        self.tick("simple_command")?;
        Ok(Pc::Simple(v, w))
    }
    fn brace_group(&mut self, g: CommandGroup<Cmd>, io: Vec<Redir>) -> Result<Comp, Inj> {
        self.tick("brace_group")?;
        Ok(Comp::Brace(g, io))
    }
    fn subshell(&mut self, g: CommandGroup<Cmd>, io: Vec<Redir>) -> Result<Comp, Inj> {
        self.tick("subshell")?;
        Ok(Comp::Sub(g, io))
    }
    fn loop_command(&mut self, k: LoopKind, g: GuardBodyPairGroup<Cmd>, io: Vec<Redir>) -> Result<Comp, Inj> {
        self.tick("loop_command")?;
        Ok(Comp::Loop(k, g, io))
    }
    fn if_command(&mut self, f: IfFragments<Cmd>, io: Vec<Redir>) -> Result<Comp, Inj> {
        self.tick("if_command")?;
        Ok(Comp::If(f, io))
    }
    fn for_command(&mut self, f: ForFragments<Word, Cmd>, io: Vec<Redir>) -> Result<Comp, Inj> {
        self.tick("for_command")?;
        Ok(Comp::For(f, io))
    }
    fn case_command(&mut self, f: CaseFragments<Word, Cmd>, io: Vec<Redir>) -> Result<Comp, Inj> {
        self.tick("case_command")?;
        Ok(Comp::Case(f, io))
    }
    fn compound_command_into_pipeable(&mut self, c: Comp) -> Result<Pc, Inj> {
        self.tick("compound_command_into_pipeable")?;
        Ok(Pc::Comp(Box::new(c)))
    }
    fn function_declaration(&mut self, n: String, c: Vec<Nl>, b: Comp) -> Result<Pc, Inj> {
        self.tick("function_declaration")?;
        Ok(Pc::Fun(n, c, Box::new(b)))
    }
    fn comments(&mut self, c: Vec<Nl>) -> Result<(), Inj> {
        self.tick("comments")?;
        self.0.borrow_mut().comments.extend(c);
        Ok(())
    }
    fn word(&mut self, k: ComplexWordKind<Cmd>) -> Result<Word, Inj> {
        self.tick("word")?;
        Ok(Word(k))
    }
    fn redirect(&mut self, k: RedirectKind<Word>) -> Result<Redir, Inj> {
        self.tick("redirect")?;
        Ok(Redir(k))
    }
}

/// What to do while walking a tree in place.
#[derive(Clone, Copy, Default)]
pub struct Norm {
    /// Forget comments and blank lines.
    pub strip_comments: bool,
    /// Treat `;` and newline (and nothing at the end of a group) as the same separator.
    pub merge_seps: bool,
    /// Also join adjacent single-quoted and adjacent double-quoted pieces, as the default builders do.
    pub merge_quotes: bool,
    /// Do not distinguish backquotes from `$( )`.
    pub merge_substs: bool,
}

type W = ComplexWordKind<Cmd>;
type S = SimpleWordKind<Cmd>;

impl Norm {
    pub fn cmd(&self, c: &mut Cmd) {
        if self.strip_comments {
            c.pre.clear();
            c.cmt = None;
        }
        if self.merge_seps && c.sep != SeparatorKind::Amp {
            c.sep = SeparatorKind::Other;
            if c.cmt == Some(Nl(None)) {
                c.cmt = None;
            }
        }
        self.pipe(&mut c.list.first);
        for (cm, p) in c.list.rest.iter_mut() {
            if self.strip_comments {
                cm.clear();
            }
            match p {
                AndOr::And(p) | AndOr::Or(p) => self.pipe(p),
            }
        }
    }
    pub fn cmds(&self, v: &mut [Cmd]) {
        for c in v {
            self.cmd(c)
        }
    }
    pub fn group(&self, g: &mut CommandGroup<Cmd>) {
        if self.strip_comments {
            g.trailing_comments.clear();
        }
        self.cmds(&mut g.commands);
    }
    pub fn pipe(&self, p: &mut Pipe) {
        for (cm, c) in p.cmds.iter_mut() {
            if self.strip_comments {
                cm.clear();
            }
            self.pc(c);
        }
    }
    pub fn pc(&self, c: &mut Pc) {
        match c {
            Pc::Simple(v, w) => {
                for x in v.iter_mut() {
                    match x {
                        RedirectOrEnvVar::Redirect(r) => self.redir(r),
                        RedirectOrEnvVar::EnvVar(_, w) => {
                            if let Some(w) = w {
                                self.word(&mut w.0)
                            }
                        }
                    }
                }
                for x in w.iter_mut() {
                    match x {
                        RedirectOrCmdWord::Redirect(r) => self.redir(r),
                        RedirectOrCmdWord::CmdWord(w) => self.word(&mut w.0),
                    }
                }
            }
            Pc::Comp(c) => self.comp(c),
            Pc::Fun(_, cm, b) => {
                if self.strip_comments {
                    cm.clear();
                }
                self.comp(b)
            }
        }
    }
    pub fn comp(&self, c: &mut Comp) {
        let strip = self.strip_comments;
        let io = match c {
            Comp::Brace(g, io) | Comp::Sub(g, io) => {
                self.group(g);
                io
            }
            Comp::Loop(_, g, io) => {
                self.group(&mut g.guard);
                self.group(&mut g.body);
                io
            }
            Comp::If(f, io) => {
                for g in f.conditionals.iter_mut() {
                    self.group(&mut g.guard);
                    self.group(&mut g.body);
                }
                if let Some(g) = f.else_branch.as_mut() {
                    self.group(g)
                }
                io
            }
            Comp::For(f, io) => {
                if strip {
                    f.var_comment = None;
                    f.pre_body_comments.clear();
                }
                if let Some((a, ws, b)) = f.words.as_mut() {
                    if strip {
                        a.clear();
                        *b = None;
                    }
                    for w in ws.iter_mut() {
                        self.word(&mut w.0)
                    }
                }
                self.group(&mut f.body);
                io
            }
            Comp::Case(f, io) => {
                self.word(&mut f.word.0);
                if strip {
                    f.post_word_comments.clear();
                    f.in_comment = None;
                    f.post_arms_comments.clear();
                }
                for a in f.arms.iter_mut() {
                    if strip {
                        a.patterns.pre_pattern_comments.clear();
                        a.patterns.pattern_comment = None;
                        a.arm_comment = None;
                    }
                    for w in a.patterns.pattern_alternatives.iter_mut() {
                        self.word(&mut w.0)
                    }
                    self.group(&mut a.body);
                }
                io
            }
        };
        for r in io.iter_mut() {
            self.redir(r)
        }
    }
    pub fn redir(&self, r: &mut Redir) {
        match &mut r.0 {
            RedirectKind::Read(_, w)
            | RedirectKind::Write(_, w)
            | RedirectKind::ReadWrite(_, w)
            | RedirectKind::Append(_, w)
            | RedirectKind::Clobber(_, w)
            | RedirectKind::Heredoc(_, w)
            | RedirectKind::DupRead(_, w)
            | RedirectKind::DupWrite(_, w) => self.word(&mut w.0),
        }
    }
    pub fn word(&self, w: &mut W) {
        let v = match std::mem::replace(w, ComplexWordKind::Concat(Vec::new())) {
            ComplexWordKind::Single(s) => vec![s],
            ComplexWordKind::Concat(v) => v,
        };
        let mut out: Vec<WordKind<Cmd>> = Vec::with_capacity(v.len());
        for mut k in v {
            match &mut k {
                WordKind::Simple(s) => self.simple(s),
                WordKind::SingleQuoted(_) => {}
                WordKind::DoubleQuoted(l) => {
                    let mut o: Vec<S> = Vec::with_capacity(l.len());
                    for mut s in l.drain(..) {
                        self.simple(&mut s);
                        Self::push_simple(&mut o, s);
                    }
                    *l = o;
                }
            }
            match (out.last_mut(), k) {
                (
                    Some(WordKind::Simple(SimpleWordKind::Literal(a))),
                    WordKind::Simple(SimpleWordKind::Literal(b)),
                ) => a.push_str(&b),
                (Some(WordKind::SingleQuoted(a)), WordKind::SingleQuoted(b)) if self.merge_quotes => a.push_str(&b),
                (Some(WordKind::DoubleQuoted(a)), WordKind::DoubleQuoted(b)) if self.merge_quotes => {
                    for s in b {
                        Self::push_simple(a, s)
                    }
                }
                (_, k) => out.push(k),
            }
        }
        *w = if out.len() == 1 {
            ComplexWordKind::Single(out.pop().unwrap())
        } else {
            ComplexWordKind::Concat(out)
        };
    }
    fn push_simple(o: &mut Vec<S>, s: S) {
        match (o.last_mut(), s) {
            (Some(SimpleWordKind::Literal(a)), SimpleWordKind::Literal(b)) => a.push_str(&b),
            (_, s) => o.push(s),
        }
    }
    fn simple(&self, s: &mut S) {
        use ParameterSubstitutionKind::*;
        match s {
            SimpleWordKind::CommandSubst(g) => {
                self.group(g);
                if self.merge_substs {
                    let g = std::mem::replace(g, CommandGroup { commands: vec![], trailing_comments: vec![] });
                    *s = SimpleWordKind::Subst(Box::new(Command(g)));
                }
            }
            SimpleWordKind::Subst(b) => match &mut **b {
                Command(g) => self.group(g),
                Len(_) | Arith(_) => {}
                Default(_, _, w)
                | Assign(_, _, w)
                | Error(_, _, w)
                | Alternative(_, _, w)
                | RemoveSmallestSuffix(_, w)
                | RemoveLargestSuffix(_, w)
                | RemoveSmallestPrefix(_, w)
                | RemoveLargestPrefix(_, w) => {
                    if let Some(w) = w {
                        self.word(w)
                    }
                }
            },
            _ => {}
        }
    }
}

/// All comments and blank lines of a command, in the order of the fields they are attached to
/// (which is the source order).
pub fn comments_of(cmds: &[Cmd]) -> Vec<Nl> {
    let mut out = Vec::new();
    for c in cmds {
        Collect { out: &mut out }.cmd(c);
    }
    out
}

struct Collect<'a> {
    out: &'a mut Vec<Nl>,
}
impl<'a> Collect<'a> {
    fn nls(&mut self, v: &[Nl]) {
        self.out.extend(v.iter().cloned())
    }
    fn nl(&mut self, v: &Option<Nl>) {
        self.out.extend(v.iter().cloned())
    }
    fn cmd(&mut self, c: &Cmd) {
        self.nls(&c.pre);
        self.pipe(&c.list.first);
        for (cm, p) in &c.list.rest {
            self.nls(cm);
            match p {
                AndOr::And(p) | AndOr::Or(p) => self.pipe(p),
            }
        }
        self.nl(&c.cmt);
    }
    fn group(&mut self, g: &CommandGroup<Cmd>) {
        for c in &g.commands {
            self.cmd(c)
        }
        self.nls(&g.trailing_comments);
    }
    fn pipe(&mut self, p: &Pipe) {
        // The comments stored with a command are those after the `|` that follows it.
        for (cm, c) in &p.cmds {
            self.pc(c);
            self.nls(cm);
        }
    }
    fn pc(&mut self, c: &Pc) {
        match c {
            Pc::Simple(v, w) => {
                for x in v {
                    match x {
                        RedirectOrEnvVar::Redirect(r) => self.redir(r),
                        RedirectOrEnvVar::EnvVar(_, Some(w)) => self.word(&w.0),
                        _ => {}
                    }
                }
                for x in w {
                    match x {
                        RedirectOrCmdWord::Redirect(r) => self.redir(r),
                        RedirectOrCmdWord::CmdWord(w) => self.word(&w.0),
                    }
                }
            }
            Pc::Comp(c) => self.comp(c),
            Pc::Fun(_, cm, b) => {
                self.nls(cm);
                self.comp(b)
            }
        }
    }
    fn comp(&mut self, c: &Comp) {
        let io = match c {
            Comp::Brace(g, io) | Comp::Sub(g, io) => {
                self.group(g);
                io
            }
            Comp::Loop(_, g, io) => {
                self.group(&g.guard);
                self.group(&g.body);
                io
            }
            Comp::If(f, io) => {
                for g in &f.conditionals {
                    self.group(&g.guard);
                    self.group(&g.body);
                }
                if let Some(g) = &f.else_branch {
                    self.group(g)
                }
                io
            }
            Comp::For(f, io) => {
                self.nl(&f.var_comment);
                if let Some((a, ws, b)) = &f.words {
                    self.nls(a);
                    for w in ws {
                        self.word(&w.0)
                    }
                    self.nl(b);
                }
                self.nls(&f.pre_body_comments);
                self.group(&f.body);
                io
            }
            Comp::Case(f, io) => {
                self.word(&f.word.0);
                self.nls(&f.post_word_comments);
                self.nl(&f.in_comment);
                for a in &f.arms {
                    self.nls(&a.patterns.pre_pattern_comments);
                    for w in &a.patterns.pattern_alternatives {
                        self.word(&w.0)
                    }
                    self.nl(&a.patterns.pattern_comment);
                    self.group(&a.body);
                    self.nl(&a.arm_comment);
                }
                self.nls(&f.post_arms_comments);
                io
            }
        };
        for r in io {
            self.redir(r)
        }
    }
    fn redir(&mut self, r: &Redir) {
        match &r.0 {
            RedirectKind::Read(_, w)
            | RedirectKind::Write(_, w)
            | RedirectKind::ReadWrite(_, w)
            | RedirectKind::Append(_, w)
            | RedirectKind::Clobber(_, w)
            | RedirectKind::Heredoc(_, w)
            | RedirectKind::DupRead(_, w)
            | RedirectKind::DupWrite(_, w) => self.word(&w.0),
        }
    }
    fn word(&mut self, w: &W) {
        let one = |me: &mut Self, k: &WordKind<Cmd>| match k {
            WordKind::Simple(s) => me.simple(s),
            WordKind::SingleQuoted(_) => {}
            WordKind::DoubleQuoted(l) => {
                for s in l {
                    me.simple(s)
                }
            }
        };
        match w {
            ComplexWordKind::Single(k) => one(self, k),
            ComplexWordKind::Concat(v) => {
                for k in v {
                    one(self, k)
                }
            }
        }
    }
    fn simple(&mut self, s: &S) {
        use ParameterSubstitutionKind::*;
        match s {
            SimpleWordKind::CommandSubst(g) => self.group(g),
            SimpleWordKind::Subst(b) => match &**b {
                Command(g) => self.group(g),
                Len(_) | Arith(_) => {}
                Default(_, _, w)
                | Assign(_, _, w)
                | Error(_, _, w)
                | Alternative(_, _, w)
                | RemoveSmallestSuffix(_, w)
                | RemoveLargestSuffix(_, w)
                | RemoveSmallestPrefix(_, w)
                | RemoveLargestPrefix(_, w) => {
                    if let Some(w) = w {
                        self.word(w)
                    }
                }
            },
            _ => {}
        }
    }
}

/// Visits the words of a command that are not inside substitutions, in order.
pub fn for_words(c: &mut Cmd, f: &mut dyn FnMut(&mut ComplexWordKind<Cmd>)) {
    fn redir(r: &mut Redir, f: &mut dyn FnMut(&mut ComplexWordKind<Cmd>)) {
        match &mut r.0 {
            RedirectKind::Read(_, w)
            | RedirectKind::Write(_, w)
            | RedirectKind::ReadWrite(_, w)
            | RedirectKind::Append(_, w)
            | RedirectKind::Clobber(_, w)
            | RedirectKind::Heredoc(_, w)
            | RedirectKind::DupRead(_, w)
            | RedirectKind::DupWrite(_, w) => f(&mut w.0),
        }
    }
    fn group(g: &mut CommandGroup<Cmd>, f: &mut dyn FnMut(&mut ComplexWordKind<Cmd>)) {
        for c in g.commands.iter_mut() {
            for_words(c, f)
        }
    }
    fn pipe(p: &mut Pipe, f: &mut dyn FnMut(&mut ComplexWordKind<Cmd>)) {
        for (_, c) in p.cmds.iter_mut() {
            match c {
                Pc::Simple(v, w) => {
                    for x in v.iter_mut() {
                        match x {
                            RedirectOrEnvVar::Redirect(r) => redir(r, f),
                            RedirectOrEnvVar::EnvVar(_, Some(w)) => f(&mut w.0),
                            _ => {}
                        }
                    }
                    for x in w.iter_mut() {
                        match x {
                            RedirectOrCmdWord::Redirect(r) => redir(r, f),
                            RedirectOrCmdWord::CmdWord(w) => f(&mut w.0),
                        }
                    }
                }
                Pc::Comp(c) | Pc::Fun(_, _, c) => comp(c, f),
            }
        }
    }
    fn comp(c: &mut Comp, f: &mut dyn FnMut(&mut ComplexWordKind<Cmd>)) {
        let io = match c {
            Comp::Brace(g, io) | Comp::Sub(g, io) => {
                group(g, f);
                io
            }
            Comp::Loop(_, g, io) => {
                group(&mut g.guard, f);
                group(&mut g.body, f);
                io
            }
            Comp::If(x, io) => {
                for g in x.conditionals.iter_mut() {
                    group(&mut g.guard, f);
                    group(&mut g.body, f);
                }
                if let Some(g) = x.else_branch.as_mut() {
                    group(g, f)
                }
                io
            }
            Comp::For(x, io) => {
                if let Some((_, ws, _)) = x.words.as_mut() {
                    for w in ws.iter_mut() {
                        f(&mut w.0)
                    }
                }
                group(&mut x.body, f);
                io
            }
            Comp::Case(x, io) => {
                f(&mut x.word.0);
                for a in x.arms.iter_mut() {
                    for w in a.patterns.pattern_alternatives.iter_mut() {
                        f(&mut w.0)
                    }
                    group(&mut a.body, f);
                }
                io
            }
        };
        for r in io.iter_mut() {
            redir(r, f)
        }
    }
    pipe(&mut c.list.first, f);
    for (_, p) in c.list.rest.iter_mut() {
        match p {
            AndOr::And(p) | AndOr::Or(p) => pipe(p, f),
        }
    }
}
