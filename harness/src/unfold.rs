//! Turns the default syntax trees back into the neutral tree, so that they can be compared with what was reported.

use crate::tree::*;
use conch_parser::ast;
use conch_parser::ast::builder::*;
use conch_parser::ast::{
    AndOr, AndOrList, CompoundCommandKind, ListableCommand, PipeableCommand, RedirectOrCmdWord, RedirectOrEnvVar, SimpleWord,
    TopLevelCommand, TopLevelWord,
};

type U<T> = Result<T, String>;
type Io = ast::Redirect<TopLevelWord<String>>;
type Sub = ast::DefaultParameterSubstitution;

pub fn command(c: &TopLevelCommand<String>) -> U<Cmd> {
    let (l, sep) = match &c.0 {
        ast::Command::Job(l) => (l, SeparatorKind::Amp),
        ast::Command::List(l) => (l, SeparatorKind::Other),
    };
    Ok(Cmd { pre: vec![], list: list(l)?, sep, cmt: None })
}

fn commands(v: &[TopLevelCommand<String>]) -> U<Vec<Cmd>> {
    v.iter().map(command).collect()
}

fn group(v: &[TopLevelCommand<String>]) -> U<CommandGroup<Cmd>> {
    Ok(CommandGroup { commands: commands(v)?, trailing_comments: vec![] })
}

fn list(l: &AndOrList<ast::DefaultListableCommand>) -> U<List> {
    Ok(List {
        first: pipe(&l.first)?,
        rest: l
            .rest
            .iter()
            .map(|a| {
                Ok((
                    vec![],
                    match a {
                        AndOr::And(p) => AndOr::And(pipe(p)?),
                        AndOr::Or(p) => AndOr::Or(pipe(p)?),
                    },
                ))
            })
            .collect::<U<_>>()?,
    })
}

fn pipe(p: &ast::DefaultListableCommand) -> U<Pipe> {
    let (bang, v) = match p {
        ListableCommand::Pipe(b, v) => {
            if !*b && v.len() < 2 {
                return Err("a pipeline of a single command that is not negated".to_string());
            }
            (*b, v.iter().map(|c| Ok((vec![], pc(c)?))).collect::<U<_>>()?)
        }
        ListableCommand::Single(c) => (false, vec![(vec![], pc(c)?)]),
    };
    Ok(Pipe { bang, cmds: v })
}

fn pc(c: &ast::DefaultPipeableCommand) -> U<Pc> {
    Ok(match c {
        PipeableCommand::Simple(s) => Pc::Simple(
            s.redirects_or_env_vars
                .iter()
                .map(|x| {
                    Ok(match x {
                        RedirectOrEnvVar::Redirect(r) => RedirectOrEnvVar::Redirect(redir(r)?),
                        RedirectOrEnvVar::EnvVar(n, w) => {
                            RedirectOrEnvVar::EnvVar(n.clone(), w.as_ref().map(word).transpose()?.map(Word))
                        }
                    })
                })
                .collect::<U<_>>()?,
            s.redirects_or_cmd_words
                .iter()
                .map(|x| {
                    Ok(match x {
                        RedirectOrCmdWord::Redirect(r) => RedirectOrCmdWord::Redirect(redir(r)?),
                        RedirectOrCmdWord::CmdWord(w) => RedirectOrCmdWord::CmdWord(Word(word(w)?)),
                    })
                })
                .collect::<U<_>>()?,
        ),
        PipeableCommand::Compound(c) => Pc::Comp(Box::new(comp(c)?)),
        PipeableCommand::FunctionDef(n, b) => Pc::Fun(n.clone(), vec![], Box::new(comp(b)?)),
    })
}

fn pair(p: &ast::GuardBodyPair<TopLevelCommand<String>>) -> U<GuardBodyPairGroup<Cmd>> {
    Ok(GuardBodyPairGroup { guard: group(&p.guard)?, body: group(&p.body)? })
}

fn comp(c: &ast::DefaultCompoundCommand) -> U<Comp> {
    let io: Vec<Redir> = c.io.iter().map(redir).collect::<U<_>>()?;
    Ok(match &c.kind {
        CompoundCommandKind::Brace(v) => Comp::Brace(group(v)?, io),
        CompoundCommandKind::Subshell(v) => Comp::Sub(group(v)?, io),
        CompoundCommandKind::While(p) => Comp::Loop(LoopKind::While, pair(p)?, io),
        CompoundCommandKind::Until(p) => Comp::Loop(LoopKind::Until, pair(p)?, io),
        CompoundCommandKind::If { conditionals, else_branch } => Comp::If(
            IfFragments {
                conditionals: conditionals.iter().map(pair).collect::<U<_>>()?,
                else_branch: else_branch.as_ref().map(|v| group(v)).transpose()?,
            },
            io,
        ),
        CompoundCommandKind::For { var, words, body } => Comp::For(
            ForFragments {
                var: var.clone(),
                var_comment: None,
                words: words
                    .as_ref()
                    .map(|v| Ok::<_, String>((vec![], v.iter().map(|w| Ok(Word(word(w)?))).collect::<U<_>>()?, None)))
                    .transpose()?,
                pre_body_comments: vec![],
                body: group(body)?,
            },
            io,
        ),
        CompoundCommandKind::Case { word: w, arms } => Comp::Case(
            CaseFragments {
                word: Word(word(w)?),
                post_word_comments: vec![],
                in_comment: None,
                arms: arms
                    .iter()
                    .map(|a| {
                        Ok(CaseArm {
                            patterns: CasePatternFragments {
                                pre_pattern_comments: vec![],
                                pattern_alternatives: a.patterns.iter().map(|w| Ok(Word(word(w)?))).collect::<U<_>>()?,
                                pattern_comment: None,
                            },
                            body: group(&a.body)?,
                            arm_comment: None,
                        })
                    })
                    .collect::<U<_>>()?,
                post_arms_comments: vec![],
            },
            io,
        ),
    })
}

fn redir(r: &Io) -> U<Redir> {
    use ast::Redirect as A;
    use RedirectKind as K;
    let w = |w: &TopLevelWord<String>| Ok::<_, String>(Word(word(w)?));
    Ok(Redir(match r {
        A::Read(f, x) => K::Read(*f, w(x)?),
        A::Write(f, x) => K::Write(*f, w(x)?),
        A::ReadWrite(f, x) => K::ReadWrite(*f, w(x)?),
        A::Append(f, x) => K::Append(*f, w(x)?),
        A::Clobber(f, x) => K::Clobber(*f, w(x)?),
        A::Heredoc(f, x) => K::Heredoc(*f, w(x)?),
        A::DupRead(f, x) => K::DupRead(*f, w(x)?),
        A::DupWrite(f, x) => K::DupWrite(*f, w(x)?),
    }))
}

pub fn word(w: &TopLevelWord<String>) -> U<ComplexWordKind<Cmd>> {
    let one = |x: &ast::DefaultWord| -> U<WordKind<Cmd>> {
        Ok(match x {
            ast::Word::Simple(s) => WordKind::Simple(simple(s)?),
            ast::Word::SingleQuoted(s) => WordKind::SingleQuoted(s.clone()),
            ast::Word::DoubleQuoted(v) => WordKind::DoubleQuoted(v.iter().map(simple).collect::<U<_>>()?),
        })
    };
    let literal = |w: &[ast::DefaultSimpleWord]| w.windows(2).any(|p| matches!(p, [SimpleWord::Literal(_), SimpleWord::Literal(_)]));
    let split = |w: &ast::DefaultWord| matches!(w, ast::Word::DoubleQuoted(v) if literal(v));
    use ast::Word::*;
    let apart = match &w.0 {
        ast::ComplexWord::Single(x) => split(x),
        ast::ComplexWord::Concat(v) => {
            v.len() < 2
                || v.iter().any(split)
                || v.windows(2).any(|p| {
                    matches!(
                        p,
                        [Simple(SimpleWord::Literal(_)), Simple(SimpleWord::Literal(_))] | [SingleQuoted(_), SingleQuoted(_)] | [DoubleQuoted(_), DoubleQuoted(_)]
                    )
                })
        }
    };
    if apart {
        return Err(format!("the parts of a word are not joined: {:?}", w));
    }
    Ok(match &w.0 {
        ast::ComplexWord::Single(x) => ComplexWordKind::Single(one(x)?),
        ast::ComplexWord::Concat(v) => ComplexWordKind::Concat(v.iter().map(one).collect::<U<_>>()?),
    })
}

fn simple(s: &ast::DefaultSimpleWord) -> U<SimpleWordKind<Cmd>> {
    Ok(match s {
        SimpleWord::Literal(x) => SimpleWordKind::Literal(x.clone()),
        SimpleWord::Escaped(x) => SimpleWordKind::Escaped(x.clone()),
        SimpleWord::Param(p) => SimpleWordKind::Param(p.clone()),
        SimpleWord::Star => SimpleWordKind::Star,
        SimpleWord::Question => SimpleWordKind::Question,
        SimpleWord::SquareOpen => SimpleWordKind::SquareOpen,
        SimpleWord::SquareClose => SimpleWordKind::SquareClose,
        SimpleWord::Tilde => SimpleWordKind::Tilde,
        SimpleWord::Colon => SimpleWordKind::Colon,
        SimpleWord::Subst(x) => SimpleWordKind::Subst(Box::new(subst(x)?)),
    })
}

fn subst(s: &Sub) -> U<ParameterSubstitutionKind<ComplexWordKind<Cmd>, Cmd>> {
    use ast::ParameterSubstitution as A;
    use ParameterSubstitutionKind as K;
    let w = |w: &Option<TopLevelWord<String>>| w.as_ref().map(word).transpose();
    Ok(match s {
        A::Command(v) => K::Command(group(v)?),
        A::Len(p) => K::Len(p.clone()),
        A::Arith(a) => K::Arith(a.clone()),
        A::Default(c, p, x) => K::Default(*c, p.clone(), w(x)?),
        A::Assign(c, p, x) => K::Assign(*c, p.clone(), w(x)?),
        A::Error(c, p, x) => K::Error(*c, p.clone(), w(x)?),
        A::Alternative(c, p, x) => K::Alternative(*c, p.clone(), w(x)?),
        A::RemoveSmallestSuffix(p, x) => K::RemoveSmallestSuffix(p.clone(), w(x)?),
        A::RemoveLargestSuffix(p, x) => K::RemoveLargestSuffix(p.clone(), w(x)?),
        A::RemoveSmallestPrefix(p, x) => K::RemoveSmallestPrefix(p.clone(), w(x)?),
        A::RemoveLargestPrefix(p, x) => K::RemoveLargestPrefix(p.clone(), w(x)?),
    })
}
