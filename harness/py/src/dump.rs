//! Dumps a program through the typed syntax tree API into the s-expression form which
//! `oracle.py` produces from CPython's `ast`.
use parsa_python_cst::*;
use std::fmt::Write;

pub struct Dump<'t> {
    tree: &'t Tree,
    nopos: usize,
    pub o: String,
    pub errors: usize,
}

type E = std::fmt::Result;

pub fn dump(tree: &Tree) -> (String, usize) {
    let mut d = Dump { tree, nopos: 0, o: String::new(), errors: 0 };
    d.stmts(tree.root().iter_stmt_likes()).unwrap();
    (d.o, d.errors)
}

/// Walks a single expression, wherever it stands.
pub fn dump_expression(tree: &Tree, e: Expression<'_>) -> String {
    let e = Expression::by_index(tree, e.index());
    let mut d = Dump { tree, nopos: 0, o: String::new(), errors: 0 };
    d.expr(e).unwrap();
    d.o
}
pub fn dump_block(tree: &Tree, i: NodeIndex) -> String {
    let mut d = Dump { tree, nopos: 0, o: String::new(), errors: 0 };
    d.body(Block::by_index(tree, i)).unwrap();
    d.o
}

impl<'t> Dump<'t> {
    fn pos(&mut self, s: CodeIndex, e: CodeIndex) -> E {
        if self.nopos == 0 { write!(self.o, "@{s}-{e}") } else { Ok(()) }
    }
    fn opn(&mut self, k: &str, s: CodeIndex, e: CodeIndex) -> E {
        self.o.push('(');
        self.o.push_str(k);
        self.pos(s, e)?;
        self.o.push(' ');
        Ok(())
    }
    fn close(&mut self) {
        while self.o.ends_with(' ') {
            self.o.pop();
        }
        self.o.push(')');
    }
    fn sp(&mut self) {
        self.o.push(' ');
    }
    fn none(&mut self) {
        self.o.push('-');
    }
    fn end_ws(&self, i: NodeIndex) -> CodeIndex {
        self.tree.node_end_position_without_whitespace(i)
    }

    fn stmts(&mut self, it: StmtLikeIterator<'t>) -> E {
        self.o.push('{');
        let mut n = 0;
        for s in it {
            if matches!(s.node, StmtLikeContent::Newline) {
                continue;
            }
            if n > 0 {
                self.sp();
            }
            n += 1;
            self.stmt(s.node)?;
        }
        self.o.push('}');
        Ok(())
    }

    fn body(&mut self, b: Block<'t>) -> E {
        self.stmts(b.iter_stmt_likes())
    }
    fn else_(&mut self, b: Option<ElseBlock<'t>>) -> E {
        match b {
            Some(b) => self.body(b.block()),
            None => {
                self.o.push_str("{}");
                Ok(())
            }
        }
    }

    fn stmt(&mut self, s: StmtLikeContent<'t>) -> E {
        use StmtLikeContent as S;
        match s {
            S::Assignment(a) => match a.unpack() {
                AssignmentContent::Normal(ts, r) => {
                    self.opn("=", a.start(), a.end())?;
                    self.o.push('[');
                    for (i, t) in ts.enumerate() {
                        if i > 0 {
                            self.sp();
                        }
                        self.target(t, "S")?;
                    }
                    self.o.push_str("] ");
                    self.rhs(r)?;
                    self.close();
                }
                AssignmentContent::WithAnnotation(t, ann, r) => {
                    self.opn("ann", a.start(), a.end())?;
                    self.target(t, "S")?;
                    self.sp();
                    self.expr(ann.expression())?;
                    self.sp();
                    match r {
                        Some(r) => self.rhs(r)?,
                        None => self.none(),
                    }
                    self.close();
                }
                AssignmentContent::AugAssign(t, op, r) => {
                    self.opn("aug", a.start(), a.end())?;
                    self.target(t, "S")?;
                    let (_, infos) = op.magic_methods();
                    assert_eq!(infos.operand, op.operand());
                    write!(self.o, " {}= ", op.operand())?;
                    self.rhs(r)?;
                    self.close();
                }
            },
            S::StarExpressions(e) => {
                self.o.push_str("(expr ");
                self.star_exprs(e)?;
                self.close();
            }
            S::YieldExpr(y) => {
                self.o.push_str("(expr ");
                self.yield_(y)?;
                self.close();
            }
            S::ReturnStmt(r) => {
                self.opn("return", r.start(), r.end())?;
                match r.star_expressions() {
                    Some(e) => self.star_exprs(e)?,
                    None => self.none(),
                }
                self.close();
            }
            S::RaiseStmt(r) => {
                self.opn("raise", r.start(), r.end())?;
                match r.unpack() {
                    Some((e, c)) => {
                        self.expr(e)?;
                        self.sp();
                        match c {
                            Some(c) => self.expr(c)?,
                            None => self.none(),
                        }
                    }
                    None => self.o.push_str("- -"),
                }
                self.close();
            }
            S::ImportFrom(f) => {
                self.opn("from", f.start(), f.end())?;
                let (level, name) = f.level_with_dotted_name();
                write!(self.o, "{level} ")?;
                match name {
                    Some(d) => self.dotted(d)?,
                    None => self.none(),
                }
                match f.unpack_targets() {
                    ImportFromTargets::Star(_) => self.o.push_str(" * as -"),
                    ImportFromTargets::Iterator(it) => {
                        for t in it {
                            let (n, d) = t.unpack();
                            if n.index() == d.name().index() {
                                write!(self.o, " {} as -", n.as_str())?;
                            } else {
                                write!(self.o, " {} as {}", n.as_str(), d.as_code())?;
                            }
                        }
                    }
                }
                self.close();
            }
            S::ImportName(f) => {
                self.opn("import", f.start(), f.end())?;
                for (i, n) in f.iter_dotted_as_names().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    match n.unpack() {
                        DottedAsNameContent::Simple(d, rest) => {
                            write!(self.o, "{}", d.as_code())?;
                            if let Some(r) = rest {
                                self.o.push('.');
                                self.dotted(r)?;
                            }
                            self.o.push_str(" as -");
                        }
                        DottedAsNameContent::WithAs(r, d) => {
                            self.dotted(r)?;
                            write!(self.o, " as {}", d.as_code())?;
                        }
                    }
                }
                self.close();
            }
            S::PassStmt(p) => {
                self.opn("pass", p.start(), p.end())?;
                self.close();
            }
            S::BreakStmt(p) => {
                self.opn("break", p.start(), p.end())?;
                self.close();
            }
            S::ContinueStmt(p) => {
                self.opn("continue", p.start(), p.end())?;
                self.close();
            }
            S::GlobalStmt(p) => {
                self.opn("global", p.start(), p.end())?;
                for n in p.iter_name_defs() {
                    write!(self.o, "{} ", n.as_code())?;
                }
                self.close();
            }
            S::NonlocalStmt(p) => {
                self.opn("nonlocal", p.start(), p.end())?;
                // There is no accessor, the names are taken from the text.
                let code: String = strip_layout(p.as_code());
                let code = code.strip_prefix("nonlocal").unwrap();
                self.o.push_str(&code.replace(',', " "));
                self.close();
            }
            S::AssertStmt(a) => {
                self.opn("assert", a.start(), a.end())?;
                let (e, m) = a.unpack();
                self.expr(e)?;
                self.sp();
                match m {
                    Some(m) => self.expr(m)?,
                    None => self.none(),
                }
                self.close();
            }
            S::DelStmt(d) => {
                self.opn("del", d.start(), d.end())?;
                self.o.push('[');
                let st = self.o.len();
                self.del_targets(d.targets(), st)?;
                self.o.push(']');
                self.close();
            }
            S::TypeAlias(t) => {
                let (n, tp, e) = t.unpack();
                self.opn("type", t.start(), t.end())?;
                self.name_def(n, "S")?;
                self.sp();
                self.type_params(tp)?;
                self.sp();
                self.expr(e)?;
                self.close();
            }
            S::FunctionDef(f) => self.func(f, None, false)?,
            S::ClassDef(c) => self.class(c, None)?,
            S::Decorated(d) => match d.decoratee() {
                Decoratee::ClassDef(c) => self.class(c, Some(d.decorators()))?,
                Decoratee::FunctionDef(f) => self.func(f, Some(d.decorators()), false)?,
                Decoratee::AsyncFunctionDef(f) => self.func(f, Some(d.decorators()), true)?,
            },
            S::AsyncStmt(a) => match a.unpack() {
                AsyncStmtContent::FunctionDef(f) => self.func(f, None, true)?,
                AsyncStmtContent::ForStmt(f) => self.for_(f, true)?,
                AsyncStmtContent::WithStmt(f) => self.with(f, true)?,
            },
            S::IfStmt(i) => {
                let e = self.end_ws(i.index());
                self.opn("if", i.start(), e)?;
                for (n, b) in i.iter_blocks().enumerate() {
                    match b {
                        IfBlockType::If(c, b) => {
                            if n > 0 {
                                self.o.push_str(" (elif ");
                            }
                            self.named(c)?;
                            self.sp();
                            self.body(b)?;
                            if n > 0 {
                                self.close();
                            }
                        }
                        IfBlockType::Else(e) => {
                            self.o.push_str(" (else ");
                            self.body(e.block())?;
                            self.close();
                        }
                    }
                }
                self.close();
            }
            S::WhileStmt(w) => {
                let e = self.end_ws(w.index());
                self.opn("while", w.start(), e)?;
                let (c, b, el) = w.unpack();
                self.named(c)?;
                self.sp();
                self.body(b)?;
                self.sp();
                self.else_(el)?;
                self.close();
            }
            S::ForStmt(f) => self.for_(f, false)?,
            S::TryStmt(t) => {
                let e = self.end_ws(t.index());
                self.opn("try", t.start(), e)?;
                for b in t.iter_blocks() {
                    match b {
                        TryBlockType::Try(b) => self.body(b)?,
                        TryBlockType::Except(b) => {
                            self.o.push_str(" (except ");
                            let (x, b) = b.unpack();
                            match x {
                                Some(x) => self.except_expr(x)?,
                                None => self.o.push_str("- -"),
                            }
                            self.sp();
                            self.body(b)?;
                            self.close();
                        }
                        TryBlockType::ExceptStar(b) => {
                            self.o.push_str(" (except* ");
                            let (x, b) = b.unpack();
                            self.except_expr(x)?;
                            self.sp();
                            self.body(b)?;
                            self.close();
                        }
                        TryBlockType::Else(b) => {
                            self.o.push_str(" (else ");
                            self.body(b.block())?;
                            self.close();
                        }
                        TryBlockType::Finally(b) => {
                            self.o.push_str(" (finally ");
                            self.body(b.block())?;
                            self.close();
                        }
                    }
                }
                self.close();
            }
            S::WithStmt(w) => self.with(w, false)?,
            S::MatchStmt(m) => self.match_(m)?,
            S::Error(e) => {
                self.errors += 1;
                write!(self.o, "(ERROR {:?})", e.as_code())?;
            }
            S::BrokenScope(b) => {
                self.errors += 1;
                self.o.push_str("(BROKEN ");
                self.stmts(b.iter_stmt_likes())?;
                self.close();
            }
            S::Newline => {}
        }
        Ok(())
    }

    fn except_expr(&mut self, x: ExceptExpression<'t>) -> E {
        match x.unpack() {
            ExceptExpressionContent::WithNameDef(e, n) => {
                self.expr(e)?;
                write!(self.o, " {}", n.as_code())?;
            }
            ExceptExpressionContent::Expressions(es) => {
                self.expressions(es)?;
                self.o.push_str(" -");
            }
        }
        Ok(())
    }

    fn expressions(&mut self, es: Expressions<'t>) -> E {
        let v: Vec<_> = es.iter().collect();
        let code = es.as_code();
        if v.len() == 1 && v[0].end() == es.end() {
            self.expr(v[0])
        } else {
            let _ = code;
            self.opn("T", es.start(), es.end())?;
            for (i, e) in v.into_iter().enumerate() {
                if i > 0 {
                    self.sp();
                }
                self.expr(e)?;
            }
            self.close();
            Ok(())
        }
    }

    fn for_(&mut self, f: ForStmt<'t>, a: bool) -> E {
        let e = self.end_ws(f.index());
        if a {
            write!(self.o, "(async for@?-{e} ")?;
        } else {
            self.opn("for", f.start(), e)?;
        }
        let (t, it, b, el) = f.unpack();
        self.target(t.as_target(), "S")?;
        self.sp();
        self.star_exprs(it)?;
        self.sp();
        self.body(b)?;
        self.sp();
        self.else_(el)?;
        self.close();
        Ok(())
    }
    fn with(&mut self, w: WithStmt<'t>, a: bool) -> E {
        let e = self.end_ws(w.index());
        if a {
            write!(self.o, "(async with@?-{e} ")?;
        } else {
            self.opn("with", w.start(), e)?;
        }
        let (items, b) = w.unpack();
        self.o.push('[');
        for (i, it) in items.iter().enumerate() {
            if i > 0 {
                self.sp();
            }
            let (e, t) = it.unpack();
            self.o.push('(');
            self.expr(e)?;
            self.sp();
            match t {
                Some(t) => self.target(t, "S")?,
                None => self.none(),
            }
            self.o.push(')');
            assert_eq!(it.in_async_with_stmt(), a, "in_async_with_stmt");
        }
        self.o.push_str("] ");
        self.body(b)?;
        self.close();
        Ok(())
    }

    fn func(&mut self, f: FunctionDef<'t>, d: Option<Decorators<'t>>, a: bool) -> E {
        let e = self.end_ws(f.index());
        if a {
            write!(self.o, "(async def@?-{e} ")?;
        } else {
            self.opn("def", f.start(), e)?;
        }
        self.decorators(d)?;
        let (n, tp, params, ret, body) = f.unpack();
        write!(self.o, " {} ", n.as_code())?;
        self.type_params(tp)?;
        self.sp();
        self.params(params.iter())?;
        self.sp();
        match ret {
            Some(r) => self.expr(r.expression())?,
            None => self.none(),
        }
        self.sp();
        self.body(body)?;
        self.close();
        assert_eq!(f.parent().is_async(), a, "is_async");
        assert_eq!(f.maybe_decorated().is_some(), d.is_some(), "maybe_decorated");
        Ok(())
    }

    fn class(&mut self, c: ClassDef<'t>, d: Option<Decorators<'t>>) -> E {
        let e = self.end_ws(c.index());
        self.opn("class", c.start(), e)?;
        self.decorators(d)?;
        let (tp, args, b) = c.unpack();
        write!(self.o, " {} ", c.name().as_str())?;
        self.type_params(tp)?;
        self.sp();
        match args {
            Some(a) => self.args(a)?,
            None => self.o.push_str("[]"),
        }
        self.sp();
        self.body(b)?;
        self.close();
        Ok(())
    }

    fn decorators(&mut self, d: Option<Decorators<'t>>) -> E {
        self.o.push('[');
        if let Some(d) = d {
            for (i, d) in d.iter().enumerate() {
                if i > 0 {
                    self.sp();
                }
                self.named(d.named_expression())?;
            }
        }
        self.o.push(']');
        Ok(())
    }

    fn type_params(&mut self, t: Option<TypeParams<'t>>) -> E {
        self.o.push('[');
        if let Some(t) = t {
            for (i, p) in t.iter().enumerate() {
                if i > 0 {
                    self.sp();
                }
                let (n, k) = p.unpack();
                match k {
                    TypeParamKind::TypeVar(b, _) => {
                        write!(self.o, "(TV {} ", n.as_code())?;
                        match b {
                            Some(b) => self.expr(b.expression())?,
                            None => self.none(),
                        }
                        self.o.push(')');
                    }
                    TypeParamKind::TypeVarTuple(_) => write!(self.o, "(TVT {})", n.as_code())?,
                    TypeParamKind::ParamSpec(_) => write!(self.o, "(PS {})", n.as_code())?,
                }
            }
        }
        self.o.push(']');
        Ok(())
    }

    fn params(&mut self, it: ParamIterator<'t>) -> E {
        self.o.push('[');
        for (i, p) in it.enumerate() {
            if i > 0 {
                self.sp();
            }
            let k = match p.kind() {
                ParamKind::PositionalOnly => "P",
                ParamKind::PositionalOrKeyword => "K",
                ParamKind::Star => "V",
                ParamKind::KeywordOnly => "O",
                ParamKind::StarStar => "W",
            };
            let n = p.name_def();
            write!(self.o, "({k} {}", n.as_code())?;
            if self.nopos == 0 {
                write!(self.o, "@{}", n.start())?;
            }
            self.o.push(':');
            match p.annotation() {
                None => self.none(),
                Some(ParamAnnotation::Annotation(a)) => self.expr(a.expression())?,
                Some(ParamAnnotation::StarAnnotation(a)) => match a.unpack() {
                    StarAnnotationContent::Expression(e) => self.expr(e)?,
                    StarAnnotationContent::StarExpression(e) => self.star_expr(e)?,
                },
            }
            self.sp();
            match p.default() {
                Some(d) => self.expr(d)?,
                None => self.none(),
            }
            self.o.push(')');
        }
        self.o.push(']');
        Ok(())
    }

    fn dotted(&mut self, d: DottedImportName<'t>) -> E {
        match d.unpack() {
            DottedImportNameContent::DottedName(d, n) => {
                self.dotted(d)?;
                write!(self.o, ".{}", n.as_str())
            }
            DottedImportNameContent::Name(n) => write!(self.o, "{}", n.as_str()),
        }
    }

    fn del_targets(&mut self, d: DelTargets<'t>, st: usize) -> E {
        for t in d.iter() {
            match t {
                DelTarget::Target(t) => {
                    if self.o.len() > st {
                        self.sp();
                    }
                    self.target(t, "D")?;
                }
                DelTarget::DelTargets(d) => self.del_targets(d, st)?,
            }
        }
        Ok(())
    }

    fn target(&mut self, t: Target<'t>, k: &str) -> E {
        match t {
            Target::Tuple(it) => {
                self.o.push_str("(TT");
                for t in it {
                    self.sp();
                    self.target(t, k)?;
                }
                self.o.push(')');
            }
            Target::Name(n) => self.name_def(n, k)?,
            Target::NameExpression(p, n) => {
                self.opn(&format!("A{k}"), p.start(), p.end())?;
                self.pt_first(p)?;
                write!(self.o, " {}", n.as_code())?;
                self.close();
            }
            Target::IndexExpression(p) => {
                self.opn(&format!("S{k}"), p.start(), p.end())?;
                self.pt_first(p)?;
                self.sp();
                match p.second() {
                    PrimaryContent::GetItem(s) => self.slice_type(s)?,
                    _ => self.o.push_str("?NOT-AN-INDEX"),
                }
                self.close();
            }
            Target::Starred(s) => {
                self.opn("*", s.start(), s.end())?;
                self.target(s.as_target(), k)?;
                self.close();
            }
        }
        Ok(())
    }
    fn pt_first(&mut self, p: PrimaryTarget<'t>) -> E {
        match p.first() {
            PrimaryTargetOrAtom::Atom(a) => self.atom(a),
            PrimaryTargetOrAtom::PrimaryTarget(p) => {
                match p.second() {
                    PrimaryContent::Attribute(n) => {
                        self.opn("A", p.start(), p.end())?;
                        self.pt_first(p)?;
                        write!(self.o, " {}", n.as_str())?;
                    }
                    PrimaryContent::Execution(d) => {
                        self.opn("call", p.start(), p.end())?;
                        self.pt_first(p)?;
                        self.sp();
                        self.arg_details(d)?;
                    }
                    PrimaryContent::GetItem(s) => {
                        self.opn("S", p.start(), p.end())?;
                        self.pt_first(p)?;
                        self.sp();
                        self.slice_type(s)?;
                    }
                }
                self.close();
                Ok(())
            }
        }
    }

    fn name_def(&mut self, n: NameDef<'t>, k: &str) -> E {
        self.opn(&format!("N{k}"), n.start(), n.end())?;
        self.o.push_str(n.as_code());
        self.close();
        Ok(())
    }

    fn rhs(&mut self, r: AssignmentRightSide<'t>) -> E {
        match r {
            AssignmentRightSide::YieldExpr(y) => self.yield_(y),
            AssignmentRightSide::StarExpressions(e) => self.star_exprs(e),
        }
    }
    fn yield_(&mut self, y: YieldExpr<'t>) -> E {
        match y.unpack() {
            YieldExprContent::StarExpressions(e) => {
                self.opn("yield", y.start(), y.end())?;
                self.star_exprs(e)?;
            }
            YieldExprContent::YieldFrom(e) => {
                self.opn("yieldfrom", y.start(), y.end())?;
                self.expr(e.expression())?;
            }
            YieldExprContent::None => {
                self.opn("yield", y.start(), y.end())?;
                self.none();
            }
        }
        self.close();
        Ok(())
    }
    fn star_exprs(&mut self, e: StarExpressions<'t>) -> E {
        match e.unpack() {
            StarExpressionContent::Expression(e) => self.expr(e),
            StarExpressionContent::StarExpression(e) => self.star_expr(e),
            StarExpressionContent::Tuple(t) => {
                self.opn("T", t.start(), t.end())?;
                for (i, x) in t.iter().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.star_like(x)?;
                }
                self.close();
                Ok(())
            }
        }
    }
    fn star_expr(&mut self, e: StarExpression<'t>) -> E {
        self.opn("*", e.start(), e.end())?;
        self.part(e.expression_part())?;
        self.close();
        Ok(())
    }
    fn star_like(&mut self, e: StarLikeExpression<'t>) -> E {
        match e {
            StarLikeExpression::Expression(e) => self.expr(e),
            StarLikeExpression::NamedExpression(e) => self.named(e),
            StarLikeExpression::StarExpression(e) => self.star_expr(e),
            StarLikeExpression::StarNamedExpression(e) => {
                self.opn("*", e.start(), e.end())?;
                self.part(e.expression_part())?;
                self.close();
                Ok(())
            }
        }
    }
    pub fn named(&mut self, e: NamedExpression<'t>) -> E {
        match e.unpack() {
            NamedExpressionContent::Expression(e) => self.expr(e),
            NamedExpressionContent::Walrus(w) => {
                let (n, e) = w.unpack();
                self.opn("walrus", w.start(), w.end())?;
                self.name_def(n, "S")?;
                self.sp();
                self.expr(e)?;
                self.close();
                Ok(())
            }
        }
    }
    pub fn expr(&mut self, e: Expression<'t>) -> E {
        match e.unpack() {
            ExpressionContent::ExpressionPart(p) => self.part(p),
            ExpressionContent::Ternary(t) => {
                let (a, b, c) = t.unpack();
                self.opn("if", t.start(), t.end())?;
                self.part(a)?;
                self.sp();
                self.part(b)?;
                self.sp();
                self.expr(c)?;
                self.close();
                Ok(())
            }
            ExpressionContent::Lambda(l) => {
                let (p, b) = l.unpack();
                self.opn("lambda", l.start(), l.end())?;
                self.params(p)?;
                self.sp();
                self.expr(b)?;
                self.close();
                Ok(())
            }
        }
    }
    fn bin(&mut self, s: CodeIndex, e: CodeIndex, o: Operation<'t>) -> E {
        self.opn("B", s, e)?;
        write!(self.o, "{} ", o.infos.operand)?;
        self.part(o.left)?;
        self.sp();
        self.part(o.right)?;
        self.close();
        Ok(())
    }
    fn flat(&self, p: ExpressionPart<'t>, and: bool, out: &mut Vec<ExpressionPart<'t>>) {
        match p {
            ExpressionPart::Conjunction(c) if and => {
                let (a, b) = c.unpack();
                self.flat(a, and, out);
                out.push(b);
            }
            ExpressionPart::Disjunction(c) if !and => {
                let (a, b) = c.unpack();
                self.flat(a, and, out);
                out.push(b);
            }
            p => out.push(p),
        }
    }
    pub fn part(&mut self, p: ExpressionPart<'t>) -> E {
        use ExpressionPart as P;
        match p {
            P::Atom(a) => self.atom(a),
            P::Primary(p) => self.primary(p),
            P::AwaitPrimary(a) => {
                self.opn("await", a.start(), a.end())?;
                self.part(a.primary())?;
                self.close();
                Ok(())
            }
            P::Power(x) => self.bin(x.start(), x.end(), x.as_operation()),
            P::Term(x) => self.bin(x.start(), x.end(), x.as_operation()),
            P::Sum(x) => self.bin(x.start(), x.end(), x.as_operation()),
            P::ShiftExpr(x) => self.bin(x.start(), x.end(), x.as_operation()),
            P::BitwiseAnd(x) => self.bin(x.start(), x.end(), x.as_operation()),
            P::BitwiseXor(x) => self.bin(x.start(), x.end(), x.as_operation()),
            P::BitwiseOr(x) => self.bin(x.start(), x.end(), x.as_operation()),
            P::Factor(f) => {
                let (k, e) = f.unpack();
                self.opn("U", f.start(), f.end())?;
                write!(self.o, "{} ", k.as_str())?;
                self.part(e)?;
                self.close();
                Ok(())
            }
            P::Comparisons(c) => {
                self.opn("cmp", c.start(), c.end())?;
                for (i, x) in c.iter().enumerate() {
                    if i == 0 {
                        self.part(x.left())?;
                    }
                    let op = match &x {
                        ComparisonContent::Equals(..) => "==",
                        ComparisonContent::NotEquals(..) => "!=",
                        ComparisonContent::Is(..) => "is",
                        ComparisonContent::IsNot(..) => "is not",
                        ComparisonContent::In(..) => "in",
                        ComparisonContent::NotIn(..) => "not in",
                        ComparisonContent::Ordering(o) => o.infos.operand,
                    };
                    write!(self.o, " {op} ")?;
                    self.part(x.right())?;
                }
                self.close();
                Ok(())
            }
            P::Inversion(i) => {
                self.opn("not", i.start(), i.end())?;
                self.part(i.expression())?;
                self.close();
                Ok(())
            }
            P::Conjunction(_) | P::Disjunction(_) => {
                let and = matches!(p, P::Conjunction(_));
                let mut v = vec![];
                self.flat(p, and, &mut v);
                let (s, e) = match p {
                    P::Conjunction(c) => (c.start(), c.end()),
                    P::Disjunction(c) => (c.start(), c.end()),
                    _ => unreachable!(),
                };
                self.opn(if and { "and" } else { "or" }, s, e)?;
                self.o.push('[');
                for (i, x) in v.into_iter().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.part(x)?;
                }
                self.o.push(']');
                self.close();
                Ok(())
            }
        }
    }
    fn primary(&mut self, p: Primary<'t>) -> E {
        let k = match p.second() {
            PrimaryContent::Attribute(_) => "A",
            PrimaryContent::Execution(_) => "call",
            PrimaryContent::GetItem(_) => "S",
        };
        self.opn(k, p.start(), p.end())?;
        match p.first() {
            PrimaryOrAtom::Primary(p) => self.primary(p)?,
            PrimaryOrAtom::Atom(a) => self.atom(a)?,
        }
        self.sp();
        match p.second() {
            PrimaryContent::Attribute(n) => self.o.push_str(n.as_str()),
            PrimaryContent::Execution(d) => self.arg_details(d)?,
            PrimaryContent::GetItem(s) => self.slice_type(s)?,
        }
        self.close();
        Ok(())
    }
    fn arg_details(&mut self, d: ArgumentsDetails<'t>) -> E {
        match d {
            ArgumentsDetails::None => {
                self.o.push_str("[]");
                Ok(())
            }
            ArgumentsDetails::Comprehension(c) => {
                self.o.push('[');
                self.comp("GE", None, c)?;
                self.o.push(']');
                Ok(())
            }
            ArgumentsDetails::Node(a) => self.args(a),
        }
    }
    fn args(&mut self, a: Arguments<'t>) -> E {
        self.o.push('[');
        for (i, a) in a.iter().enumerate() {
            if i > 0 {
                self.sp();
            }
            match a {
                Argument::Positional(e) => self.named(e)?,
                Argument::Keyword(k) => {
                    let (n, e) = k.unpack();
                    write!(self.o, "(kw {} ", n.as_str())?;
                    self.expr(e)?;
                    self.o.push(')');
                }
                Argument::Star(s) => {
                    self.opn("*", s.start(), s.end())?;
                    self.expr(s.expression())?;
                    self.close();
                }
                Argument::StarStar(s) => {
                    self.o.push_str("(** ");
                    self.expr(s.expression())?;
                    self.o.push(')');
                }
            }
        }
        self.o.push(']');
        Ok(())
    }
    fn slice_type(&mut self, s: SliceType<'t>) -> E {
        match s {
            SliceType::Slices(s) => {
                self.opn("T", s.start(), s.end())?;
                for (i, x) in s.iter().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    match x {
                        SliceContent::Slice(s) => self.slice(s)?,
                        SliceContent::NamedExpression(e) => self.named(e)?,
                        SliceContent::StarredExpression(e) => self.starred(e)?,
                    }
                }
                self.close();
                Ok(())
            }
            SliceType::Slice(s) => self.slice(s),
            SliceType::NamedExpression(e) => self.named(e),
            SliceType::StarredExpression(e) => {
                // CPython: x[*a] is a tuple of one starred element
                self.opn("T", e.start(), e.end())?;
                self.starred(e)?;
                self.close();
                Ok(())
            }
        }
    }
    fn starred(&mut self, s: StarredExpression<'t>) -> E {
        self.opn("*", s.start(), s.end())?;
        self.expr(s.expression())?;
        self.close();
        Ok(())
    }
    fn slice(&mut self, s: Slice<'t>) -> E {
        let (a, b, c) = s.unpack();
        self.o.push_str("(slice ");
        for (i, x) in [a, b, c].into_iter().enumerate() {
            if i > 0 {
                self.sp();
            }
            match x {
                Some(x) => self.expr(x)?,
                None => self.none(),
            }
        }
        self.o.push(')');
        Ok(())
    }
    fn clauses(&mut self, f: ForIfClauses<'t>) -> E {
        for (i, c) in f.iter().enumerate() {
            if i > 0 {
                self.sp();
            }
            let (a, c) = match c {
                ForIfClause::Async(c) => (true, c),
                ForIfClause::Sync(c) => (false, c),
            };
            self.o.push_str(if a { "(async for " } else { "(for " });
            let (t, it, ifs) = c.unpack();
            self.target(t.as_target(), "S")?;
            self.sp();
            self.part(it)?;
            self.o.push_str(" [");
            for (i, c) in ifs.enumerate() {
                if i > 0 {
                    self.sp();
                }
                self.part(c.expression_part())?;
            }
            self.o.push_str("])");
        }
        Ok(())
    }
    fn comp(&mut self, k: &str, p: Option<(CodeIndex, CodeIndex)>, c: Comprehension<'t>) -> E {
        let (e, f) = c.unpack();
        match p {
            Some((s, e)) => self.opn(k, s, e)?,
            None => write!(self.o, "({k} ")?,
        }
        self.named(e)?;
        self.sp();
        self.clauses(f)?;
        self.close();
        Ok(())
    }
    fn konst(&mut self, a: Atom<'t>, v: &str) -> E {
        self.opn("C", a.start(), a.end())?;
        self.o.push_str(v);
        self.close();
        Ok(())
    }
    pub fn atom(&mut self, a: Atom<'t>) -> E {
        use AtomContent as A;
        match a.unpack() {
            A::Name(n) => {
                self.opn("N", n.start(), n.end())?;
                self.o.push_str(n.as_str());
                self.close();
                Ok(())
            }
            A::Float(_) => self.konst(a, "float"),
            A::Int(_) => self.konst(a, "int"),
            A::Complex(_) => self.konst(a, "complex"),
            A::Strings(s) => {
                let mut f = false;
                for x in s.iter() {
                    if matches!(x, StringType::FString(_)) {
                        f = true;
                    }
                }
                if !f {
                    return self.konst(a, "str");
                }
                self.nopos += 1;
                self.o.push_str("(F");
                self.nopos -= 1;
                self.pos(a.start(), a.end())?;
                self.o.push(' ');
                self.nopos += 1;
                self.o.push('[');
                let mut n = 0;
                for x in s.iter() {
                    if let StringType::FString(f) = x {
                        for c in f.iter_content() {
                            if let FStringContent::FStringExpr(e) = c {
                                if n > 0 {
                                    self.sp();
                                }
                                n += 1;
                                self.fexpr(e)?;
                            }
                        }
                    }
                }
                self.o.push(']');
                self.nopos -= 1;
                self.close();
                Ok(())
            }
            A::Bytes(_) => self.konst(a, "bytes"),
            A::NoneLiteral => self.konst(a, "None"),
            A::Bool(k) => self.konst(a, k.as_str()),
            A::Ellipsis => self.konst(a, "Ellipsis"),
            A::List(l) => {
                self.opn("L", a.start(), a.end())?;
                self.o.push('[');
                for (i, x) in l.unpack().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.star_like(x)?;
                }
                self.o.push(']');
                self.close();
                Ok(())
            }
            A::ListComprehension(c) => self.comp("LC", Some((a.start(), a.end())), c),
            A::Dict(d) => {
                self.opn("D", a.start(), a.end())?;
                for (i, x) in d.iter_elements().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    match x {
                        DictElement::KeyValue(kv) => {
                            self.expr(kv.key())?;
                            self.o.push(':');
                            self.expr(kv.value())?;
                        }
                        DictElement::Star(s) => {
                            self.o.push_str("**");
                            self.part(s.expression_part())?;
                        }
                    }
                }
                self.close();
                Ok(())
            }
            A::DictComprehension(c) => {
                let (kv, f) = c.unpack();
                self.opn("DC", a.start(), a.end())?;
                self.expr(kv.key())?;
                self.sp();
                self.expr(kv.value())?;
                self.sp();
                self.clauses(f)?;
                self.close();
                Ok(())
            }
            A::Set(s) => {
                self.opn("Set", a.start(), a.end())?;
                self.o.push('[');
                for (i, x) in s.unpack().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.star_like(x)?;
                }
                self.o.push(']');
                self.close();
                Ok(())
            }
            A::SetComprehension(c) => self.comp("SC", Some((a.start(), a.end())), c),
            A::Tuple(t) => {
                self.opn("T", a.start(), a.end())?;
                for (i, x) in t.iter().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.star_like(x)?;
                }
                self.close();
                Ok(())
            }
            A::GeneratorComprehension(c) => self.comp("GE", None, c),
            A::YieldExpr(y) => self.yield_(y),
            A::NamedExpression(e) => self.named(e),
        }
    }
    fn fexpr(&mut self, e: FStringExpr<'t>) -> E {
        let (es, spec) = e.unpack();
        self.o.push_str("(fv ");
        self.expressions(es)?;
        self.sp();
        match spec {
            None => self.none(),
            Some(s) => {
                self.o.push('[');
                let mut n = 0;
                for c in s.iter_content() {
                    if let FStringContent::FStringExpr(e) = c {
                        if n > 0 {
                            self.sp();
                        }
                        n += 1;
                        self.fexpr(e)?;
                    }
                }
                self.o.push(']');
            }
        }
        self.o.push(')');
        Ok(())
    }

    fn match_(&mut self, m: MatchStmt<'t>) -> E {
        let e = self.end_ws(m.index());
        self.opn("match", m.start(), e)?;
        // SubjectExpr borrows from itself, so work on a leaked copy of the handle
        let subject: &'t SubjectExpr<'t> = Box::leak(Box::new(m.unpack().0));
        match subject.unpack() {
            SubjectExprContent::NamedExpression(n) => self.named(n)?,
            SubjectExprContent::Tuple(it) => {
                self.opn("T", subject.start(), subject.end())?;
                for (i, x) in it.enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.star_like(x)?;
                }
                self.close();
            }
        }
        for c in m.unpack().1 {
            self.o.push_str(" (case ");
            let (p, g, b) = c.unpack();
            match p {
                CasePattern::Pattern(p) => self.pat(p)?,
                CasePattern::OpenSequencePattern(s) => {
                    self.o.push_str("(seq");
                    for x in s.iter() {
                        self.sp();
                        self.seq_item(x)?;
                    }
                    self.o.push(')');
                }
            }
            self.sp();
            match g {
                Some(g) => self.named(g.named_expr())?,
                None => self.none(),
            }
            self.sp();
            self.body(b)?;
            self.close();
        }
        self.close();
        Ok(())
    }
    fn seq_item(&mut self, s: SequencePatternItem<'t>) -> E {
        match s {
            SequencePatternItem::Entry(p) => self.pat(p),
            SequencePatternItem::Rest(s) => match s.unpack() {
                StarPatternContent::NameDef(n) => write!(self.o, "(star {})", n.as_code()),
                StarPatternContent::WildcardPattern(_) => write!(self.o, "(star _)"),
            },
        }
    }
    fn pat(&mut self, p: Pattern<'t>) -> E {
        let (k, a) = p.unpack();
        if a.is_some() {
            self.o.push_str("(as ");
        }
        self.pat_kind(k)?;
        if let Some(a) = a {
            write!(self.o, " {})", a.as_code())?;
        }
        Ok(())
    }
    fn dotted_pat(&mut self, d: DottedPatternName<'t>) -> E {
        match d.unpack() {
            DottedPatternNameContent::DottedName(d, n) => {
                self.dotted_pat(d)?;
                write!(self.o, ".{}", n.as_str())
            }
            DottedPatternNameContent::Name(n) => write!(self.o, "{}", n.as_str()),
        }
    }
    fn lit(&mut self, l: LiteralPattern<'t>) -> E {
        match l.unpack() {
            LiteralPatternContent::Strings(_) => self.o.push_str("str"),
            LiteralPatternContent::Bytes(_) => self.o.push_str("bytes"),
            LiteralPatternContent::SignedNumber(n) => {
                let (n, neg) = n.number_and_is_negated();
                if neg {
                    self.none();
                }
                self.o.push_str(match n {
                    UnpackedNumber::Int(_) => "int",
                    UnpackedNumber::Float(_) => "float",
                    UnpackedNumber::Complex(_) => "complex",
                });
            }
            LiteralPatternContent::ComplexNumber(_) => self.o.push_str("complexnum"),
            LiteralPatternContent::None => self.o.push_str("None"),
            LiteralPatternContent::Bool(b) => self.o.push_str(if b { "True" } else { "False" }),
        }
        Ok(())
    }
    fn pat_kind(&mut self, k: PatternKind<'t>) -> E {
        match k {
            PatternKind::NameDef(n) => self.o.push_str(n.as_code()),
            PatternKind::WildcardPattern(_) => self.o.push('_'),
            PatternKind::DottedName(d) => {
                self.o.push_str("(val ");
                self.dotted_pat(d)?;
                self.o.push(')');
            }
            PatternKind::ClassPattern(c) => {
                let (d, it) = c.unpack();
                self.o.push_str("(cls ");
                self.dotted_pat(d)?;
                for p in it {
                    self.sp();
                    match p {
                        ParamPattern::Positional(p) => self.pat(p)?,
                        ParamPattern::Keyword(k) => {
                            let (n, p) = k.unpack();
                            write!(self.o, "{}=", n.as_str())?;
                            self.pat(p)?;
                        }
                    }
                }
                self.o.push(')');
            }
            PatternKind::LiteralPattern(l) => {
                self.o.push_str("(val ");
                self.lit(l)?;
                self.o.push(')');
            }
            PatternKind::GroupPattern(g) => self.pat(g.inner())?,
            PatternKind::OrPattern(o) => {
                self.o.push_str("(or");
                for k in o.iter() {
                    self.sp();
                    self.pat_kind(k)?;
                }
                self.o.push(')');
            }
            PatternKind::SequencePattern(s) => {
                self.o.push_str("(seq");
                for x in s.iter() {
                    self.sp();
                    self.seq_item(x)?;
                }
                self.o.push(')');
            }
            PatternKind::MappingPattern(m) => {
                self.o.push_str("(map");
                let mut rest = None;
                for x in m.iter() {
                    match x {
                        MappingPatternItem::Entry(kv) => {
                            self.sp();
                            let (k, p) = kv.unpack();
                            match k {
                                KeyEntryInPattern::LiteralPattern(l) => self.lit(l)?,
                                KeyEntryInPattern::DottedName(d) => self.dotted_pat(d)?,
                            }
                            self.o.push(':');
                            self.pat(p)?;
                        }
                        MappingPatternItem::Rest(d) => rest = Some(d.name_def()),
                    }
                }
                match rest {
                    Some(n) => write!(self.o, " {})", n.as_code())?,
                    None => self.o.push_str(" -)"),
                }
            }
        }
        Ok(())
    }
}

/// Removes whitespace, comments and line continuations (for simple statements without strings).
fn strip_layout(s: &str) -> String {
    let mut r = String::new();
    let mut comment = false;
    for c in s.chars() {
        match c {
            '#' => comment = true,
            '\n' | '\r' => comment = false,
            _ if comment => {}
            ' ' | '\t' | '\x0c' | '\\' => {}
            c => r.push(c),
        }
    }
    r
}
