//! ECMA-262 clause 13: expressions.
use super::parser::*;
use super::semantics::*;
use fajt_ast::*;
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::{keyword, punct, LexerState};

/// One level of left associative operators.
macro_rules! level {
    ($self:ident, $next:ident, $node:ident, $struct:ident, $ops:ident { $($(#[$if:meta])? $token:pat $(if $guard:expr)? => $op:ident),+ $(,)? }) => {{
        let start = $self.start();
        let mut left = $self.$next()?;
        loop {
            let operator = match $self.reader.current() {
                Ok(t) => match &t.value {
                    $($token $(if $guard)? => $ops::$op,)+
                    _ => return Ok(left),
                },
                Err(_) => return Ok(left),
            };
            $self.bump()?;
            let right = $self.$next()?;
            let span = $self.span(start);
            left = Expr::$node($struct { span, operator, left: Box::new(left), right: Box::new(right) });
        }
    }};
}

impl<'r, 's> RefParser<'r, 's> {
    // ---- 13.16
    pub fn parse_expr(&mut self) -> R<Expr> {
        let start = self.start();
        let first = self.parse_assignment_expr()?;
        if !self.is(&punct!(",")) {
            return Ok(first);
        }
        let mut list = Vec::new();
        list.push(first);
        while self.eat(&punct!(","))? {
            list.push(self.parse_assignment_expr()?);
        }
        Ok(Expr::Sequence(ExprSequence { span: self.span(start), expr: list }))
    }

    // ---- 13.15
    pub fn parse_assignment_expr(&mut self) -> R<Expr> {
        let start = self.start();
        if self.context.is_yield && self.is(&keyword!("yield")) {
            return self.yield_expr();
        }
        if self.at_identifier() && self.next_is(&punct!("=>")) {
            return self.parse_arrow_function_expr();
        }
        if self.is(&keyword!("async")) && self.next_is_identifier() && !self.next_at_newline() {
            return self.parse_async_arrow_function_expr();
        }
        let first = self.current()?.clone();
        let parsed = match self.parse_conditional_expr() {
            // an arrow function is an assignment expression: only here, not as an operand
            Err(RefError::Arrow(e)) if e.span().start == start => Ok(e),
            other => other,
        };
        let left = match parsed {
            Ok(e) => {
                let operator = match self.assignment_operator() {
                    Some(o) => o,
                    None => return Ok(e),
                };
                self.bump()?;
                if matches!(operator, AssignmentOperator::Assign) && is_pattern_literal(&e) {
                    self.rewind(&first)?;
                    let pattern = self.parse_assignment_pattern()?;
                    self.expect(&punct!("="))?;
                    (PatternOrExpr::AssignmentPattern(pattern), operator)
                } else {
                    self.must_be_simple_target(&e)?;
                    (PatternOrExpr::Expr(e), operator)
                }
            }
            Err(RefError::Init) => {
                self.rewind(&first)?;
                if !(self.is(&punct!("{")) || self.is(&punct!("["))) {
                    return Err(RefError::Init);
                }
                let pattern = self.parse_assignment_pattern()?;
                if !self.eat(&punct!("="))? {
                    return Err(RefError::Init);
                }
                (PatternOrExpr::AssignmentPattern(pattern), AssignmentOperator::Assign)
            }
            Err(e) => return Err(e),
        };
        let right = self.parse_assignment_expr()?;
        let span = self.span(start);
        Ok(Expr::Assignment(ExprAssignment { span, operator: left.1, left: Box::new(left.0), right: Box::new(right) }))
    }

    fn assignment_operator(&self) -> Option<AssignmentOperator> {
        use AssignmentOperator::*;
        let t = match self.reader.current() {
            Ok(t) => t,
            Err(_) => return None,
        };
        Some(match &t.value {
            punct!("=") => Assign,
            punct!("*=") => Multiply,
            punct!("**=") => Power,
            punct!("/=") => Divide,
            punct!("%=") => Modulus,
            punct!("+=") => Add,
            punct!("-=") => Sub,
            punct!("<<=") => LeftShift,
            punct!(">>=") => RightShift,
            punct!(">>>=") => UnsignedRightShift,
            punct!("&=") => BitwiseAnd,
            punct!("^=") => BitwiseXOr,
            punct!("|=") => BitwiseOr,
            _ => return None,
        })
    }

    // ---- 15.5
    fn yield_expr(&mut self) -> R<Expr> {
        let start = self.bump()?.span.start;
        if self.at_statement_end() || self.is(&punct!(")")) || self.is(&punct!("]")) {
            return Ok(Expr::Yield(ExprYield { span: self.span(start), argument: None, delegate: false }));
        }
        let delegate = self.eat(&punct!("*"))?;
        let argument = Some(Box::new(self.parse_assignment_expr()?));
        Ok(Expr::Yield(ExprYield { span: self.span(start), argument, delegate }))
    }

    // ---- 13.14
    pub fn parse_conditional_expr(&mut self) -> R<Expr> {
        let start = self.start();
        let condition = self.parse_short_circuit_expr()?;
        if !self.eat(&punct!("?"))? {
            return Ok(condition);
        }
        let consequent = Box::new(self.plus_in().parse_assignment_expr()?);
        self.expect(&punct!(":"))?;
        let alternate = Box::new(self.parse_assignment_expr()?);
        Ok(Expr::Conditional(ExprConditional { span: self.span(start), condition: Box::new(condition), consequent, alternate }))
    }

    // ---- 13.13
    pub fn parse_short_circuit_expr(&mut self) -> R<Expr> {
        level!(self, parse_logical_or_expr, Logical, ExprLogical, LogicalOperator { punct!("??") => Coalesce })
    }

    pub fn parse_logical_or_expr(&mut self) -> R<Expr> {
        level!(self, parse_logical_and_expr, Logical, ExprLogical, LogicalOperator { punct!("||") => Or })
    }

    pub fn parse_logical_and_expr(&mut self) -> R<Expr> {
        level!(self, parse_bitwise_or_expr, Logical, ExprLogical, LogicalOperator { punct!("&&") => And })
    }

    // ---- 13.12
    pub fn parse_bitwise_or_expr(&mut self) -> R<Expr> {
        level!(self, parse_bitwise_xor_expr, Binary, ExprBinary, BinaryOperator { punct!("|") => BitwiseOR })
    }

    pub fn parse_bitwise_xor_expr(&mut self) -> R<Expr> {
        level!(self, parse_bitwise_and_expr, Binary, ExprBinary, BinaryOperator { punct!("^") => BitwiseXOR })
    }

    pub fn parse_bitwise_and_expr(&mut self) -> R<Expr> {
        level!(self, parse_equality_expr, Binary, ExprBinary, BinaryOperator { punct!("&") => BitwiseAnd })
    }

    // ---- 13.11
    pub fn parse_equality_expr(&mut self) -> R<Expr> {
        level!(self, parse_relational_expr, Binary, ExprBinary, BinaryOperator {
            punct!("==") => Equal,
            punct!("!=") => NotEqual,
            punct!("===") => StrictEqual,
            punct!("!==") => StrictNotEqual,
        })
    }

    // ---- 13.10
    pub fn parse_relational_expr(&mut self) -> R<Expr> {
        let is_in = self.context.is_in;
        level!(self, parse_shift_expr, Binary, ExprBinary, BinaryOperator {
            punct!("<") => LessThan,
            punct!(">") => MoreThan,
            punct!("<=") => LessThanEquals,
            punct!(">=") => MoreThanEquals,
            keyword!("instanceof") => InstanceOf,
            keyword!("in") if is_in => In,
        })
    }

    // ---- 13.9
    pub fn parse_shift_expr(&mut self) -> R<Expr> {
        level!(self, parse_additive_expr, Binary, ExprBinary, BinaryOperator {
            punct!("<<") => ShiftLeft,
            punct!(">>") => ShiftRight,
            punct!(">>>") => ShiftRightUnsigned,
        })
    }

    // ---- 13.8
    pub fn parse_additive_expr(&mut self) -> R<Expr> {
        level!(self, parse_multiplicative_expr, Binary, ExprBinary, BinaryOperator { punct!("+") => Plus, punct!("-") => Minus })
    }

    // ---- 13.7
    pub fn parse_multiplicative_expr(&mut self) -> R<Expr> {
        level!(self, parse_exponentiation_expr, Binary, ExprBinary, BinaryOperator {
            punct!("*") => Multiplication,
            punct!("/") => Division,
            punct!("%") => Modulus,
        })
    }

    // ---- 13.6 (this tree associates to the left)
    pub fn parse_exponentiation_expr(&mut self) -> R<Expr> {
        level!(self, parse_unary_expr, Binary, ExprBinary, BinaryOperator { punct!("**") => Exponent })
    }

    // ---- 13.5
    pub fn parse_unary_expr(&mut self) -> R<Expr> {
        use UnaryOperator::*;
        let start = self.start();
        let operator = match &self.current()?.value {
            punct!("+") => Plus,
            punct!("-") => Minus,
            punct!("~") => BitwiseNot,
            punct!("!") => Not,
            keyword!("delete") => Delete,
            keyword!("void") => Void,
            keyword!("typeof") => Typeof,
            keyword!("await") if self.context.is_await => {
                self.bump()?;
                let argument = Box::new(self.parse_unary_expr()?);
                return Ok(Expr::Await(ExprAwait { span: self.span(start), argument }));
            }
            _ => return self.update_expr(),
        };
        self.bump()?;
        let argument = Box::new(self.parse_unary_expr()?);
        if matches!(operator, Delete) {
            early_errors_unary_delete(&argument, &self.context)?;
        }
        Ok(Expr::Unary(ExprUnary { span: self.span(start), operator, argument }))
    }

    // ---- 13.4
    fn update_operator(&self) -> Option<UpdateOperator> {
        if self.is(&punct!("++")) {
            Some(UpdateOperator::Increase)
        } else if self.is(&punct!("--")) {
            Some(UpdateOperator::Decrease)
        } else {
            None
        }
    }

    fn update_expr(&mut self) -> R<Expr> {
        let start = self.start();
        if let Some(operator) = self.update_operator() {
            self.bump()?;
            let argument = self.parse_unary_expr()?;
            self.must_be_simple_target(&argument)?;
            let span = self.span(start);
            return Ok(Expr::Update(ExprUpdate { span, operator, prefix: true, argument: Box::new(argument) }));
        }
        let argument = self.parse_left_hand_side_expr()?;
        // no LineTerminator before a postfix operator
        if self.at_newline() {
            return Ok(argument);
        }
        match self.update_operator() {
            Some(operator) => {
                self.bump()?;
                self.must_be_simple_target(&argument)?;
                let span = self.span(start);
                Ok(Expr::Update(ExprUpdate { span, operator, prefix: false, argument: Box::new(argument) }))
            }
            None => Ok(argument),
        }
    }

    // ---- 13.3
    fn at_template(&self) -> bool {
        match self.reader.current() {
            Ok(t) => is_template(t),
            Err(_) => false,
        }
    }

    pub fn parse_left_hand_side_expr(&mut self) -> R<Expr> {
        let start = self.start();
        let mut e = self.call_expr_base()?;
        if !self.is(&punct!("?.")) {
            return Ok(e);
        }
        // `new x?.y`
        if let Expr::New(ExprNew { arguments_span: None, .. }) = e {
            return self.reject();
        }
        loop {
            let optional = self.is(&punct!("?."));
            if optional {
                if matches!(self.next(), Some(t) if is_template(t)) {
                    return Err(RefError::Other);
                }
                // `?.` is followed by arguments, brackets, or a name
                let next_call = self.next_is(&punct!("("));
                let next_brackets = self.next_is(&punct!("["));
                self.bump()?;
                e = if next_call {
                    self.optional_call(start, e, optional)?
                } else if next_brackets {
                    self.optional_index(start, e, optional)?
                } else {
                    self.optional_name(start, e, optional)?
                };
            } else if self.is(&punct!("(")) {
                e = self.optional_call(start, e, optional)?;
            } else if self.is(&punct!("[")) {
                e = self.optional_index(start, e, optional)?;
            } else if self.is(&punct!(".")) {
                self.bump()?;
                e = self.optional_name(start, e, optional)?;
            } else if self.at_template() {
                return Err(RefError::Other);
            } else {
                return Ok(e);
            }
        }
    }

    fn optional_call(&mut self, start: usize, callee: Expr, optional: bool) -> R<Expr> {
        let (arguments_span, arguments) = self.parse_arguments()?;
        let span = self.span(start);
        Ok(Expr::OptionalCall(ExprOptionalCall { span, callee: Box::new(callee), arguments_span, arguments, optional }))
    }

    fn optional_index(&mut self, start: usize, object: Expr, optional: bool) -> R<Expr> {
        let property = self.index()?;
        let span = self.span(start);
        Ok(Expr::OptionalMember(ExprOptionalMember { span, object: Box::new(object), property, optional }))
    }

    fn optional_name(&mut self, start: usize, object: Expr, optional: bool) -> R<Expr> {
        let property = MemberProperty::Ident(self.identifier_name()?);
        let span = self.span(start);
        Ok(Expr::OptionalMember(ExprOptionalMember { span, object: Box::new(object), property, optional }))
    }

    /// `[ Expression[+In] ]`
    fn index(&mut self) -> R<MemberProperty> {
        self.expect(&punct!("["))?;
        let e = self.plus_in().parse_expr()?;
        self.expect(&punct!("]"))?;
        Ok(MemberProperty::Expr(Box::new(e)))
    }

    /// `.name` or `[index]`, at the first token
    fn member(&mut self, start: usize, object: MemberObject) -> R<Expr> {
        let property = if self.eat(&punct!("."))? {
            MemberProperty::Ident(self.identifier_name()?)
        } else {
            self.index()?
        };
        Ok(Expr::Member(ExprMember { span: self.span(start), object, property }))
    }

    fn tagged_template(&mut self, start: usize, callee: Expr) -> R<Expr> {
        let template = self.parse_template_literal()?;
        Ok(Expr::TaggedTemplate(ExprTaggedTemplate { span: self.span(start), callee: Box::new(callee), template }))
    }

    fn call(&mut self, start: usize, callee: Expr) -> R<Expr> {
        let (arguments_span, arguments) = self.parse_arguments()?;
        let span = self.span(start);
        Ok(Expr::Call(ExprCall { span, callee: Callee::Expr(Box::new(callee)), arguments_span, arguments }))
    }

    /// `NewExpression`, `CallExpression`
    fn call_expr_base(&mut self) -> R<Expr> {
        let start = self.start();
        let called = self.next_is(&punct!("("));
        if called && self.is(&keyword!("super")) {
            self.bump()?;
            let (arguments_span, arguments) = self.parse_arguments()?;
            if !self.context.super_call_allowed {
                return Err(RefError::Other);
            }
            return Ok(Expr::Call(ExprCall { span: self.span(start), callee: Callee::Super, arguments_span, arguments }));
        }
        if called && self.is(&keyword!("import")) {
            self.bump()?;
            let open = self.bump()?.span.start;
            let e = self.plus_in().parse_assignment_expr()?;
            self.expect(&punct!(")"))?;
            let arguments_span = self.span(open);
            let arguments = vec![Argument::Expr(e)];
            return Ok(Expr::Call(ExprCall { span: self.span(start), callee: Callee::Import, arguments_span, arguments }));
        }
        let mut e = if called && self.is(&keyword!("async")) {
            self.async_call_or_arrow()?
        } else {
            self.parse_new_or_member_expr()?
        };
        loop {
            if self.is(&punct!("(")) {
                e = self.call(start, e)?;
            } else if self.is(&punct!(".")) || self.is(&punct!("[")) {
                e = self.member(start, MemberObject::Expr(Box::new(e)))?;
            } else if self.at_template() {
                e = self.tagged_template(start, e)?;
            } else {
                return Ok(e);
            }
        }
    }

    /// `CoverCallExpressionAndAsyncArrowHead`
    fn async_call_or_arrow(&mut self) -> R<Expr> {
        let first = self.current()?.clone();
        match self.async_call(first.span.start) {
            Ok(e) => {
                if !self.is(&punct!("=>")) {
                    return Ok(e);
                }
            }
            Err(RefError::Init) => {}
            Err(e) => return Err(e),
        }
        self.rewind(&first)?;
        Err(RefError::Arrow(self.parse_async_arrow_function_expr()?))
    }

    fn async_call(&mut self, start: usize) -> R<Expr> {
        let name = self.identifier()?;
        self.call(start, Expr::IdentRef(name))
    }

    /// `MemberExpression` and `new` with or without arguments
    pub fn parse_new_or_member_expr(&mut self) -> R<Expr> {
        let start = self.start();
        let dotted = self.next_is(&punct!("."));
        let mut e = match &self.current()?.value {
            keyword!("super") => self.super_property(start)?,
            keyword!("new") if dotted => self.meta_property("new", "target")?,
            keyword!("new") => self.new_expr()?,
            keyword!("import") if dotted => self.meta_property("import", "meta")?,
            _ => self.parse_primary_expr()?,
        };
        loop {
            if self.is(&punct!(".")) || self.is(&punct!("[")) {
                e = self.member(start, MemberObject::Expr(Box::new(e)))?;
            } else if self.at_template() {
                e = self.tagged_template(start, e)?;
            } else {
                return Ok(e);
            }
        }
    }

    fn super_property(&mut self, start: usize) -> R<Expr> {
        let keyword = self.bump()?;
        if !(self.is(&punct!(".")) || self.is(&punct!("["))) {
            return Err(RefError::Other);
        }
        if !self.context.in_method {
            return Err(RefError::Other);
        }
        self.member(start, MemberObject::Super(Super { span: keyword.span }))
    }

    fn new_expr(&mut self) -> R<Expr> {
        let start = self.bump()?.span.start;
        let callee = Box::new(self.parse_new_or_member_expr()?);
        let (arguments_span, arguments) = if self.is(&punct!("(")) {
            let (s, a) = self.parse_arguments()?;
            (Some(s), a)
        } else {
            (None, Vec::new())
        };
        Ok(Expr::New(ExprNew { span: self.span(start), callee, arguments_span, arguments }))
    }

    fn meta_property(&mut self, meta: &str, name: &str) -> R<Expr> {
        let keyword = self.bump()?;
        let start = keyword.span.start;
        self.bump()?;
        let property = self.identifier()?;
        if property.name != *name {
            return Err(RefError::Other);
        }
        let meta = Ident::new(meta, keyword.span);
        Ok(Expr::MetaProperty(ExprMetaProperty { span: self.span(start), meta, property }))
    }

    pub fn parse_arguments(&mut self) -> R<(Span, Vec<Argument>)> {
        let start = self.start();
        self.expect(&punct!("("))?;
        let mut list = Vec::new();
        while !self.eat(&punct!(")"))? {
            let spread = self.eat(&punct!("..."))?;
            let e = self.plus_in().parse_assignment_expr()?;
            list.push(if spread { Argument::Spread(e) } else { Argument::Expr(e) });
            self.delimiter(&punct!(")"))?;
        }
        Ok((self.span(start), list))
    }

    // ---- 13.2
    pub fn parse_primary_expr(&mut self) -> R<Expr> {
        let literal = match &self.current()?.value {
            keyword!("this") => {
                let t = self.bump()?;
                return Ok(Expr::This(ExprThis { span: t.span }));
            }
            keyword!("null") => Literal::Null,
            keyword!("true") => Literal::Boolean(true),
            keyword!("false") => Literal::Boolean(false),
            TokenValue::Literal(_) => return self.token_literal(),
            punct!("[") => return self.parse_array_literal(),
            punct!("{") => return self.parse_object_literal(),
            keyword!("function") => return self.parse_function_expr(),
            keyword!("class") => {
                let c = self.context.strict();
                return self.at(c).parse_class_expr();
            }
            keyword!("async") if self.at_async_function() => return self.parse_async_function_expr(),
            TokenValue::TemplateHead(_) => {
                let start = self.start();
                let t = self.parse_template_literal()?;
                return Ok(Expr::Literal(ExprLiteral { span: self.span(start), literal: Literal::Template(t) }));
            }
            punct!("(") => return self.parenthesized_or_arrow(),
            v => {
                if Self::token_is_identifier(v, RefContext::default()) {
                    return Ok(Expr::IdentRef(self.identifier()?));
                }
                // InputElementRegExp is the goal symbol where an expression starts
                return self.regexp();
            }
        };
        let t = self.bump()?;
        Ok(Expr::Literal(ExprLiteral { span: t.span, literal }))
    }

    fn token_literal(&mut self) -> R<Expr> {
        let t = self.bump()?;
        match t.value {
            TokenValue::Literal(literal) => Ok(Expr::Literal(ExprLiteral { span: t.span, literal })),
            v => Err(unexpected(&v)),
        }
    }

    fn regexp(&mut self) -> R<Expr> {
        match self.reader.reread_with_state(LexerState::regex_allowed()) {
            Ok(()) => self.token_literal(),
            Err(_) => Err(RefError::Other),
        }
    }

    /// `CoverParenthesizedExpressionAndArrowParameterList`
    fn parenthesized_or_arrow(&mut self) -> R<Expr> {
        let first = self.current()?.clone();
        if !self.next_is(&punct!(")")) {
            match self.parenthesized() {
                Ok(e) => {
                    if !self.is(&punct!("=>")) {
                        return Ok(e);
                    }
                }
                Err(RefError::Dots) | Err(RefError::Init) => {}
                Err(e) => return Err(e),
            }
            self.rewind(&first)?;
        }
        Err(RefError::Arrow(self.parse_arrow_function_expr()?))
    }

    fn parenthesized(&mut self) -> R<Expr> {
        let start = self.bump()?.span.start;
        let e = self.plus_in().parse_expr()?;
        self.expect(&punct!(")"))?;
        Ok(Expr::Parenthesized(ExprParenthesized { span: self.span(start), expression: Box::new(e) }))
    }

    // ---- 13.2.4
    pub fn parse_array_literal(&mut self) -> R<Expr> {
        let start = self.start();
        self.expect(&punct!("["))?;
        let mut elements = Vec::new();
        while !self.eat(&punct!("]"))? {
            if self.eat(&punct!(","))? {
                elements.push(ArrayElement::Elision);
                continue;
            }
            let spread = self.eat(&punct!("..."))?;
            let e = self.plus_in().parse_assignment_expr()?;
            elements.push(if spread { ArrayElement::Spread(e) } else { ArrayElement::Expr(e) });
            self.delimiter(&punct!("]"))?;
        }
        Ok(Expr::Literal(ExprLiteral { span: self.span(start), literal: Literal::Array(LitArray { elements }) }))
    }

    // ---- 13.2.5
    pub fn parse_object_literal(&mut self) -> R<Expr> {
        let start = self.start();
        self.expect(&punct!("{"))?;
        let mut props = Vec::new();
        while !self.eat(&punct!("}"))? {
            let prop = self.plus_in().property_definition()?;
            // CoverInitializedName
            if matches!(prop, PropertyDefinition::IdentRef(_)) && self.is(&punct!("=")) {
                return Err(RefError::Init);
            }
            props.push(prop);
            self.delimiter(&punct!("}"))?;
        }
        Ok(Expr::Literal(ExprLiteral { span: self.span(start), literal: Literal::Object(LitObject { props }) }))
    }

    fn property_definition(&mut self) -> R<PropertyDefinition> {
        if self.is(&punct!("...")) {
            self.bump()?;
            return Ok(PropertyDefinition::Spread(self.parse_assignment_expr()?));
        }
        let start = self.start();
        let named = self.next_is(&punct!(":"));
        let c = RefContext { in_method: true, super_call_allowed: false, ..self.context };
        if named || self.is(&punct!("[")) {
            let name = self.parse_property_name()?;
            if named || self.is(&punct!(":")) {
                self.expect(&punct!(":"))?;
                let value = self.parse_assignment_expr()?;
                return Ok(PropertyDefinition::Named(NamedProperty { span: self.span(start), name, value }));
            }
            let c = RefContext { is_yield: false, is_await: false, ..c };
            return Ok(PropertyDefinition::Method(self.at(c).method(start, false, name, MethodKind::Method)?));
        }
        let shorthand = self.next_is(&punct!(",")) || self.next_is(&punct!("}")) || self.next_is(&punct!("="));
        let is_method = match &self.current()?.value {
            punct!("*") => true,
            keyword!("async") | keyword!("get") | keyword!("set") | keyword!("static") => !shorthand,
            _ => self.next_is(&punct!("(")),
        };
        if is_method {
            let c = RefContext { static_method_allowed: false, ..c };
            return Ok(PropertyDefinition::Method(self.at(c).parse_method_definition()?));
        }
        Ok(PropertyDefinition::IdentRef(self.identifier()?))
    }

    // ---- 13.2.8
    pub fn parse_template_literal(&mut self) -> R<LitTemplate> {
        let head = match self.bump()?.value {
            TokenValue::Literal(Literal::Template(t)) => return Ok(t),
            TokenValue::TemplateHead(s) => s,
            v => return Err(unexpected(&v)),
        };
        let mut parts = Vec::new();
        if !head.is_empty() {
            parts.push(TemplatePart::String(head));
        }
        loop {
            let e = self.plus_in().parse_expr()?;
            parts.push(TemplatePart::Expr(Box::new(e)));
            if self.reader.reread_with_state(LexerState::inside_template()).is_err() {
                return Err(RefError::Other);
            }
            let (text, last) = match self.bump()?.value {
                TokenValue::TemplateMiddle(s) => (s, false),
                TokenValue::TemplateTail(s) => (s, true),
                v => return Err(unexpected(&v)),
            };
            if !text.is_empty() {
                parts.push(TemplatePart::String(text));
            }
            if last {
                return Ok(LitTemplate { parts });
            }
        }
    }
}

fn is_template(t: &Token) -> bool {
    matches!(&t.value, TokenValue::TemplateHead(_) | TokenValue::Literal(Literal::Template(_)))
}

/// An object or array literal on the left of `=` is an assignment pattern.
fn is_pattern_literal(e: &Expr) -> bool {
    matches!(e, Expr::Literal(ExprLiteral { literal: Literal::Object(_) | Literal::Array(_), .. }))
}
