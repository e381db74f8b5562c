//! 14.3.3 binding patterns and 13.15.5 assignment patterns.
use super::parser::*;
use super::semantics::*;
use fajt_ast::*;
use fajt_lexer::token::TokenValue;
use fajt_lexer::punct;

impl<'r, 's> RefParser<'r, 's> {
    /// `Initializer[+In]`
    fn initializer(&mut self) -> R<Option<Box<Expr>>> {
        if !self.eat(&punct!("="))? {
            return Ok(None);
        }
        Ok(Some(Box::new(self.plus_in().parse_assignment_expr()?)))
    }

    /// A property with a `:`, as opposed to a shorthand.
    fn at_named_property(&self) -> bool {
        self.is(&punct!("[")) || self.next_is(&punct!(":"))
    }

    /// `BindingIdentifier` or `BindingPattern`
    pub fn parse_binding_pattern(&mut self) -> R<BindingPattern> {
        Ok(match &self.current()?.value {
            punct!("{") => BindingPattern::Object(self.object_binding()?),
            punct!("[") => BindingPattern::Array(self.array_binding()?),
            _ => BindingPattern::Ident(self.identifier()?),
        })
    }

    fn object_binding(&mut self) -> R<ObjectBinding> {
        let start = self.start();
        self.bump()?;
        let mut props = Vec::new();
        let mut rest = None;
        while !self.eat(&punct!("}"))? {
            if self.eat(&punct!("..."))? {
                rest = Some(Box::new(self.parse_binding_pattern()?));
                self.expect_last(&punct!("}"))?;
                break;
            }
            let prop_start = self.start();
            let prop = if self.at_named_property() {
                let property = self.parse_property_name()?;
                self.expect(&punct!(":"))?;
                let binding = self.parse_binding_element()?;
                ObjectBindingProp::Named(NamedBinding { span: self.span(prop_start), property, binding })
            } else {
                let ident = self.identifier()?;
                let initializer = self.initializer()?;
                ObjectBindingProp::Single(SingleNameBinding { span: self.span(prop_start), ident, initializer })
            };
            props.push(prop);
            self.delimiter(&punct!("}"))?;
        }
        Ok(ObjectBinding { span: self.span(start), props, rest })
    }

    fn array_binding(&mut self) -> R<ArrayBinding> {
        let start = self.start();
        self.bump()?;
        let mut elements = Vec::new();
        let mut rest = None;
        while !self.eat(&punct!("]"))? {
            if self.eat(&punct!("..."))? {
                rest = Some(Box::new(self.parse_binding_pattern()?));
                self.expect_last(&punct!("]"))?;
                break;
            }
            if self.eat(&punct!(","))? {
                elements.push(None);
                continue;
            }
            if !(self.is(&punct!("{")) || self.is(&punct!("[")) || self.at_identifier()) {
                return self.reject();
            }
            elements.push(Some(self.parse_binding_element()?));
            self.delimiter(&punct!("]"))?;
        }
        Ok(ArrayBinding { span: self.span(start), elements, rest })
    }

    /// A rest element is last: not even a comma follows. The error cannot be the start of an arrow function.
    fn expect_last(&mut self, close: &TokenValue) -> R<()> {
        if self.bump()?.value == *close {
            Ok(())
        } else {
            Err(RefError::Other)
        }
    }

    pub fn parse_binding_element(&mut self) -> R<BindingElement> {
        let start = self.start();
        let pattern = self.parse_binding_pattern()?;
        let initializer = self.initializer()?;
        Ok(BindingElement { span: self.span(start), pattern, initializer })
    }

    /// `AssignmentPattern`, at its `[` or `{`
    pub fn parse_assignment_pattern(&mut self) -> R<AssignmentPattern> {
        if self.is(&punct!("[")) {
            self.array_assignment()
        } else {
            self.object_assignment()
        }
    }

    fn array_assignment(&mut self) -> R<AssignmentPattern> {
        let start = self.start();
        self.bump()?;
        let mut elements = Vec::new();
        let mut rest = None;
        while !self.eat(&punct!("]"))? {
            if self.eat(&punct!("..."))? {
                rest = Some(Box::new(self.assignment_target()?));
                if !self.eat(&punct!("]"))? {
                    return Err(RefError::Other);
                }
                break;
            }
            // This tree has an empty slot for every comma, also for those that separate two elements.
            if self.eat(&punct!(","))? {
                elements.push(None);
                continue;
            }
            let element_start = self.start();
            let target = Box::new(self.assignment_target()?);
            let initializer = self.initializer()?;
            elements.push(Some(AssignmentElement { span: self.span(element_start), target, initializer }));
            if !(self.is(&punct!(",")) || self.is(&punct!("]"))) {
                return self.reject();
            }
        }
        Ok(AssignmentPattern::Array(ArrayAssignmentPattern { span: self.span(start), elements, rest }))
    }

    fn object_assignment(&mut self) -> R<AssignmentPattern> {
        let start = self.start();
        self.bump()?;
        let mut props = Vec::new();
        let mut rest = None;
        while !self.eat(&punct!("}"))? {
            if self.eat(&punct!("..."))? {
                rest = Some(Box::new(self.assignment_target()?));
                if !self.eat(&punct!("}"))? {
                    return Err(RefError::Other);
                }
                break;
            }
            let prop_start = self.start();
            let prop = if self.at_named_property() {
                let name = self.parse_property_name()?;
                self.expect(&punct!(":"))?;
                let value = Box::new(self.assignment_target()?);
                let initializer = self.initializer()?;
                AssignmentProp::Named(NamedAssignmentProp { span: self.span(prop_start), name, value, initializer })
            } else {
                let ident = self.identifier()?;
                let initializer = self.initializer()?;
                AssignmentProp::Single(SingleNameAssignmentProp { span: self.span(prop_start), ident, initializer })
            };
            props.push(prop);
            self.delimiter(&punct!("}"))?;
        }
        Ok(AssignmentPattern::Object(ObjectAssignmentPattern { span: self.span(start), props, rest }))
    }

    /// `DestructuringAssignmentTarget`
    fn assignment_target(&mut self) -> R<PatternOrExpr> {
        if self.is(&punct!("{")) || self.is(&punct!("[")) {
            return Ok(PatternOrExpr::AssignmentPattern(self.parse_assignment_pattern()?));
        }
        let e = self.parse_left_hand_side_expr()?;
        if !is_assignment_target_type_simple(&e, &self.context)? {
            return Err(RefError::Other);
        }
        Ok(PatternOrExpr::Expr(e))
    }
}
