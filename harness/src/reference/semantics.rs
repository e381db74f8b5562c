//! Static semantics: assignment target type and early errors.
use super::parser::*;
use fajt_ast::*;

/// 8.6.4 `AssignmentTargetType`; in strict mode code `eval` and `arguments` are errors.
pub fn is_assignment_target_type_simple(e: &Expr, c: &RefContext) -> R<bool> {
    match e {
        Expr::Member(_) => Ok(true),
        Expr::IdentRef(i) => {
            if !c.is_strict {
                return Ok(true);
            }
            if i.name == "eval" || i.name == "arguments" {
                return Err(RefError::Other);
            }
            Ok(true)
        }
        Expr::Parenthesized(p) => is_assignment_target_type_simple(&p.expression, c),
        _ => Ok(false),
    }
}

/// 13.5.1.1: `delete` of an identifier in strict mode code, however many parentheses there are.
pub fn early_errors_unary_delete(e: &Expr, c: &RefContext) -> R<()> {
    if c.is_strict {
        match e {
            Expr::IdentRef(_) => return Err(RefError::Other),
            Expr::Parenthesized(p) => return early_errors_unary_delete(&p.expression, c),
            _ => {}
        }
    }
    Ok(())
}

/// 11.2.1: a Use Strict Directive
pub fn contains_strict(directives: &[LitString]) -> bool {
    for d in directives {
        if d.value == "use strict" {
            return true;
        }
    }
    false
}

/// 15.1.3 `IsSimpleParameterList`
pub fn is_simple(p: &FormalParameters) -> bool {
    for b in &p.bindings {
        if b.initializer.is_some() {
            return false;
        }
        if !matches!(b.pattern, BindingPattern::Ident(_)) {
            return false;
        }
    }
    p.rest.is_none()
}

/// 15.4.1: "use strict" only with a simple parameter list
fn use_strict_conflict(p: &FormalParameters, directives: &[LitString]) -> bool {
    contains_strict(directives) && !is_simple(p)
}

pub fn early_errors_getter(p: &FormalParameters) -> R<()> {
    if p.rest.is_some() || !p.bindings.is_empty() {
        return Err(RefError::Other);
    }
    Ok(())
}

pub fn early_errors_setter(p: &FormalParameters, directives: &[LitString]) -> R<()> {
    if use_strict_conflict(p, directives) || p.rest.is_some() || p.bindings.len() != 1 {
        return Err(RefError::Other);
    }
    Ok(())
}

pub fn early_errors_method(p: &FormalParameters, directives: &[LitString]) -> R<()> {
    let mut names = bound_names(p);
    names.sort_unstable();
    if use_strict_conflict(p, directives) || get_first_duplicate(&names).is_some() {
        return Err(RefError::Other);
    }
    Ok(())
}

/// 15.1.2 `BoundNames`: stands for the function of the parser (the names of identifiers and of an identifier as rest)
pub fn bound_names(p: &FormalParameters) -> Vec<&str> {
    let mut names = Vec::new();
    for b in &p.bindings {
        if let BindingPattern::Ident(i) = &b.pattern {
            names.push(i.name.as_str());
        }
    }
    if let Some(r) = &p.rest {
        if let BindingPattern::Ident(i) = &**r {
            names.push(i.name.as_str());
        }
    }
    names
}

/// stands for the function of the parser; the names are sorted
pub fn get_first_duplicate<'a>(list: &[&'a str]) -> Option<&'a str> {
    for (i, a) in list.iter().enumerate() {
        for b in &list[..i] {
            if a == b {
                return Some(a);
            }
        }
    }
    None
}

impl<'r, 's> RefParser<'r, 's> {
    pub fn must_be_simple_target(&self, e: &Expr) -> R<()> {
        if is_assignment_target_type_simple(e, &self.context)? {
            Ok(())
        } else {
            Err(RefError::Other)
        }
    }
}
