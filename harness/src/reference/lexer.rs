//! Reference lexer: the lexical grammar of ECMA-262 (chapter 12), one token at a time, for the level of the language that
//! fajt implements (no `&&=`, `||=`, `??=`, private names, BigInt and hashbangs) and with the notations for values that
//! its tests fix: the value of a string is its text without the backslashes, the value of a template part is its text.
use fajt_ast::{LitString, LitTemplate, Literal, TemplatePart};
use fajt_common::io::PeekReader;
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::{literal, punct};
use std::str::CharIndices;
use unicode_id::UnicodeID;

pub enum LexFail {
    /// The input has ended before the start of a token.
    End,
    /// Not a token.
    Bad,
}

pub type L<T> = Result<T, LexFail>;

pub struct RefLexer<'a> {
    pub data: &'a str,
    pub reader: PeekReader<char, CharIndices<'a>>,
    pub first_on_line: bool,
    pub html_comment_allowed: bool,
    pub regex_allowed: bool,
    pub inside_template: bool,
}

// 12.2, 12.3
fn white_space(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}

fn line_terminator(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

// 12.7
fn identifier_start(c: char) -> bool {
    c == '$' || c == '_' || c.is_id_start()
}

fn identifier_part(c: char) -> bool {
    c == '$' || c == '_' || c == '\u{200c}' || c == '\u{200d}' || c.is_id_continue()
}

fn digit(c: char) -> bool {
    matches!(c, '0'..='9')
}

impl<'a> RefLexer<'a> {
    fn cur(&self) -> Option<char> {
        match self.reader.current() {
            Ok(c) => Some(*c),
            Err(_) => None,
        }
    }

    fn next(&self) -> Option<char> {
        match self.reader.peek() {
            Ok(c) => Some(*c),
            Err(_) => None,
        }
    }

    fn bump(&mut self) -> L<char> {
        match self.reader.consume() {
            Ok(c) => Ok(c),
            Err(_) => Err(LexFail::Bad),
        }
    }

    fn at(&self, c: char) -> bool {
        self.cur() == Some(c)
    }

    fn then(&self, c: char) -> bool {
        self.next() == Some(c)
    }

    /// Takes the current character if it is `c`.
    fn eat(&mut self, c: char) -> L<bool> {
        if self.at(c) {
            self.bump()?;
            return Ok(true);
        }
        Ok(false)
    }

    // ---- 12.4 and B.1.1: comments; a comment with a line terminator counts as one
    fn rest_of_line(&mut self) -> L<()> {
        while let Some(c) = self.cur() {
            self.bump()?;
            if line_terminator(c) {
                break;
            }
        }
        self.first_on_line = true;
        Ok(())
    }

    fn block_comment(&mut self) -> L<()> {
        self.bump()?;
        self.bump()?;
        while !(self.at('*') && self.then('/')) {
            let c = self.bump()?;
            if line_terminator(c) {
                self.first_on_line = true;
            }
        }
        self.bump()?;
        self.bump()?;
        Ok(())
    }

    fn trivia(&mut self) -> L<()> {
        loop {
            let c = match self.cur() {
                Some(c) => c,
                None => return Ok(()),
            };
            if line_terminator(c) {
                self.bump()?;
                self.first_on_line = true;
            } else if white_space(c) {
                self.bump()?;
            } else if c == '/' && self.then('/') {
                self.rest_of_line()?;
            } else if c == '/' && self.then('*') {
                self.block_comment()?;
            } else if c == '<' && self.data[self.reader.position()..].starts_with("<!--") {
                if !self.html_comment_allowed {
                    return Err(LexFail::Bad);
                }
                self.rest_of_line()?;
            } else {
                return Ok(());
            }
        }
    }

    // ---- 12.6 to 12.9
    pub fn read(&mut self) -> L<Token> {
        if self.inside_template {
            let start = self.reader.position();
            if !self.eat('}')? {
                return Err(LexFail::Bad);
            }
            let (text, substitution) = self.template_characters()?;
            self.first_on_line = false;
            let value = if substitution { TokenValue::TemplateMiddle(text) } else { TokenValue::TemplateTail(text) };
            return Ok(Token::new(value, false, (start, self.reader.position())));
        }
        loop {
            self.trivia()?;
            let start = self.reader.position();
            let c = match self.cur() {
                Some(c) => c,
                None => return Err(LexFail::End),
            };
            let value = match c {
                '/' if self.regex_allowed => self.regular_expression()?,
                '"' | '\'' => self.string()?,
                '`' => {
                    self.bump()?;
                    let (text, substitution) = self.template_characters()?;
                    if substitution {
                        TokenValue::TemplateHead(text)
                    } else {
                        TokenValue::Literal(Literal::Template(LitTemplate { parts: vec![TemplatePart::String(text)] }))
                    }
                }
                '0'..='9' => self.number()?,
                '.' if self.next().map_or(false, digit) => self.number()?,
                '\\' => self.word()?,
                c if identifier_start(c) => self.word()?,
                _ => self.punctuator()?,
            };
            // B.1.1 SingleLineHTMLCloseComment
            if self.first_on_line && value == punct!("--") && self.at('>') {
                if !self.html_comment_allowed {
                    return Err(LexFail::Bad);
                }
                self.rest_of_line()?;
                continue;
            }
            let token = Token::new(value, self.first_on_line, (start, self.reader.position()));
            self.first_on_line = false;
            return Ok(token);
        }
    }

    /// 12.8: the longest punctuator
    fn punctuator(&mut self) -> L<TokenValue> {
        let c = self.bump()?;
        Ok(match c {
            '{' => punct!("{"),
            '}' => punct!("}"),
            '(' => punct!("("),
            ')' => punct!(")"),
            '[' => punct!("["),
            ']' => punct!("]"),
            ';' => punct!(";"),
            ',' => punct!(","),
            ':' => punct!(":"),
            '~' => punct!("~"),
            '.' => {
                if !self.at('.') {
                    punct!(".")
                } else {
                    self.bump()?;
                    // no derivation has two adjacent dots, the tree reports them here
                    if !self.eat('.')? {
                        return Err(LexFail::Bad);
                    }
                    punct!("...")
                }
            }
            '?' => {
                if self.at('.') && !self.next().map_or(false, digit) {
                    self.bump()?;
                    punct!("?.")
                } else if self.eat('?')? {
                    punct!("??")
                } else {
                    punct!("?")
                }
            }
            '<' => {
                if self.eat('<')? {
                    if self.eat('=')? { punct!("<<=") } else { punct!("<<") }
                } else if self.eat('=')? {
                    punct!("<=")
                } else {
                    punct!("<")
                }
            }
            '>' => {
                if self.eat('>')? {
                    if self.eat('>')? {
                        if self.eat('=')? { punct!(">>>=") } else { punct!(">>>") }
                    } else if self.eat('=')? {
                        punct!(">>=")
                    } else {
                        punct!(">>")
                    }
                } else if self.eat('=')? {
                    punct!(">=")
                } else {
                    punct!(">")
                }
            }
            '=' => {
                if self.eat('=')? {
                    if self.eat('=')? { punct!("===") } else { punct!("==") }
                } else if self.eat('>')? {
                    punct!("=>")
                } else {
                    punct!("=")
                }
            }
            '!' => {
                if self.eat('=')? {
                    if self.eat('=')? { punct!("!==") } else { punct!("!=") }
                } else {
                    punct!("!")
                }
            }
            '+' => {
                if self.eat('+')? {
                    punct!("++")
                } else if self.eat('=')? {
                    punct!("+=")
                } else {
                    punct!("+")
                }
            }
            '-' => {
                if self.eat('-')? {
                    punct!("--")
                } else if self.eat('=')? {
                    punct!("-=")
                } else {
                    punct!("-")
                }
            }
            '*' => {
                if self.eat('*')? {
                    if self.eat('=')? { punct!("**=") } else { punct!("**") }
                } else if self.eat('=')? {
                    punct!("*=")
                } else {
                    punct!("*")
                }
            }
            '/' => {
                if self.eat('=')? { punct!("/=") } else { punct!("/") }
            }
            '%' => {
                if self.eat('=')? { punct!("%=") } else { punct!("%") }
            }
            '^' => {
                if self.eat('=')? { punct!("^=") } else { punct!("^") }
            }
            '&' => {
                if self.eat('&')? {
                    punct!("&&")
                } else if self.eat('=')? {
                    punct!("&=")
                } else {
                    punct!("&")
                }
            }
            '|' => {
                if self.eat('|')? {
                    punct!("||")
                } else if self.eat('=')? {
                    punct!("|=")
                } else {
                    punct!("|")
                }
            }
            _ => return Err(LexFail::Bad),
        })
    }

    // ---- 12.7 names and keywords
    fn word(&mut self) -> L<TokenValue> {
        let mut word = String::new();
        loop {
            match self.cur() {
                Some('\\') => {
                    let c = self.unicode_escape()?;
                    let fits = if word.is_empty() { identifier_start(c) } else { identifier_part(c) };
                    if !fits {
                        return Err(LexFail::Bad);
                    }
                    word.push(c);
                }
                Some(c) if identifier_part(c) => word.push(self.bump()?),
                _ => break,
            }
        }
        Ok(match word.parse() {
            Ok(k) => TokenValue::Keyword(k),
            Err(_) => TokenValue::Identifier(word),
        })
    }

    fn unicode_escape(&mut self) -> L<char> {
        self.bump()?;
        if self.bump()? != 'u' {
            return Err(LexFail::Bad);
        }
        let mut digits = String::new();
        if self.eat('{')? {
            loop {
                digits.push(self.hex_digit()?);
                if self.eat('}')? {
                    break;
                }
            }
        } else {
            digits.push(self.hex_digit()?);
            digits.push(self.hex_digit()?);
            digits.push(self.hex_digit()?);
            digits.push(self.hex_digit()?);
        }
        let code = match u32::from_str_radix(&digits, 16) {
            Ok(n) => n,
            Err(_) => return Err(LexFail::Bad),
        };
        match char::try_from(code) {
            Ok(c) => Ok(c),
            Err(_) => Err(LexFail::Bad),
        }
    }

    fn hex_digit(&mut self) -> L<char> {
        let c = self.bump()?;
        if matches!(c, '0'..='9' | 'a'..='f' | 'A'..='F') {
            Ok(c)
        } else {
            Err(LexFail::Bad)
        }
    }

    // ---- 12.9.3
    fn number(&mut self) -> L<TokenValue> {
        let mut text = String::new();
        let radix = match self.next() {
            Some('x' | 'X') => 16,
            Some('o' | 'O') => 8,
            Some('b' | 'B') => 2,
            _ => 10,
        };
        if self.at('0') && radix != 10 {
            text.push(self.bump()?);
            text.push(self.bump()?);
            self.digits(&mut text, radix, true)?;
        } else {
            if !self.at('.') {
                // legacy octal notations, and separators after a leading zero
                if self.at('0') && self.next().map_or(false, |c| digit(c) || c == '_') {
                    return Err(LexFail::Bad);
                }
                self.digits(&mut text, 10, true)?;
            }
            if self.at('.') {
                text.push(self.bump()?);
                self.digits(&mut text, 10, false)?;
            }
            if self.at('e') || self.at('E') {
                text.push(self.bump()?);
                if self.at('+') || self.at('-') {
                    text.push(self.bump()?);
                }
                self.digits(&mut text, 10, true)?;
            }
        }
        match self.cur() {
            Some(c) if identifier_start(c) || digit(c) => return Err(LexFail::Bad),
            _ => {}
        }
        Ok(literal!(number, text))
    }

    /// Digits with single separators between them.
    fn digits(&mut self, text: &mut String, radix: u32, needed: bool) -> L<()> {
        let mut last = None;
        loop {
            let c = match self.cur() {
                Some(c) => c,
                None => break,
            };
            let is_digit = match radix {
                2 => c == '0' || c == '1',
                8 => matches!(c, '0'..='7'),
                16 => matches!(c, '0'..='9' | 'a'..='f' | 'A'..='F'),
                _ => digit(c),
            };
            if !is_digit && c != '_' {
                break;
            }
            if c == '_' && last != Some(false) {
                return Err(LexFail::Bad);
            }
            last = Some(c == '_');
            text.push(self.bump()?);
        }
        if last == Some(true) || last.is_none() && needed {
            return Err(LexFail::Bad);
        }
        Ok(())
    }

    // ---- 12.9.4
    fn string(&mut self) -> L<TokenValue> {
        let delimiter = self.bump()?;
        let mut value = String::new();
        loop {
            let c = self.bump()?;
            if c == delimiter {
                break;
            }
            if c == '\n' || c == '\r' {
                return Err(LexFail::Bad);
            }
            if c != '\\' {
                value.push(c);
                continue;
            }
            let c = self.bump()?;
            value.push(c);
            if c == '\r' && self.at('\n') {
                value.push(self.bump()?);
            }
        }
        Ok(TokenValue::Literal(Literal::String(LitString { value, delimiter })))
    }

    // ---- 12.9.6: the text up to the end of the part; true if a substitution follows
    fn template_characters(&mut self) -> L<(String, bool)> {
        let mut text = String::new();
        loop {
            let c = self.bump()?;
            match c {
                '`' => return Ok((text, false)),
                '$' if self.at('{') => {
                    self.bump()?;
                    return Ok((text, true));
                }
                '\\' => {
                    text.push(c);
                    text.push(self.bump()?);
                }
                _ => text.push(c),
            }
        }
    }

    // ---- 12.9.5
    fn regular_expression(&mut self) -> L<TokenValue> {
        let mut text = String::new();
        text.push(self.bump()?);
        let mut class = false;
        loop {
            let c = self.bump()?;
            if line_terminator(c) {
                return Err(LexFail::Bad);
            }
            text.push(c);
            match c {
                '\\' => {
                    let c = self.bump()?;
                    if line_terminator(c) {
                        return Err(LexFail::Bad);
                    }
                    text.push(c);
                }
                '[' => class = true,
                ']' => class = false,
                '/' if !class => break,
                _ => {}
            }
        }
        while let Some(c) = self.cur() {
            if !identifier_part(c) {
                break;
            }
            text.push(self.bump()?);
        }
        Ok(TokenValue::Literal(Literal::Regexp(text)))
    }
}
