//! The Modelica terminals (Modelica Specification 3.7, chapters 2 and A.1), written down independently of the lexer.
use mofmt::verif::ModelicaToken as K;

pub const FIXED: &[(K, &str)] = &[
    (K::Comma, ","),
    (K::Dot, "."),
    (K::Semicolon, ";"),
    (K::Colon, ":"),
    (K::LParen, "("),
    (K::RParen, ")"),
    (K::LCurly, "{"),
    (K::RCurly, "}"),
    (K::LBracket, "["),
    (K::RBracket, "]"),
    (K::Equal, "="),
    (K::Assign, ":="),
    (K::Plus, "+"),
    (K::Minus, "-"),
    (K::Star, "*"),
    (K::Slash, "/"),
    (K::Flex, "^"),
    (K::DotPlus, ".+"),
    (K::DotMinus, ".-"),
    (K::DotStar, ".*"),
    (K::DotSlash, "./"),
    (K::DotFlex, ".^"),
    (K::Gre, ">"),
    (K::Geq, ">="),
    (K::Les, "<"),
    (K::Leq, "<="),
    (K::Neq, "<>"),
    (K::Eq, "=="),
];
pub const WORDS: &[(K, &str)] = &[
    (K::Not, "not"),
    (K::And, "and"),
    (K::Or, "or"),
    (K::In, "in"),
    (K::For, "for"),
    (K::If, "if"),
    (K::Else, "else"),
    (K::ElseIf, "elseif"),
    (K::Then, "then"),
    (K::When, "when"),
    (K::ElseWhen, "elsewhen"),
    (K::While, "while"),
    (K::Loop, "loop"),
    (K::Break, "break"),
    (K::Return, "return"),
    (K::Partial, "partial"),
    (K::Class, "class"),
    (K::Operator, "operator"),
    (K::Expandable, "expandable"),
    (K::Model, "model"),
    (K::Function, "function"),
    (K::Record, "record"),
    (K::Type, "type"),
    (K::Block, "block"),
    (K::Connector, "connector"),
    (K::Package, "package"),
    (K::Pure, "pure"),
    (K::Impure, "impure"),
    (K::Initial, "initial"),
    (K::Equation, "equation"),
    (K::Algorithm, "algorithm"),
    (K::Extends, "extends"),
    (K::Import, "import"),
    (K::Public, "public"),
    (K::Protected, "protected"),
    (K::Within, "within"),
    (K::Final, "final"),
    (K::Encapsulated, "encapsulated"),
    (K::Enumeration, "enumeration"),
    (K::Input, "input"),
    (K::Output, "output"),
    (K::Redeclare, "redeclare"),
    (K::Inner, "inner"),
    (K::Outer, "outer"),
    (K::Replaceable, "replaceable"),
    (K::Constrainedby, "constrainedby"),
    (K::Flow, "flow"),
    (K::Stream, "stream"),
    (K::Discrete, "discrete"),
    (K::Parameter, "parameter"),
    (K::Constant, "constant"),
    (K::Each, "each"),
    (K::Annotation, "annotation"),
    (K::External, "external"),
    (K::End, "end"),
    (K::Der, "der"),
    (K::Connect, "connect"),
    (K::Bool, "true"),
    (K::Bool, "false"),
];

const fn texts() -> [&'static str; 256] {
    let mut a = [""; 256];
    let mut i = 0;
    while i < FIXED.len() {
        a[FIXED[i].0 as usize] = FIXED[i].1;
        i += 1;
    }
    i = 0;
    while i < WORDS.len() {
        a[WORDS[i].0 as usize] = WORDS[i].1;
        i += 1;
    }
    a
}
static TEXTS: [&str; 256] = texts();

/// Spelling of a terminal that has only one (empty otherwise)
pub fn text(k: K) -> &'static str {
    TEXTS[k as usize]
}
