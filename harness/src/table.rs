//! Written by tools/gen_grammar.py: the reference grammar as a recursive transition network.
use mofmt::verif::ModelicaToken as K;

const fn mask(k: &[K]) -> [u64; 2] {
    let mut r = [0; 2];
    let mut i = 0;
    while i < k.len() {
        r[k[i] as usize / 64] |= 1 << (k[i] as usize % 64);
        i += 1;
    }
    r
}

pub const ACCEPT: u8 = 0;
pub const SET: u8 = 1;
pub const CALL: u8 = 2;
pub const ALT: u8 = 3;

/// Sets of terminals
pub static SETS: &[[u64; 2]] = &[
    mask(&[K::Semicolon]),
    mask(&[K::Final]),
    mask(&[K::Within]),
    mask(&[K::Encapsulated]),
    mask(&[K::Record]),
    mask(&[K::Operator]),
    mask(&[K::Connector]),
    mask(&[K::Expandable]),
    mask(&[K::Function]),
    mask(&[K::Impure, K::Pure]),
    mask(&[K::Block, K::Class, K::Connector, K::Model, K::Operator, K::Package, K::Record, K::Type]),
    mask(&[K::Partial]),
    mask(&[K::Identifier]),
    mask(&[K::End]),
    mask(&[K::Extends]),
    mask(&[K::Equal]),
    mask(&[K::RParen]),
    mask(&[K::Colon]),
    mask(&[K::LParen]),
    mask(&[K::Enumeration]),
    mask(&[K::Comma]),
    mask(&[K::Der]),
    mask(&[K::Input, K::Output]),
    mask(&[K::External]),
    mask(&[K::Public]),
    mask(&[K::Protected]),
    mask(&[K::String]),
    mask(&[K::Replaceable]),
    mask(&[K::Outer]),
    mask(&[K::Inner]),
    mask(&[K::Redeclare]),
    mask(&[K::RCurly]),
    mask(&[K::LCurly]),
    mask(&[K::Dot]),
    mask(&[K::DotStar]),
    mask(&[K::Import]),
    mask(&[K::Constrainedby]),
    mask(&[K::Break]),
    mask(&[K::Constant, K::Discrete, K::Parameter]),
    mask(&[K::Flow, K::Stream]),
    mask(&[K::If]),
    mask(&[K::Assign]),
    mask(&[K::Each]),
    mask(&[K::Equation]),
    mask(&[K::Initial]),
    mask(&[K::Algorithm]),
    mask(&[K::Break, K::Return]),
    mask(&[K::Else]),
    mask(&[K::Then]),
    mask(&[K::ElseIf]),
    mask(&[K::For]),
    mask(&[K::Loop]),
    mask(&[K::In]),
    mask(&[K::While]),
    mask(&[K::When]),
    mask(&[K::ElseWhen]),
    mask(&[K::Connect]),
    mask(&[K::Or]),
    mask(&[K::And]),
    mask(&[K::Not]),
    mask(&[K::Eq, K::Geq, K::Gre, K::Leq, K::Les, K::Neq]),
    mask(&[K::DotMinus, K::DotPlus, K::Minus, K::Plus]),
    mask(&[K::DotSlash, K::DotStar, K::Slash, K::Star]),
    mask(&[K::DotFlex, K::Flex]),
    mask(&[K::Der, K::Initial, K::Pure]),
    mask(&[K::RBracket]),
    mask(&[K::LBracket]),
    mask(&[K::Bool, K::End, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::String, K::UInt, K::UReal]),
    mask(&[K::Plus]),
    mask(&[K::Annotation]),
    mask(&[K::Block, K::Class, K::Connector, K::Encapsulated, K::Expandable, K::Final, K::Function, K::Impure, K::Model, K::Operator, K::Package, K::Partial, K::Pure, K::Record, K::Type, K::Within]),
    mask(&[K::Block, K::Class, K::Connector, K::Encapsulated, K::Expandable, K::Function, K::Impure, K::Model, K::Operator, K::Package, K::Partial, K::Pure, K::Record, K::Type]),
    mask(&[K::Block, K::Class, K::Connector, K::Expandable, K::Function, K::Impure, K::Model, K::Operator, K::Package, K::Partial, K::Pure, K::Record, K::Type]),
    mask(&[K::Extends, K::Identifier]),
    mask(&[K::Algorithm, K::Annotation, K::Block, K::Class, K::Connector, K::Constant, K::Discrete, K::Dot, K::Encapsulated, K::Equation, K::Expandable, K::Extends, K::External, K::Final, K::Flow, K::Function, K::Identifier, K::Import, K::Impure, K::Initial, K::Inner, K::Input, K::Model, K::Operator, K::Outer, K::Output, K::Package, K::Parameter, K::Partial, K::Protected, K::Public, K::Pure, K::Record, K::Redeclare, K::Replaceable, K::Stream, K::Type]),
    mask(&[K::Dot, K::Identifier]),
    mask(&[K::Block, K::Class, K::Connector, K::Constant, K::Discrete, K::Dot, K::Encapsulated, K::Expandable, K::Extends, K::Final, K::Flow, K::Function, K::Identifier, K::Import, K::Impure, K::Inner, K::Input, K::Model, K::Operator, K::Outer, K::Output, K::Package, K::Parameter, K::Partial, K::Pure, K::Record, K::Redeclare, K::Replaceable, K::Stream, K::Type]),
    mask(&[K::Break, K::Each, K::Final, K::Identifier, K::Redeclare, K::Replaceable]),
    mask(&[K::Constant, K::Discrete, K::Dot, K::Flow, K::Identifier, K::Input, K::Output, K::Parameter, K::Stream]),
    mask(&[K::Constant, K::Discrete, K::Flow, K::Input, K::Output, K::Parameter, K::Stream]),
    mask(&[K::Assign, K::Equal, K::LParen]),
    mask(&[K::Bool, K::Break, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::End, K::Identifier, K::If, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Each, K::Final, K::Identifier, K::Redeclare, K::Replaceable]),
    mask(&[K::Equation, K::Initial]),
    mask(&[K::Algorithm, K::Initial]),
    mask(&[K::Bool, K::Connect, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::For, K::Identifier, K::If, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal, K::When]),
    mask(&[K::Break, K::Dot, K::For, K::Identifier, K::If, K::LParen, K::Return, K::When, K::While]),
    mask(&[K::Bool, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::End, K::Identifier, K::If, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::End, K::Identifier, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::End, K::Identifier, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Der, K::Dot, K::End, K::Identifier, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::Identifier, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::Identifier, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Der, K::Dot, K::Identifier, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::End, K::Function, K::Identifier, K::If, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Comma, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::End, K::Identifier, K::If, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Bool, K::Colon, K::Der, K::Dot, K::DotMinus, K::DotPlus, K::End, K::Identifier, K::If, K::Initial, K::LBracket, K::LCurly, K::LParen, K::Minus, K::Not, K::Plus, K::Pure, K::String, K::UInt, K::UReal]),
    mask(&[K::Annotation, K::String]),
];
/// (kind, set or non-terminal or first way, next node or second way)
pub static NODES: &[(u8, u16, u16)] = &[
    (0, 0, 0),
    (3, 5, 0),
    (1, 0, 1),
    (2, 1, 2),
    (1, 1, 3),
    (3, 4, 3),
    (1, 0, 1),
    (2, 70, 6),
    (3, 7, 6),
    (1, 2, 8),
    (3, 9, 1),
    (2, 3, 0),
    (2, 2, 11),
    (1, 3, 12),
    (3, 13, 12),
    (1, 4, 0),
    (1, 5, 15),
    (1, 6, 0),
    (1, 7, 17),
    (1, 8, 0),
    (1, 5, 19),
    (3, 20, 19),
    (1, 9, 21),
    (3, 22, 21),
    (1, 10, 0),
    (3, 23, 24),
    (3, 18, 25),
    (3, 16, 26),
    (1, 11, 27),
    (3, 28, 27),
    (2, 4, 0),
    (2, 5, 0),
    (2, 6, 0),
    (3, 31, 32),
    (3, 30, 33),
    (1, 12, 0),
    (1, 13, 35),
    (2, 10, 36),
    (2, 85, 37),
    (1, 12, 38),
    (1, 12, 0),
    (1, 13, 40),
    (2, 10, 41),
    (2, 85, 42),
    (2, 29, 43),
    (3, 44, 43),
    (1, 12, 45),
    (1, 14, 46),
    (3, 39, 47),
    (2, 84, 0),
    (2, 29, 49),
    (3, 50, 49),
    (2, 82, 51),
    (3, 52, 51),
    (2, 69, 53),
    (2, 7, 54),
    (1, 15, 55),
    (1, 12, 56),
    (2, 84, 0),
    (1, 16, 58),
    (2, 8, 59),
    (3, 60, 59),
    (1, 17, 59),
    (3, 61, 62),
    (1, 18, 63),
    (1, 19, 64),
    (1, 15, 65),
    (1, 12, 66),
    (3, 57, 67),
    (2, 84, 0),
    (1, 16, 69),
    (3, 73, 70),
    (1, 12, 71),
    (1, 20, 72),
    (1, 12, 71),
    (1, 20, 74),
    (2, 69, 75),
    (1, 18, 76),
    (1, 21, 77),
    (1, 15, 78),
    (1, 12, 79),
    (1, 22, 0),
    (3, 81, 0),
    (3, 85, 0),
    (2, 9, 83),
    (1, 20, 84),
    (2, 9, 83),
    (2, 84, 0),
    (1, 12, 87),
    (1, 0, 0),
    (2, 86, 89),
    (3, 90, 0),
    (1, 0, 91),
    (2, 86, 92),
    (3, 93, 92),
    (2, 12, 94),
    (3, 95, 94),
    (2, 11, 96),
    (3, 97, 96),
    (1, 23, 98),
    (3, 99, 91),
    (3, 110, 100),
    (2, 13, 101),
    (1, 24, 102),
    (2, 13, 101),
    (1, 25, 104),
    (2, 35, 101),
    (2, 36, 101),
    (3, 106, 107),
    (3, 105, 108),
    (3, 103, 109),
    (2, 13, 101),
    (1, 26, 0),
    (1, 16, 0),
    (2, 81, 113),
    (3, 114, 113),
    (1, 18, 115),
    (1, 12, 116),
    (1, 15, 117),
    (2, 71, 118),
    (3, 119, 117),
    (3, 123, 0),
    (1, 0, 121),
    (2, 14, 122),
    (2, 15, 0),
    (2, 17, 0),
    (2, 1, 0),
    (2, 21, 0),
    (2, 84, 0),
    (2, 18, 128),
    (3, 129, 0),
    (2, 1, 130),
    (2, 21, 130),
    (3, 131, 132),
    (1, 27, 133),
    (3, 127, 134),
    (3, 126, 135),
    (1, 28, 136),
    (3, 137, 136),
    (1, 29, 138),
    (3, 139, 138),
    (1, 1, 140),
    (3, 141, 140),
    (1, 30, 142),
    (3, 143, 142),
    (3, 125, 144),
    (3, 124, 145),
    (2, 84, 0),
    (2, 70, 147),
    (1, 15, 148),
    (1, 12, 149),
    (1, 31, 147),
    (2, 16, 151),
    (1, 32, 152),
    (1, 33, 153),
    (1, 34, 147),
    (3, 154, 155),
    (3, 156, 147),
    (2, 70, 157),
    (3, 150, 158),
    (1, 35, 159),
    (3, 163, 0),
    (1, 12, 161),
    (1, 20, 162),
    (1, 12, 161),
    (2, 86, 0),
    (3, 165, 0),
    (2, 19, 166),
    (3, 167, 166),
    (2, 69, 168),
    (1, 14, 169),
    (2, 29, 0),
    (3, 171, 0),
    (2, 69, 172),
    (1, 36, 173),
    (1, 16, 0),
    (3, 178, 175),
    (2, 20, 176),
    (1, 20, 177),
    (2, 20, 176),
    (3, 179, 175),
    (1, 18, 180),
    (2, 30, 0),
    (2, 48, 0),
    (1, 12, 0),
    (3, 183, 184),
    (1, 37, 185),
    (3, 182, 186),
    (2, 23, 0),
    (2, 82, 188),
    (3, 189, 188),
    (2, 69, 190),
    (2, 22, 191),
    (1, 22, 0),
    (3, 193, 0),
    (1, 38, 194),
    (3, 195, 194),
    (1, 39, 196),
    (3, 197, 196),
    (3, 201, 0),
    (2, 24, 199),
    (1, 20, 200),
    (2, 24, 199),
    (2, 84, 0),
    (2, 25, 203),
    (3, 204, 203),
    (2, 26, 205),
    (2, 49, 0),
    (1, 40, 207),
    (2, 27, 0),
    (3, 209, 0),
    (2, 82, 210),
    (3, 211, 210),
    (1, 12, 212),
    (2, 28, 0),
    (1, 15, 214),
    (3, 215, 0),
    (2, 29, 216),
    (2, 28, 0),
    (1, 15, 218),
    (2, 28, 0),
    (1, 41, 220),
    (3, 219, 221),
    (3, 217, 222),
    (2, 49, 0),
    (1, 37, 0),
    (3, 224, 225),
    (1, 16, 0),
    (3, 230, 227),
    (2, 30, 228),
    (1, 20, 229),
    (2, 30, 228),
    (3, 231, 227),
    (1, 18, 232),
    (2, 31, 0),
    (2, 32, 0),
    (3, 234, 235),
    (1, 1, 236),
    (3, 237, 236),
    (1, 42, 238),
    (3, 239, 238),
    (2, 34, 0),
    (2, 33, 0),
    (2, 32, 0),
    (3, 242, 243),
    (3, 241, 244),
    (1, 1, 245),
    (3, 246, 245),
    (1, 42, 247),
    (3, 248, 247),
    (1, 30, 249),
    (3, 240, 250),
    (2, 85, 0),
    (2, 27, 252),
    (3, 253, 252),
    (2, 70, 254),
    (2, 18, 0),
    (3, 256, 0),
    (2, 34, 257),
    (2, 33, 257),
    (3, 258, 259),
    (1, 27, 260),
    (2, 84, 0),
    (2, 26, 262),
    (2, 69, 263),
    (2, 22, 264),
    (2, 5, 0),
    (2, 2, 266),
    (3, 270, 0),
    (1, 0, 268),
    (2, 37, 269),
    (1, 43, 268),
    (1, 44, 271),
    (3, 272, 271),
    (3, 276, 0),
    (1, 0, 274),
    (2, 38, 275),
    (1, 45, 274),
    (1, 44, 277),
    (3, 278, 277),
    (2, 84, 0),
    (2, 49, 280),
    (1, 15, 281),
    (3, 282, 280),
    (2, 60, 283),
    (2, 39, 280),
    (2, 41, 280),
    (2, 48, 280),
    (2, 46, 280),
    (3, 287, 288),
    (3, 286, 289),
    (3, 285, 290),
    (3, 284, 291),
    (2, 84, 0),
    (2, 49, 293),
    (1, 41, 294),
    (2, 72, 293),
    (3, 295, 296),
    (2, 71, 297),
    (2, 72, 293),
    (2, 71, 299),
    (1, 41, 300),
    (1, 16, 301),
    (2, 80, 302),
    (1, 18, 303),
    (2, 40, 293),
    (2, 42, 293),
    (2, 45, 293),
    (2, 47, 293),
    (1, 46, 293),
    (3, 308, 309),
    (3, 307, 310),
    (3, 306, 311),
    (3, 305, 312),
    (3, 304, 313),
    (3, 298, 314),
    (1, 40, 0),
    (1, 13, 316),
    (3, 320, 317),
    (1, 0, 318),
    (2, 37, 319),
    (1, 47, 318),
    (3, 321, 317),
    (3, 329, 322),
    (3, 326, 323),
    (1, 0, 324),
    (2, 37, 325),
    (1, 48, 324),
    (2, 49, 327),
    (1, 49, 328),
    (3, 332, 323),
    (1, 0, 330),
    (2, 37, 331),
    (1, 48, 330),
    (2, 49, 333),
    (1, 40, 334),
    (1, 40, 0),
    (1, 13, 336),
    (3, 340, 337),
    (1, 0, 338),
    (2, 38, 339),
    (1, 47, 338),
    (3, 341, 337),
    (3, 349, 342),
    (3, 346, 343),
    (1, 0, 344),
    (2, 38, 345),
    (1, 48, 344),
    (2, 49, 347),
    (1, 49, 348),
    (3, 352, 343),
    (1, 0, 350),
    (2, 38, 351),
    (1, 48, 350),
    (2, 49, 353),
    (1, 40, 354),
    (1, 50, 0),
    (1, 13, 356),
    (3, 360, 357),
    (1, 0, 358),
    (2, 37, 359),
    (1, 51, 358),
    (2, 43, 361),
    (1, 50, 362),
    (1, 50, 0),
    (1, 13, 364),
    (3, 368, 365),
    (1, 0, 366),
    (2, 38, 367),
    (1, 51, 366),
    (2, 43, 369),
    (1, 50, 370),
    (3, 374, 0),
    (2, 44, 372),
    (1, 20, 373),
    (2, 44, 372),
    (2, 49, 0),
    (1, 52, 376),
    (3, 377, 0),
    (1, 12, 378),
    (1, 53, 0),
    (1, 13, 380),
    (3, 384, 381),
    (1, 0, 382),
    (2, 38, 383),
    (1, 51, 382),
    (2, 49, 385),
    (1, 53, 386),
    (1, 54, 0),
    (1, 13, 388),
    (3, 396, 389),
    (3, 393, 390),
    (1, 0, 391),
    (2, 37, 392),
    (1, 48, 391),
    (2, 49, 394),
    (1, 55, 395),
    (3, 399, 390),
    (1, 0, 397),
    (2, 37, 398),
    (1, 48, 397),
    (2, 49, 400),
    (1, 54, 401),
    (1, 54, 0),
    (1, 13, 403),
    (3, 411, 404),
    (3, 408, 405),
    (1, 0, 406),
    (2, 38, 407),
    (1, 48, 406),
    (2, 49, 409),
    (1, 55, 410),
    (3, 414, 405),
    (1, 0, 412),
    (2, 38, 413),
    (1, 48, 412),
    (2, 49, 415),
    (1, 54, 416),
    (1, 16, 0),
    (2, 71, 418),
    (1, 20, 419),
    (2, 71, 420),
    (1, 18, 421),
    (1, 56, 422),
    (2, 50, 0),
    (2, 49, 0),
    (1, 47, 425),
    (3, 431, 426),
    (2, 49, 427),
    (1, 48, 428),
    (2, 49, 429),
    (1, 49, 430),
    (2, 49, 427),
    (1, 48, 432),
    (2, 49, 433),
    (1, 40, 434),
    (3, 424, 435),
    (2, 51, 0),
    (1, 17, 437),
    (3, 438, 0),
    (2, 51, 439),
    (1, 17, 440),
    (3, 441, 0),
    (2, 51, 442),
    (3, 446, 0),
    (2, 52, 444),
    (1, 57, 445),
    (2, 52, 444),
    (3, 450, 0),
    (2, 53, 448),
    (1, 58, 449),
    (2, 53, 448),
    (2, 54, 0),
    (1, 59, 452),
    (3, 453, 452),
    (2, 55, 0),
    (1, 60, 455),
    (3, 456, 0),
    (2, 55, 457),
    (3, 461, 0),
    (2, 57, 459),
    (2, 56, 460),
    (2, 57, 459),
    (2, 56, 462),
    (3, 463, 462),
    (1, 61, 0),
    (3, 468, 0),
    (2, 58, 466),
    (1, 62, 467),
    (2, 58, 466),
    (2, 59, 0),
    (1, 63, 470),
    (3, 471, 0),
    (2, 59, 472),
    (2, 72, 0),
    (3, 474, 0),
    (2, 71, 475),
    (2, 72, 0),
    (1, 64, 477),
    (2, 82, 0),
    (3, 479, 0),
    (1, 16, 480),
    (2, 80, 481),
    (1, 18, 482),
    (1, 65, 0),
    (3, 487, 484),
    (2, 81, 485),
    (1, 0, 486),
    (2, 81, 485),
    (1, 66, 488),
    (1, 31, 0),
    (2, 79, 490),
    (1, 32, 491),
    (1, 67, 0),
    (3, 492, 493),
    (3, 489, 494),
    (3, 483, 495),
    (3, 478, 496),
    (3, 476, 497),
    (2, 51, 0),
    (1, 17, 499),
    (3, 500, 0),
    (2, 51, 501),
    (1, 17, 502),
    (3, 503, 0),
    (2, 61, 504),
    (3, 508, 0),
    (2, 52, 506),
    (1, 57, 507),
    (2, 62, 506),
    (3, 512, 0),
    (2, 53, 510),
    (1, 58, 511),
    (2, 63, 510),
    (2, 54, 0),
    (1, 59, 514),
    (2, 64, 0),
    (3, 515, 516),
    (2, 55, 0),
    (1, 60, 518),
    (3, 519, 0),
    (2, 65, 520),
    (3, 524, 0),
    (2, 57, 522),
    (2, 56, 523),
    (2, 57, 522),
    (2, 56, 525),
    (3, 529, 0),
    (2, 57, 527),
    (2, 56, 528),
    (2, 66, 527),
    (3, 526, 530),
    (3, 534, 0),
    (2, 58, 532),
    (1, 62, 533),
    (2, 67, 532),
    (2, 59, 0),
    (1, 63, 536),
    (3, 537, 0),
    (2, 68, 538),
    (2, 72, 0),
    (3, 540, 0),
    (2, 71, 541),
    (2, 72, 0),
    (1, 64, 543),
    (2, 82, 0),
    (3, 545, 0),
    (1, 16, 546),
    (2, 80, 547),
    (1, 18, 548),
    (1, 65, 0),
    (3, 553, 550),
    (2, 81, 551),
    (1, 0, 552),
    (2, 81, 551),
    (1, 66, 554),
    (1, 31, 0),
    (2, 79, 556),
    (1, 32, 557),
    (1, 68, 0),
    (3, 558, 559),
    (3, 555, 560),
    (3, 549, 561),
    (3, 544, 562),
    (3, 542, 563),
    (2, 70, 0),
    (1, 33, 565),
    (3, 566, 565),
    (3, 570, 0),
    (1, 12, 568),
    (1, 33, 569),
    (1, 12, 568),
    (3, 576, 0),
    (2, 82, 572),
    (3, 573, 572),
    (1, 12, 574),
    (1, 33, 575),
    (2, 82, 572),
    (3, 577, 572),
    (1, 12, 578),
    (1, 33, 579),
    (3, 580, 579),
    (1, 16, 0),
    (2, 73, 582),
    (3, 583, 582),
    (1, 18, 584),
    (2, 74, 0),
    (1, 20, 586),
    (2, 43, 0),
    (1, 50, 588),
    (3, 587, 589),
    (3, 590, 0),
    (2, 49, 591),
    (2, 74, 0),
    (1, 20, 593),
    (3, 594, 0),
    (2, 78, 595),
    (2, 75, 0),
    (3, 596, 597),
    (3, 592, 598),
    (2, 74, 0),
    (1, 20, 600),
    (3, 601, 0),
    (2, 77, 602),
    (2, 75, 0),
    (3, 603, 604),
    (3, 608, 0),
    (2, 76, 606),
    (1, 20, 607),
    (2, 76, 606),
    (2, 77, 0),
    (1, 15, 610),
    (1, 12, 611),
    (2, 78, 0),
    (2, 49, 0),
    (3, 613, 614),
    (1, 16, 0),
    (2, 75, 616),
    (3, 617, 616),
    (1, 18, 618),
    (2, 69, 619),
    (1, 8, 620),
    (3, 624, 0),
    (2, 49, 622),
    (1, 20, 623),
    (2, 49, 622),
    (1, 20, 625),
    (2, 43, 0),
    (1, 50, 627),
    (3, 626, 628),
    (3, 629, 0),
    (2, 49, 630),
    (3, 635, 0),
    (2, 49, 632),
    (3, 633, 632),
    (1, 20, 634),
    (2, 49, 632),
    (3, 636, 632),
    (3, 640, 0),
    (2, 49, 638),
    (1, 20, 639),
    (2, 49, 638),
    (1, 65, 0),
    (3, 645, 642),
    (2, 83, 643),
    (1, 20, 644),
    (2, 83, 643),
    (1, 66, 646),
    (2, 49, 0),
    (1, 17, 0),
    (3, 648, 649),
    (2, 86, 0),
    (3, 651, 0),
    (2, 85, 652),
    (3, 656, 0),
    (1, 26, 654),
    (1, 69, 655),
    (1, 26, 654),
    (3, 657, 0),
    (2, 29, 0),
    (1, 70, 659),
];
/// (start node, set of first terminals, can be empty)
pub static NT: &[(u16, u16, bool)] = &[
    (10, 71, true), // stored_definition
    (14, 72, false), // class_definition
    (29, 73, false), // class_prefixes
    (34, 74, false), // class_specifier
    (48, 74, false), // long_class_specifier
    (68, 12, false), // short_class_specifier
    (80, 12, false), // der_class_specifier
    (82, 22, true), // base_prefix
    (86, 12, false), // enum_list
    (88, 12, false), // enumeration_literal
    (111, 75, true), // composition
    (112, 26, false), // language_specification
    (120, 76, false), // external_function_call
    (121, 77, true), // element_list
    (146, 77, false), // element
    (160, 35, false), // import_clause
    (164, 12, false), // import_list
    (170, 14, false), // extends_clause
    (174, 36, false), // constraining_clause
    (181, 18, false), // class_or_inheritance_modification
    (187, 78, false), // argument_or_inheritance
    (192, 79, false), // component_clause
    (198, 80, true), // type_prefix
    (202, 12, false), // component_list
    (206, 12, false), // component_declaration
    (208, 40, false), // condition_attribute
    (213, 12, false), // declaration
    (223, 81, false), // modification
    (226, 82, false), // modification_expression
    (233, 18, false), // class_modification
    (251, 83, false), // argument
    (255, 12, false), // element_modification
    (261, 27, false), // element_replaceable
    (265, 79, false), // component_clause1
    (267, 73, false), // short_class_definition
    (273, 84, false), // equation_section
    (279, 85, false), // algorithm_section
    (292, 86, false), // equation
    (315, 87, false), // statement
    (335, 40, false), // if_equation
    (355, 40, false), // if_statement
    (363, 50, false), // for_equation
    (371, 50, false), // for_statement
    (375, 12, false), // for_indices
    (379, 12, false), // for_index
    (387, 53, false), // while_statement
    (402, 54, false), // when_equation
    (417, 54, false), // when_statement
    (423, 56, false), // connect_equation
    (436, 88, false), // expression
    (443, 89, false), // simple_expression
    (447, 89, false), // logical_expression
    (451, 89, false), // logical_term
    (454, 89, false), // logical_factor
    (458, 90, false), // relation
    (464, 90, false), // arithmetic_expression
    (465, 61, false), // add_operator
    (469, 91, false), // term
    (473, 91, false), // factor
    (498, 91, false), // primary
    (505, 92, false), // simple_expression0
    (509, 92, false), // logical_expression0
    (513, 92, false), // logical_term0
    (517, 92, false), // logical_factor0
    (521, 93, false), // relation0
    (531, 93, false), // arithmetic_expression0
    (535, 94, false), // term0
    (539, 94, false), // factor0
    (564, 94, false), // primary0
    (567, 76, false), // type_specifier
    (571, 12, false), // name
    (581, 76, false), // component_reference
    (585, 18, false), // function_call_args
    (599, 95, false), // function_arguments
    (605, 95, false), // non_first_arguments
    (609, 12, false), // named_arguments
    (612, 12, false), // named_argument
    (615, 95, false), // function_argument
    (621, 8, false), // function_partial_application
    (631, 88, false), // array_arguments
    (637, 96, true), // output_expression_list
    (641, 88, false), // expression_list
    (647, 66, false), // array_subscripts
    (650, 97, false), // subscript
    (653, 98, true), // description
    (658, 26, true), // description_string
    (660, 70, false), // annotation_clause
];
