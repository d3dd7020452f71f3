//@module source_file_location
impl<'a> SourceFileLocation<'a> {
    pub open spec fn v(&self) -> LocV { LocV { file: self.file_name@, line: self.line as int, col: self.location as int, len: self.length as int } }
}
//@fn source_file_location::SourceFileLocation::new
//@props C13,C15
//@params file_name,line,location,length
    requires line > 0, location > 0, length > 0,
    ensures r.v() == (LocV { file: file_name@, line: line as int, col: location as int, len: length as int }),
//@module token
use crate::assembler::scanner::Error as ScanError;
impl<'a> Token<'a> {
    pub open spec fn v(&self) -> TokV {
        match *self {
            Token::SingleLineComment(s, l) => TokV { k: K::Comment(s@), loc: l.v() },
            Token::DirectiveMarker(l) => TokV { k: K::Dot, loc: l.v() },
            Token::Identifier(s, l) => TokV { k: K::Ident(s@), loc: l.v() },
            Token::LabelMarker(l) => TokV { k: K::Colon, loc: l.v() },
            Token::StringLiteral(s, l) => TokV { k: K::Str(s@), loc: l.v() },
            Token::NumericLiteral(n, l) => TokV { k: K::Num(n as int), loc: l.v() },
            Token::Comma(l) => TokV { k: K::Comma, loc: l.v() },
            Token::Newline(l) => TokV { k: K::Nl, loc: l.v() },
            Token::Error(e, l) => TokV { k: K::Err(e.v()), loc: l.v() },
        }
    }
}
//@fn token::Token::location
//@props C15
    ensures r.v() == self.v().loc,
//@module scanner
impl<'a> Error<'a> {
    pub open spec fn v(&self) -> LexErr {
        match *self {
            Error::InvalidStringLiteral => LexErr::BadString,
            Error::InvalidHexadecimalLiteral => LexErr::BadHex,
            Error::DecimalLiteralOutOfRange(s) => LexErr::DecRange(s@),
            Error::InvalidDecimalLiteral => LexErr::BadDec,
            Error::InvalidBinaryLiteral => LexErr::BadBin,
            Error::BinaryLiteralOutOfRange(s) => LexErr::BinRange(s@),
            Error::InvalidIdentifier => LexErr::BadIdent,
            Error::ExpectedRegisterIndirect => LexErr::BadIndirect,
            Error::InvalidCharacter(c) => LexErr::BadChar(c),
        }
    }
}
//@module parser
impl<'a> Literal<'a> {
    pub open spec fn v(&self) -> LitV { match *self { Literal::String(s) => LitV::Str(s@), Literal::Numeric(n) => LitV::Num(n as int) } }
}
impl<'a> InstructionField<'a> {
    pub open spec fn v(&self) -> FieldV {
        match *self {
            InstructionField::NumericLiteral(n) => FieldV::Num(n@),
            InstructionField::GeneralPurposeRegister(r) => FieldV::Reg(r as int),
            InstructionField::DelayTimer => FieldV::DT,
            InstructionField::SoundTimer => FieldV::ST,
            InstructionField::KeypadRegister => FieldV::Key,
            InstructionField::IndexRegister => FieldV::I,
            InstructionField::IndexRegisterIndirect => FieldV::II,
            InstructionField::Identifier(s) => FieldV::Id(s@),
            InstructionField::Bcd => FieldV::B,
            InstructionField::Sprite => FieldV::F,
        }
    }
}
pub open spec fn lits_v(a: Seq<Literal>) -> Seq<LitV> { a.map_values(|l: Literal| l.v()) }
pub open spec fn fields_v(a: Seq<InstructionField>) -> Seq<FieldV> { a.map_values(|l: InstructionField| l.v()) }
impl<'a> Node<'a> {
    pub open spec fn v(&self) -> NodeV {
        match *self {
            Node::Directive(d) => NodeV::Dir { loc: d.location.v(), name: d.identifier@, args: lits_v(d.arguments@) },
            Node::Label(d) => NodeV::Label { loc: d.location.v(), name: d.identifier@ },
            Node::Instruction(d) => NodeV::Instr { loc: d.location.v(), name: d.mnemonic@, fields: fields_v(d.fields@) },
        }
    }
}
pub open spec fn nodes_v(a: Seq<Node>) -> Seq<NodeV> { a.map_values(|l: Node| l.v()) }
