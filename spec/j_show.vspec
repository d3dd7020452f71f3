//@module source_file_location
//@fn source_file_location::SourceFileLocation::fmt
//@props C13,C15
//@params f
//@header impl<'a> VShow for SourceFileLocation<'a> { open spec fn can_show(&self) -> bool { loc_ok(self.v()) } open spec fn shows(&self, t: Seq<char>) -> bool { /*@C15*/ t == loc_text(self.v()) }
//@at entry
    proof { broadcast use group_fmt; }
//@at tail
    proof { assert(f@ =~= loc_text(self.v())); }
//@fn token::Token::fmt
//@props C13
//@params f
//@header impl<'a> VShow for Token<'a> { open spec fn can_show(&self) -> bool { true } open spec fn shows(&self, t: Seq<char>) -> bool { true }
//@fn scanner::Error::fmt
//@props C13
//@params f
//@header impl<'a> VShow for Error<'a> { open spec fn can_show(&self) -> bool { true } open spec fn shows(&self, t: Seq<char>) -> bool { true }
//@fn scanner::Error::description
//@props C13
//@fn parser::Error::fmt
//@props C13,C15
//@params f
//@header impl<'a> VShow for Error<'a> { open spec fn can_show(&self) -> bool { self.printable() } open spec fn shows(&self, t: Seq<char>) -> bool { t.len() > 0 && /*@C15*/ starts(t, perr_head(self.pv())) }
//@at entry
    proof { broadcast use group_fmt; }
//@fn parser::Error::description
//@props C13
//@fn parser::InstructionField::fmt
//@props C13
//@params f
//@header impl<'a> VShow for InstructionField<'a> { open spec fn can_show(&self) -> bool { true } open spec fn shows(&self, t: Seq<char>) -> bool { true }
//@fn directive::Error::fmt
//@props C13
//@params f
//@header impl VShow for Error { open spec fn can_show(&self) -> bool { true } open spec fn shows(&self, t: Seq<char>) -> bool { true }
//@fn directive::Error::description
//@props C13
//@fn directive::Directive::fmt
//@props C13
//@params f
//@header impl VShow for Directive { open spec fn can_show(&self) -> bool { true } open spec fn shows(&self, t: Seq<char>) -> bool { true }
//@fn instruction::Error::fmt
//@props C13
//@params f
//@header impl VShow for Error { open spec fn can_show(&self) -> bool { true } open spec fn shows(&self, t: Seq<char>) -> bool { true }
//@fn instruction::Error::description
//@props C13
//@fn assembler::SemanticError::fmt
//@props C13,C15
//@params f
//@header impl<'a> VShow for SemanticError<'a> { open spec fn can_show(&self) -> bool { loc_ok(self.loc()) } open spec fn shows(&self, t: Seq<char>) -> bool { t.len() > 0 && /*@C15*/ starts(t, diag_head(self.loc())) }
//@at entry
    proof { broadcast use group_fmt; }
//@fn assembler::SemanticError::description
//@props C13
//@fn data_range::DataRange::fmt
//@props C07,C13
//@params f
//@header impl VShow for DataRange { open spec fn can_show(&self) -> bool { range_ok(self.v()) && self.v().data.len() > 0 } open spec fn shows(&self, t: Seq<char>) -> bool { true }
//@at entry
    proof { broadcast use group_u12; broadcast use group_fmt; }
//@endfn
