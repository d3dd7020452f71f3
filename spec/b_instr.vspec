//@module opcode
/// Register numbers and nibble operands are 4-bit values.
pub open spec fn op_ok(o: Opcode) -> bool {
    match o {
        Opcode::NOP | Opcode::CLS | Opcode::RET | Opcode::DEREF_I | Opcode::TRAP | Opcode::TRAPRET => true,
        Opcode::JP { target } => true,
        Opcode::CALL { target } => true,
        Opcode::SE_IMMEDIATE { register_x, value } => register_x <= 15,
        Opcode::SNE_IMMEDIATE { register_x, value } => register_x <= 15,
        Opcode::SE_REGISTER { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::SNE_REGISTER { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::LD_IMMEDIATE { register_x, value } => register_x <= 15,
        Opcode::ADD_IMMEDIATE { register_x, value } => register_x <= 15,
        Opcode::LD_REGISTER { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::OR { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::AND { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::XOR { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::ADD_REGISTER { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::SUB { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::SHR { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::SUBN { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::SHL { register_x, register_y } => register_x <= 15 && register_y <= 15,
        Opcode::LD_I { value } => true,
        Opcode::JP_V0 { value } => true,
        Opcode::RND { register_x, mask } => register_x <= 15,
        Opcode::DRW { register_x, register_y, bytes } => register_x <= 15 && register_y <= 15 && bytes <= 15,
        Opcode::SE_K { register_x } => register_x <= 15,
        Opcode::SNE_K { register_x } => register_x <= 15,
        Opcode::LD_X_DT { register_x } => register_x <= 15,
        Opcode::LD_X_K { register_x } => register_x <= 15,
        Opcode::LD_DT_X { register_x } => register_x <= 15,
        Opcode::LD_ST_X { register_x } => register_x <= 15,
        Opcode::ADD_I_X { register_x } => register_x <= 15,
        Opcode::SPRITE_I { register_x } => register_x <= 15,
        Opcode::BCD_I { register_x } => register_x <= 15,
        Opcode::SAVE_I { register_x } => register_x <= 15,
        Opcode::RESTORE_I { register_x } => register_x <= 15,
    }
}
/// The instruction word of an operation, from the CHIP-8 opcode table.
pub open spec fn op_word(o: Opcode) -> int {
    match o {
        Opcode::NOP => 0x0000,
        Opcode::CLS => 0x00E0,
        Opcode::RET => 0x00EE,
        Opcode::DEREF_I => 0x00F8,
        Opcode::TRAPRET => 0x00F9,
        Opcode::TRAP => 0x00FA,
        Opcode::JP { target } => 0x1000 + target@,
        Opcode::CALL { target } => 0x2000 + target@,
        Opcode::SE_IMMEDIATE { register_x, value } => 0x3000 + register_x * 256 + value,
        Opcode::SNE_IMMEDIATE { register_x, value } => 0x4000 + register_x * 256 + value,
        Opcode::SE_REGISTER { register_x, register_y } => 0x5000 + register_x * 256 + register_y * 16,
        Opcode::LD_IMMEDIATE { register_x, value } => 0x6000 + register_x * 256 + value,
        Opcode::ADD_IMMEDIATE { register_x, value } => 0x7000 + register_x * 256 + value,
        Opcode::LD_REGISTER { register_x, register_y } => 0x8000 + register_x * 256 + register_y * 16,
        Opcode::OR { register_x, register_y } => 0x8001 + register_x * 256 + register_y * 16,
        Opcode::AND { register_x, register_y } => 0x8002 + register_x * 256 + register_y * 16,
        Opcode::XOR { register_x, register_y } => 0x8003 + register_x * 256 + register_y * 16,
        Opcode::ADD_REGISTER { register_x, register_y } => 0x8004 + register_x * 256 + register_y * 16,
        Opcode::SUB { register_x, register_y } => 0x8005 + register_x * 256 + register_y * 16,
        Opcode::SHR { register_x, register_y } => 0x8006 + register_x * 256 + register_y * 16,
        Opcode::SUBN { register_x, register_y } => 0x8007 + register_x * 256 + register_y * 16,
        Opcode::SHL { register_x, register_y } => 0x800E + register_x * 256 + register_y * 16,
        Opcode::SNE_REGISTER { register_x, register_y } => 0x9000 + register_x * 256 + register_y * 16,
        Opcode::LD_I { value } => 0xA000 + value@,
        Opcode::JP_V0 { value } => 0xB000 + value@,
        Opcode::RND { register_x, mask } => 0xC000 + register_x * 256 + mask,
        Opcode::DRW { register_x, register_y, bytes } => 0xD000 + register_x * 256 + register_y * 16 + bytes,
        Opcode::SE_K { register_x } => 0xE09E + register_x * 256,
        Opcode::SNE_K { register_x } => 0xE0A1 + register_x * 256,
        Opcode::LD_X_DT { register_x } => 0xF007 + register_x * 256,
        Opcode::LD_X_K { register_x } => 0xF00A + register_x * 256,
        Opcode::LD_DT_X { register_x } => 0xF015 + register_x * 256,
        Opcode::LD_ST_X { register_x } => 0xF018 + register_x * 256,
        Opcode::ADD_I_X { register_x } => 0xF01E + register_x * 256,
        Opcode::SPRITE_I { register_x } => 0xF029 + register_x * 256,
        Opcode::BCD_I { register_x } => 0xF033 + register_x * 256,
        Opcode::SAVE_I { register_x } => 0xF055 + register_x * 256,
        Opcode::RESTORE_I { register_x } => 0xF065 + register_x * 256,
    }
}
//@fn opcode::Opcode::as_instruction
//@props C01,C03,C13
    requires op_ok(*self),
    ensures /*@C01,C03*/ r == op_word(*self),
//@at entry
    proof { broadcast use group_u12, group_bits; }
//@fn opcode::format_instruction_imm12
//@props C01,C13
//@params hi4,imm12
    requires hi4 <= 15,
    ensures /*@C01*/ r == hi4 * 4096 + imm12@,
//@at entry
    proof { broadcast use group_u12, group_bits; }
//@fn opcode::format_instruction_x_imm8
//@props C01,C13
//@params hi4,x,imm8
    requires hi4 <= 15, x <= 15,
    ensures /*@C01*/ r == hi4 * 4096 + x * 256 + imm8,
//@at entry
    proof { broadcast use group_u12, group_bits; }
//@fn opcode::format_instruction_x_y
//@props C01,C13
//@params hi4,x,y,lo4
    requires hi4 <= 15, x <= 15, y <= 15, lo4 <= 15,
    ensures /*@C01*/ r == hi4 * 4096 + x * 256 + y * 16 + lo4,
//@at entry
    proof { broadcast use group_u12, group_bits; }
//@endfn

//@module instruction
use crate::assembler::opcode::*;
use crate::assembler::parser::*;
pub open spec fn ints(m: Map<Seq<char>, U12>) -> Map<Seq<char>, int> { m.map_values(|v: U12| v@) }
//@fn instruction::resolve_label_with_map
//@props C04,C05
//@params label,label_map
    ensures /*@C04,C05*/ match r { Ok(v) => label_map@.dom().contains(label@) && v == label_map@[label@], Err(_) => !label_map@.dom().contains(label@) },
//@fn instruction::numeric_literal_to_8_bit_field
//@props C03
//@params literal
    ensures /*@C03*/ match r { Ok(v) => literal@ <= 255 && v == literal@, Err(_) => literal@ > 255 },
//@at entry
    proof { broadcast use group_u12; }
//@fn instruction::numeric_literal_to_4_bit_field
//@props C03
//@params literal
    ensures /*@C03*/ match r { Ok(v) => literal@ <= 15 && v == literal@, Err(_) => literal@ > 15 },
//@at entry
    proof { broadcast use group_u12; }
//@fn instruction::Instruction::from_mnemonic_and_parameters
//@props C01,C02,C03,C04,C05,C13
//@params input_mnemonic,fields,label_map
    requires is_ascii(input_mnemonic@), fields_ok(fields_v(fields@)),
    ensures
        /*@C01,C02,C03,C04,C05*/ match enc(lower(input_mnemonic@), fields_v(fields@), ints(label_map@)) {
            Some(w) => r is Ok && op_ok(r->Ok_0.0) && op_word(r->Ok_0.0) == w,
            None => r is Err,
        },
//@loop 0
    invariant
//@at entry
    proof { broadcast use group_u12, group_str; assert forall|i: int| 0 <= i < fields@.len() implies field_ok(#[trigger] fields@[i].v()) by { assert(fields_v(fields@)[i] == fields@[i].v()); } }
//@fn instruction::Instruction::size
//@props C06
    ensures r == 2,
//@fn instruction::Instruction::into_vec
//@props C01,C13
    requires op_ok(self.0),
    ensures /*@C01*/ r@ =~= word_bytes(op_word(self.0)),
//@at entry
    proof { broadcast use group_bits, group_u12; }
//@endfn
