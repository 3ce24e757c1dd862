//! The demonstrations record nothing.
use crate::bank::{Acct, TxOut};
use solana_program::{instruction::Instruction, pubkey::Pubkey};
pub fn wanted(_: &[Instruction]) -> bool {
    false
}
pub fn write(_: i64, _: u64, _: &[Instruction], _: &[Pubkey], _: &[Acct], _: &[Acct], _: &TxOut) {}
