//! Host stand-in for the Serum/OpenBook v1 DEX: account layouts as on chain, plus a small
//! but working DEX program (see `processor`) used as the environment of mango-v4.
pub mod critbit;
pub mod instruction;
pub mod matching;
pub mod processor;
pub mod state;
