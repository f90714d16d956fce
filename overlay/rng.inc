// ---- randomness: generators are streams with a position
pub trait CryptoRng {}
pub trait RngCore { spec fn seeded(&self) -> bool; spec fn stream(&self) -> int; spec fn pos(&self) -> nat; }
pub struct Hc128Rng { }
