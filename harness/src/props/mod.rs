pub mod geom;
pub mod orbit;
pub mod stage;
pub mod text;
pub mod timep;
pub mod chain;
pub mod extreme;
