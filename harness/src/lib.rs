pub mod big;
pub mod cal;
pub mod dt;
pub mod leap;
pub mod model;
pub mod mon;
pub mod rng;
pub mod ticks;
pub mod touch;
