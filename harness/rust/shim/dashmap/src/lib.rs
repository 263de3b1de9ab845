pub use dashmap6::*;
