pub mod analysis;
pub mod gen_;
pub mod refsem;
pub mod report;
pub mod rv;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c09;
pub mod c11;
pub mod dbgtree;
pub mod exprs;
pub mod c12;
pub mod c12_fns;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c19;
