mod flow;
mod isa;
mod memo;
mod prog;
mod refpvm;
