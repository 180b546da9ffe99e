mod codec;
mod merkle;
mod refc;
