#![allow(dead_code, unused_imports)]
mod bank;
mod h;
mod keys;
mod trace;
mod wire;
use h::*;
use keys::balance;
use wire::Call;

