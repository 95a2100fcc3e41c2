//! The generated key shapes.
#![allow(clippy::all, non_camel_case_types)]

use fmsim_core::ctx::*;
use fmsim_core::erased::*;
use crate::uni::*;
use fmsim_core::vals::*;
use crate::wrap::*;
use crate::*;
use fixed_map::{Map, Set};

include!(concat!(env!("OUT_DIR"), "/shapes.rs"));
