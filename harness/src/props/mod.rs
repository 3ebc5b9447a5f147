//! The monitored properties.
use crate::core::Prop;

pub mod block;
pub mod ctxt;
pub mod cursor;
pub mod dump;
pub mod errors;
pub mod formats;
pub mod layout;
pub mod memory;
pub mod nodes;
pub mod parse;
pub mod quoted;
pub mod serde_;
pub mod shared;
pub mod total;
pub mod typed;
pub mod wrappers;

pub static ALL: &[Prop] =
    &[total::TOTAL, parse::STRUCTURE, parse::PLAIN, quoted::QUOTED, block::BLOCK, parse::ALIAS, parse::STREAM, parse::TAGS, parse::POS, errors::LOCATE, errors::REJECT, errors::LOSS, layout::LAYOUT, layout::JSON, cursor::CURSOR, dump::DUMP, dump::ANCHORS, serde_::NODES, serde_::TEXT, serde_::FIT, wrappers::WRAPPERS, formats::FORMATS, typed::TYPED, nodes::EQUALITY, nodes::ACCESS, nodes::CONVERT, nodes::REPRS, shared::SHARED, memory::MEMORY];
