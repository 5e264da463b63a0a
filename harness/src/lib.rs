//! The properties, as code: every `h_*` function is one claim over all values its symbolic inputs can take.
pub mod k;
pub mod rt;
mod file_add;
mod walker;
mod hostile;
mod visit;
mod codec;
mod resolve;
mod builder;
mod show;

macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => {
    #[cfg(feature = "native")]
    pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    #[cfg(not(feature = "native"))]
    mod exported { $(#[no_mangle] extern "C" fn $f() { super::$m::$f() })* }
} }
entries! {
    builder::h_tree_admission, builder::h_tree_content, builder::h_tree_back, builder::h_tree_default_limit,
    resolve::h_resolve_dir, resolve::h_resolve_hamt, resolve::h_dir_properties, resolve::h_dir_properties_text,
    codec::h_codec_unixfs, codec::h_codec_node, codec::h_decode_unixfs, codec::h_decode_node, codec::h_symlink,
    file_add::h_file_roundtrip, file_add::h_file_segmentation, file_add::h_file_blocks, file_add::h_file_layout, file_add::h_file_defaults,
    walker::h_walk_tree, hostile::h_raw_entry, hostile::h_walk_raw, hostile::h_walk_hostile, hostile::h_lookup_hostile, hostile::h_lookup_raw, visit::h_visit_validation, visit::h_visit_hostile, visit::h_visit_raw, visit::h_walk_as_visit, walker::h_walk_errors,
    file_add::h_file_range, file_add::h_file_range_fetch, show::h_error_texts,
}
