//! Operation lists for random histories, and the loading of state graphs.
pub const LIST: &[&str] = &[
    "push_back", "push_back", "push_front", "push_front", "pop_back", "pop_front", "insert", "insert", "insert_from", "insert_from", "remove", "remove", "set", "index", "index_mut", "get", "get_mut", "first_last", "swap",
    "drop_left", "drop_right", "split_off", "append", "append", "drain_from", "drain_from_front", "drain_from_back", "from_front", "from_back", "exchange", "exchange", "clear", "extend", "extend", "extend_ref",
    "new", "unit", "pair", "from_iter", "from_iter", "collect_from", "clone", "clone_from", "pool_clone", "pool_default", "it_ref", "it_mut", "it_own", "it_drain", "insert_huge", "leak_own", "leak_drain",
];
/// operations that move many elements
pub const JUMP: &[&str] = &[
    "insert", "insert", "insert_from", "insert_from", "insert_from", "remove", "remove", "push_back", "push_front", "drop_left", "drop_right", "split_off", "split_off",
    "append", "append", "drain_from", "drain_from_front", "drain_from_front", "drain_from_back", "drain_from_back", "from_front", "from_back", "exchange", "extend", "extend_ref",
    "clone", "clone_from", "pool_clone", "it_ref", "it_own", "it_drain", "collect_from", "leak_drain",
];
pub const MOVES: &[&str] = &[
    "append", "append", "append", "drain_from", "drain_from_front", "drain_from_front", "drain_from_front", "drain_from_back", "drain_from_back", "drain_from_back", "split_off", "split_off", "from_front", "from_back", "exchange",
];
pub const INL: &[&str] = &[
    "push_back", "push_back", "push_back", "pop_back", "insert", "insert", "insert", "remove", "index", "index_mut", "get", "get_mut", "first_last", "swap", "split_off", "exchange", "clear", "extend", "extend_ref",
    "new", "from_iter", "clone", "clone_from", "it_ref", "it_mut", "it_own", "it_drain", "leak_own", "leak_drain",
];
pub const XF: &[&str] = &["b_push", "b_push", "b_push", "b_pop", "b_remove", "from_inline", "from_inline_mut", "push_back", "push_front", "pop_back", "pop_front"];
pub const IO: &[&str] = &["io_write", "io_write", "io_write", "io_read", "io_read", "io_read", "push_back", "push_front", "pop_back", "pop_front", "drop_left", "drop_right", "append", "drain_from_back", "exchange", "insert", "remove"];
pub const AFTER: &[&str] = &["push_back", "push_front", "pop_back", "pop_front", "insert", "remove", "clone", "extend", "drop_left", "drop_right", "append", "it_drain", "it_own", "clear", "index", "split_off", "set"];
pub const AFTERI: &[&str] = &["push_back", "pop_back", "insert", "remove", "clone", "extend", "it_drain", "it_own", "clear", "index", "split_off"];


pub fn graph(args: &crate::rt::Args) -> std::sync::Arc<crate::graph::Graph> {
    let mut text = String::new();
    for g in &args.graphs {
        text.push_str(&std::fs::read_to_string(g).unwrap());
    }
    let g = crate::graph::Graph::load(&text);
    println!("GRAPH states {} transitions {}", g.states.len(), g.edges);
    std::sync::Arc::new(g)
}
pub const SPARSE: &[&str] = &[
    "insert", "insert", "insert", "insert", "insert", "insert", "remove", "remove", "pop", "get", "get_mut", "index", "index_mut", "first_index", "clone", "clone_from", "pool_clone", "pool_default",
    "exchange", "new", "unit", "pair", "from_iter", "sp_ref", "sp_mut", "sp_own", "sp_entries", "sp_indices", "sp_opt", "sp_optmut", "sp_optdrain",
];
pub const AFTERSP: &[&str] = &["insert", "remove", "pop", "get", "clone", "exchange", "sp_own", "sp_optdrain", "sp_mut", "pool_clone"];
pub const SLICES: &[&str] = &["push_back", "push_back", "push_back", "push_front", "push_front", "push_front", "pop_back", "pop_front", "extend", "drop_left", "insert",
    "sl_view", "sl_view", "sl_view", "sl_index", "sl_get", "sl_iter", "sl_iter", "sl_owned", "sm_index", "sm_get_mut", "sm_set", "sm_swap", "sm_map_pair", "sm_iter", "sm_iter", "sm_ends", "sm_split"];
