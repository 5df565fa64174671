//! Nothing: the plugin only matters to the real derive.
