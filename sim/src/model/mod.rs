pub mod h2;
pub mod headers;
pub mod hpack;
pub mod hpack_tables;
pub mod ws;
pub mod http1;
