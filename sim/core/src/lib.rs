pub mod binlog;
pub mod canon;
pub mod choice;
pub mod gen;
pub mod history;
pub mod server;
pub mod world;
