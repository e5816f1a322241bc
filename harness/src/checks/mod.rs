pub mod nostd;
pub mod routing;
pub mod logs;
pub mod example;
pub mod client_env;
pub mod hostile;
pub mod lifecycle;
pub mod broadcasts;
pub mod delivery;
pub mod codec;
pub mod ids;
pub mod messages;
pub mod values;
pub mod resources;
pub mod server;
