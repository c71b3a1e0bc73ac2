//! The server, with a first identifier of our choice (ROSTER_VERIF_FIRST_ID):
//! one which already had many connections.
use std::sync::Arc;

use roster::infrastructure::config::Cfg;
use roster::ServerConfigBuilder;

fn main() {
    let config = Cfg::from_env().expect("configuration");
    ServerConfigBuilder::default()
        .connections_limit(Arc::new(config.max_connection.into()))
        .bind_addr(config.bind_addr)
        .build()
        .expect("config")
        .initialize()
        .join();
}
