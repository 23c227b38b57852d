//! Stands in for tokio 1.14.0: synchronisation, I/O utilities and macros are tokio's own code with
//! scheduling points; sockets, tasks, time, standard input and the runtime are simulated.

pub use tokio_core::{join, pin, select, sync, try_join};
pub use tokio_macros::{main, test};
#[doc(hidden)]
pub use tokio_core::{macros, select_priv_clean_pattern, select_priv_declare_output_enum};
pub use task::spawn;

pub mod io;
pub mod net;
pub mod runtime;
pub mod task;
pub mod time;
