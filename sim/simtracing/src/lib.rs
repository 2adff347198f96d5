//! Stands in for `tracing_subscriber` in the language server: `init` installs the subscriber for
//! the simulated process (the current thread) instead of the whole harness process.
pub use tracing_subscriber::*;
use std::cell::RefCell;
use tracing::Subscriber;

thread_local! {
    static GUARD: RefCell<Option<tracing::subscriber::DefaultGuard>> = const { RefCell::new(None) };
}

fn install(s: impl Subscriber + Send + Sync + 'static) {
    let g = tracing::subscriber::set_default(s);
    GUARD.with(|c| *c.borrow_mut() = Some(g));
}

/// Ends logging of the simulated process.
pub fn uninstall() {
    GUARD.with(|c| drop(c.borrow_mut().take()));
}

pub fn fmt() -> fmt::SubscriberBuilder {
    fmt::SubscriberBuilder(tracing_subscriber::fmt())
}

pub mod util {
    pub use tracing_subscriber::util::TryInitError;
    use tracing::Subscriber;
    pub trait SubscriberInitExt: Sized {
        fn init(self);
        fn try_init(self) -> Result<(), TryInitError>;
        fn set_default(self) -> tracing::subscriber::DefaultGuard;
    }
    impl<T: Subscriber + Send + Sync + 'static> SubscriberInitExt for T {
        fn init(self) {
            super::install(self)
        }
        fn try_init(self) -> Result<(), TryInitError> {
            super::install(self);
            Ok(())
        }
        fn set_default(self) -> tracing::subscriber::DefaultGuard {
            tracing::subscriber::set_default(self)
        }
    }
}

pub mod prelude {
    pub use super::util::SubscriberInitExt as __tracing_subscriber_SubscriberInitExt;
    pub use tracing_subscriber::field::{
        MakeExt as __tracing_subscriber_field_MakeExt, RecordFields as __tracing_subscriber_field_RecordFields,
    };
    pub use tracing_subscriber::layer::{
        Layer as __tracing_subscriber_Layer, SubscriberExt as __tracing_subscriber_SubscriberExt,
    };
}

pub mod fmt {
    pub use tracing_subscriber::fmt::*;
    use tracing_subscriber::fmt as real;

    pub fn fmt() -> SubscriberBuilder {
        super::fmt()
    }
    pub fn init() {
        super::fmt().init()
    }

    pub struct SubscriberBuilder<
        N = real::format::DefaultFields,
        E = real::format::Format<real::format::Full>,
        F = tracing_subscriber::filter::LevelFilter,
        W = fn() -> std::io::Stdout,
    >(pub(crate) real::SubscriberBuilder<N, E, F, W>);

    impl<N, E, F, W> SubscriberBuilder<N, E, F, W>
    where
        N: for<'w> FormatFields<'w> + Send + Sync + 'static,
        E: FormatEvent<tracing_subscriber::Registry, N> + Send + Sync + 'static,
        W: for<'w> MakeWriter<'w> + Send + Sync + 'static,
        F: tracing_subscriber::layer::Layer<real::Formatter<N, E, W>> + Send + Sync + 'static,
        real::Layer<tracing_subscriber::Registry, N, E, W>:
            tracing_subscriber::layer::Layer<tracing_subscriber::Registry> + Send + Sync + 'static,
        tracing_subscriber::layer::Layered<F, real::Formatter<N, E, W>>:
            tracing::Subscriber + Send + Sync + 'static,
        real::Subscriber<N, E, F, W>: tracing::Subscriber + Send + Sync + 'static,
    {
        pub fn finish(self) -> real::Subscriber<N, E, F, W> {
            self.0.finish()
        }
        pub fn init(self) {
            super::install(self.0.finish())
        }
        pub fn try_init(self) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
            super::install(self.0.finish());
            Ok(())
        }
    }

    impl<N, E, F, W> SubscriberBuilder<N, E, F, W> {
        pub fn with_writer<W2>(self, w: W2) -> SubscriberBuilder<N, E, F, W2>
        where
            W2: for<'w> MakeWriter<'w> + 'static,
        {
            SubscriberBuilder(self.0.with_writer(w))
        }
        pub fn with_max_level(
            self,
            f: impl Into<tracing_subscriber::filter::LevelFilter>,
        ) -> SubscriberBuilder<N, E, tracing_subscriber::filter::LevelFilter, W> {
            SubscriberBuilder(self.0.with_max_level(f))
        }
    }
    impl<N, L, T, F, W> SubscriberBuilder<N, real::format::Format<L, T>, F, W>
    where
        N: for<'w> FormatFields<'w> + 'static,
    {
        pub fn with_ansi(self, a: bool) -> SubscriberBuilder<N, real::format::Format<L, T>, F, W> {
            SubscriberBuilder(self.0.with_ansi(a))
        }
        pub fn with_target(self, a: bool) -> SubscriberBuilder<N, real::format::Format<L, T>, F, W> {
            SubscriberBuilder(self.0.with_target(a))
        }
        pub fn with_level(self, a: bool) -> SubscriberBuilder<N, real::format::Format<L, T>, F, W> {
            SubscriberBuilder(self.0.with_level(a))
        }
        pub fn without_time(self) -> SubscriberBuilder<N, real::format::Format<L, ()>, F, W> {
            SubscriberBuilder(self.0.without_time())
        }
        pub fn compact(self) -> SubscriberBuilder<N, real::format::Format<real::format::Compact, T>, F, W> {
            SubscriberBuilder(self.0.compact())
        }
    }
}
