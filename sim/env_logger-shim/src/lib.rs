//! env_logger, except that a second simulated process may initialise it too.
pub use real_env_logger::*;
pub fn init() {
    let _ = real_env_logger::try_init();
}
pub fn try_init() -> Result<(), log::SetLoggerError> {
    let _ = real_env_logger::try_init();
    Ok(())
}

/// The real builder, which may be asked to initialise more than once
pub struct Builder(real_env_logger::Builder);
macro_rules! forward {
    ($($f:ident($($a:ident: $t:ty),*));* $(;)?) => {
        $(pub fn $f(&mut self, $($a: $t),*) -> &mut Self {
            self.0.$f($($a),*);
            self
        })*
    };
}
impl Default for Builder {
    fn default() -> Self {
        Builder::new()
    }
}
impl Builder {
    pub fn new() -> Self {
        Builder(real_env_logger::Builder::new())
    }
    pub fn from_default_env() -> Self {
        Builder(real_env_logger::Builder::from_default_env())
    }
    pub fn from_env<'a, E: Into<Env<'a>>>(env: E) -> Self {
        Builder(real_env_logger::Builder::from_env(env))
    }
    pub fn parse_env<'a, E: Into<Env<'a>>>(&mut self, env: E) -> &mut Self {
        self.0.parse_env(env);
        self
    }
    forward! {
        parse_default_env();
        filter_level(level: log::LevelFilter);
        filter(module: Option<&str>, level: log::LevelFilter);
        filter_module(module: &str, level: log::LevelFilter);
        parse_filters(filters: &str);
        parse_write_style(style: &str);
        target(target: Target);
        write_style(style: WriteStyle);
        is_test(is: bool);
        format_module_path(write: bool);
        format_level(write: bool);
        format_target(write: bool);
    }
    pub fn init(&mut self) {
        let _ = self.0.try_init();
    }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        let _ = self.0.try_init();
        Ok(())
    }
}
pub fn builder() -> Builder {
    Builder::from_default_env()
}
