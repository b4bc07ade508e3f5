//! Stand-in for env_logger: every message on stderr, without time.
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("blocks_crawler") {
            eprintln!("{} {}", r.level(), r.args());
        }
    }
    fn flush(&self) {}
}
pub fn init() {
    let _ = log::set_logger(&L);
    log::set_max_level(log::LevelFilter::Debug);
}
pub fn try_init() -> Result<(), log::SetLoggerError> {
    init();
    Ok(())
}
