//! Stand-in: a progress bar that shows nothing.
#[derive(Clone, Debug)]
pub struct ProgressBar;
pub struct ProgressStyle;
pub struct HumanCount(pub u64);
impl std::fmt::Display for HumanCount {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
}
#[derive(Debug)]
pub struct TemplateError;
impl ProgressStyle {
    pub fn with_template(_: &str) -> Result<Self, TemplateError> { Ok(Self) }
    pub fn default_spinner() -> Self { Self }
    pub fn default_bar() -> Self { Self }
}
impl ProgressBar {
    pub fn new_spinner() -> Self { Self }
    pub fn new(_: u64) -> Self { Self }
    pub fn hidden() -> Self { Self }
    pub fn set_style(&self, _: ProgressStyle) {}
    pub fn inc(&self, _: u64) {}
    pub fn per_sec(&self) -> f64 { 0.0 }
    pub fn set_message<T>(&self, _: T) {}
    pub fn finish(&self) {}
}
