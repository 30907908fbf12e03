#[derive(Clone, Copy, Debug)]
pub enum Colour {
    Red,
    Green,
    Yellow,
}
pub use Colour as Color;
impl Colour {
    pub fn paint<S: Into<String>>(self, s: S) -> String {
        s.into()
    }
}
