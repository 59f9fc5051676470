pub use crate::parser::view::models::layout::Size;
// sizes: -1 and -2 stand for the two named sizes
pub open spec fn enc__Size(s: Size) -> Option<J> { Some(J::Int(match s { Size::MatchParent => -2, Size::WrapContent => -1, Size::Fixed(n) => n as int })) }
pub open spec fn dec__Size(j: J) -> Option<Size> { match j { J::Int(n) => if n == -2 { Some(Size::MatchParent) } else if n == -1 { Some(Size::WrapContent) } else if i32::MIN <= n <= i32::MAX { Some(Size::Fixed(n as i32)) } else { None }, _ => None } }
pub open spec fn good__Size(s: Size) -> bool { match s { Size::Fixed(n) => n != -1 && n != -2, _ => true } }
pub proof fn rt__Size(s: Size) requires good__Size(s) ensures enc__Size(s) matches Some(j) ==> dec__Size(j) == Some(s) {}
